"""X01: the C++ trees satisfy the specification of the Python trees."""
from treelib import make

OWN = {"AVL": ["avl"], "RB": ["rb"], "SPLAY": ["splay"], "TREAP": ["heap"], "CART": ["heap", "prio"]}
make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP", "CART"], lambda k: ["links", "map", "order"] + OWN.get(k, []),
     looks=["paths", "stats", "bounds", "lcas", "travs"], heavy=2, join=True, be="cpp", pick=2)
