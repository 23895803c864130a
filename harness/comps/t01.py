"""T01: exact maps in key order."""
from treelib import make

make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP"], ["links", "map", "order"], looks=["paths"], sample=.6)
