"""T01, C++ backend: exact maps in key order."""
from treelib import make

make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP"], ["links", "map", "order"], looks=["paths"], be="cpp", few=True)
