"""T02, C++ backend: rank and select."""
from treelib import make

make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP", "CART"], [], looks=["stats"], heavy=4, join=True, be="cpp", few=True)
