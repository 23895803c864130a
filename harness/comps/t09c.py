"""T09, C++ backend: traversals."""
from treelib import make

make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP", "CART"], ["links"], looks=["travs"], heavy=2, be="cpp", few=True)
