"""T03, C++ backend: lower and upper bounds."""
from treelib import make

make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP", "CART"], [], looks=["bounds"], heavy=3, be="cpp", few=True)
