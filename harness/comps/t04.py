"""T04: lowest common ancestors."""
from treelib import make

make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP", "CART"], ["links"], looks=["lcas"], heavy=2)
