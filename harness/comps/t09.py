"""T09: traversals."""
from treelib import make

make(globals(), ["BST", "AVL", "RB", "SPLAY", "TREAP", "CART"], ["links"], looks=["travs"], heavy=2)
