"""T05: AVL balance."""
from treelib import make

make(globals(), ["AVL"], ["links", "map", "order", "avl"])
