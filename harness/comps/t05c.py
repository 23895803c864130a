"""T05, C++ backend: AVL balance."""
from treelib import make

make(globals(), ["AVL"], ["links", "map", "order", "avl"], be="cpp", few=True)
