"""T07: splaying, split and join."""
from treelib import make

make(globals(), ["SPLAY"], ["links", "map", "order", "splay"], join=True)
