"""T06: red-black colours."""
from treelib import make

make(globals(), ["RB"], ["links", "map", "order", "rb"])
