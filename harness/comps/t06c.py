"""T06, C++ backend: red-black colours."""
from treelib import make

make(globals(), ["RB"], ["links", "map", "order", "rb"], be="cpp", few=True)
