"""T08: heap order of treaps and Cartesian trees."""
from treelib import make

make(globals(), ["TREAP", "CART"], lambda k: ["links", "map", "order", "heap"] + (["prio"] if k == "CART" else []))
