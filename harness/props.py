"""Which components decide which property."""
PROPS = {
    "X03": ["faults"],
    "X02": ["offer"],
    "P01": ["printed"],
    "A06": ["typed"],
    "N01": ["nodes"],
    "A01": ["array1"],
    "A02": ["dynarray"],
    "A03": ["arraym"],
    "D01": ["dsu"],
    "D02": ["multiset"],
    "D03": ["rqstatic"],
    "D04": ["rqdynamic"],
    "D05": ["stab"],
    "D06": ["bit"],
    "H01": ["heap"],
    "H02": ["binheap"],
    "Q01": ["stack"],
    "Q02": ["deque"],
    "Q03": ["pqueue"],
    "A04": ["linkedlist"],
    "A05": ["skiplist"],
    "S01": ["trie"],
    "S02": ["strmatch"],
    "T01": ["t01", "t01c"],
    "T02": ["t02", "t02c"],
    "T03": ["t03", "t03c"],
    "T04": ["t04", "t04c"],
    "T05": ["t05", "t05c"],
    "T06": ["t06", "t06c"],
    "T07": ["t07", "t07c"],
    "T08": ["t08", "t08c"],
    "T09": ["t09", "t09c"],
    "O01": ["sort"],
    "O02": ["search"],
    "O03": ["bounds"],
    "O04": ["perms"],
    "O05": ["subseq"],
    "O06": ["matmul"],
    "G01": ["graph"],
    "G02": ["g02"],
    "G03": ["g03"],
    "G04": ["g04"],
    "G05": ["g05"],
    "G06": ["g06"],
    "G07": ["g07"],
    "G08": ["g08"],
    "G09": ["g09"],
    "G10": ["g10"],
    "X01": ["x01"],
}
