"""C09: a gate call puts its gate into the last layer, where that leaves its register idle, or into a new one; every other gate keeps its
place.  By induction over the calls (ghost History) gates that share a register are in layers of the order of the calls."""
from .c11 import general, populates


def tasks():
    return populates(("fresh", "open")) + [general(st) for st in ("fresh", "open")]
