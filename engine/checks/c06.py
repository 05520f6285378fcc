"""Short reads: the reader under every way of splitting what it asks for meets the specification of the unsplit stream."""
from reading import *


def run(C):
    with C.part("search"):
        search(C, "split", "search")
    with C.part("sections"):
        chain(C, "split", ("accept",))
    with C.part("payload"):
        payload(C, "split")
    if undecided(C) and not violations(C):
        confirm(C, "short reads", cuts=((1,), (3, 2), (7, 1, 4096), (1000,)))
