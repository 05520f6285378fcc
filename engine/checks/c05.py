"""The section list and the indices into it, over every history; iteration by slots."""
from sequence import *
import c34


def run(C):
    parsers(C, ("list", "section"), ("indices",))
    whole_files(C, ("list",))
    c34.run(C)
