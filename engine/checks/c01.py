"""Section order: every history of sections, read errors and ends of data against the grammar."""
from sequence import *


def run(C):
    parsers(C, ("order",))
    whole_files(C, ("order",))
