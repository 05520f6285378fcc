"""Message and submessage numbers over every history, and the submessage the command line tool picks."""
from sequence import *
import c36


def run(C):
    parsers(C, ("number",))
    whole_files(C, ("number",), roots=("open",))
    c36.search(C)
