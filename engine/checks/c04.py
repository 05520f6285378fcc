"""Offsets, sizes, numbers and payloads of sections against the ghost position of the stream."""
from reading import *


def run(C):
    with C.part("sections"):
        chain(C, "full", ("accept",))
    with C.part("payload"):
        payload(C, "full")
    if undecided(C) and not violations(C):
        confirm(C, "sections")
