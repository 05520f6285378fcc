"""Panic freedom of the container: every panic obligation met while reading arbitrary bytes and parsing arbitrary section sequences."""
from reading import *
import sequence


def run(C):
    with C.part("search"):
        an = search(C, "split", "search", False)
        C.no_panic(an, "search for a message")
    for n in (0, 3, 4, 15, 16, 17, 18, 21):
        with C.part(f"search in {n} octets"):
            C.no_panic(short_search(C, f"search in {n} octets", n, False), f"search in {n} octets")
    for n in (4080, 4081):
        with C.part(f"search after {n} octets of zeros"):
            C.no_panic(far_search(C, f"search after {n} octets of zeros", n), f"search after {n} octets of zeros")
    with C.part("sections"):
        an = chain(C, "full", ())
        C.no_panic(an, "reading sections")
    with C.part("payload"):
        an = payload(C, "full")
        C.no_panic(an, "reading a payload")
    for w in ("sections", "indices"):
        with C.part(f"parser of {w}"):
            an = An("roots")
            C.an = an
            sequence.explore(C, sequence.Machine(C, an, w), ())
            C.no_panic(an, f"parser of {w}")
            C.used(an)
