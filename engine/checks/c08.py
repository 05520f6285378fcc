"""The search for a message start: a monitor follows the positions ruled out along every path through the scan loops."""
from reading import *


def run(C):
    with C.part("search"):
        search(C, "full", "search")
    for n in (0, 3, 4, 15, 16, 17, 18, 21):
        with C.part(f"search in {n} octets"):
            short_search(C, f"search in {n} octets", n)
    if undecided(C) and not violations(C):
        confirm(C, "search")
