"""The sections of each submessage, over every history."""
from sequence import *


def run(C):
    parsers(C, ("section",))
    whole_files(C, ("section",), roots=("open",))
