"""Writes DESIGN.md from props.py, the bounds below, the planted changes and design/*.md."""
import sys, os, json, glob
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import P
B = {
"C01": "Every history over 256 section numbers, read failures and ends of data; no bound (finite abstract states). Right after Section 7 an error or the end of data gives just that error.",
"C02": "Same state space with section tokens. The End Section of a submessage that is not the last of its message is unspecified (the code documents a quirk).",
"C03": "Counters exact up to about 300 and inductive beyond; a wrap at 65536 would be undecided.",
"C04": "All positions, lengths and garbage symbolic; what follows an error is unspecified.",
"C05": "As C02; table contents slot by slot.",
"C06": "Reads of up to 16 octets: every way to split them. Larger buffers: at most two arbitrarily short reads in each. Result compared with that of a reader that fills every buffer.",
"C07": "Search: symbolic, plus every position of streams of 0-21 octets and of a first buffer starting with 4080/4081 zeros; sections: inductive over the stream, all section numbers and lengths; payloads of any length. Memory exhaustion (`vec![0; size]` of a declared length) is not covered.",
"C08": "Ghost position followed through both loops, any length and alignment; the short streams of C07 octet by octet.",
"C09": "Octet table, all payloads.", "C10": "Octet table per template, all payloads.",
"C11": "All 65536 template numbers partitioned; octet table per template.",
"C12": "Symbolic bits, every bit pattern of each width.",
"C13": "Octet tables of templates 5.0/2/3/40/41/200; any kind of error counts as refusal.",
"C14": "All template numbers and bit-map indicators.",
"C15": "Every packed integer and scale factor, first values and groups; formula by normal form of float trees. Algebraically rewritten formulas that round differently are undecided; float overflow and underflow are ignored.",
"C16": "Symbolic bits; the iterator's step is proved inductively.",
"C17": "Parameter sets fixed (bit widths 0-32, one to a few groups), payload symbolic; group lengths assumed to fit 32 bits.",
"C18": "Orders 1 and 2, symbolic values, missing values anywhere among the first ones, step inductive.",
"C19": "Eight parameter sets, all code patterns of 1-3 codes, codes and level values symbolic. Runs of levels that are not listed are undecided.",
"C20": "All widths 1-32, all bit offsets, step inductive.",
"C21": "Templates 0/2/3/40/41 and unknown ones: sections of any length and content up to the iterator; template 200 for each bit width, and exactly for data of 1-4 octets of eleven parameter sets; the first three values for boundary parameter sets. Section 6 of at least 6 octets and Section 5 of at least 11 are guaranteed by the reader. Undecided: the PNG buffer size, a product in the JPEG wrapper, panics depending on widened loops. Recorded finding: sums of packed integers beyond 32 bits. Memory exhaustion is not covered.",
"C22": "All accessors with payloads of any length; grids of any size for the first steps, every step of grids up to 3x3.",
"C23": "The library's functions are typed resources: create may return null, the header may fail with or without an image, decoding failure leaves null data, images of one or three components, plain or sub-sampled. Destructors are executed from the MIR's drop terminators. The read callback is explored for three calls of any counts (every offset they reach) and must answer all-ones at the end. Not covered: unwinding paths; leaking the user data when no stream could be created.",
"C24": "All 256 flag values per template; bits 3-8 of the projection centre flag must be refused.",
"C25": "Inductive step for any ni, nj and all scanning modes; exact for grids up to 3x3.",
"C26": "All paths to success.", "C27": "Grids of any size by sequence summaries. Unspecified: several rows over a zero latitude range.",
"C28": "0, 1 and 3 points and any N; the `proj` crate is absent, so the projection is a stand-in library and no demonstration can be built here.",
"C29": "All shape codes, factors and values; scaled values of spheres and spheroids compared by normal form.",
"C30": "Marker tables naming themselves stand in for the WMO tables (empty submodules).",
"C31": "All bit patterns.", "C32": "All codes and values.", "C33": "All 2^56 contents of the octets; calendar constructor modelled with its partial domain.",
"C34": "Inductive over next/nth/size_hint for any number of submessages.",
"C35": "I/O failures at each call; the loop over values unbounded. Code collecting all octets first is undecided.",
"C36": "Every discarded Result of the CLI; index strings symbolic. Coordinate errors matter only for text output; an empty file is an error.",
"C37": "0, 1 and 3 points and any N.", "C38": "Tables up to 5 rows, ranges up to 3 codes, entries symbolic; the step inductive.",
"C39": "Texts without separators; failures at each I/O call.", "C40": "Tables up to 4 lines.",
"C41": "1-3 submessages; the layout (spacing, captions) is unspecified; `info` fails as a whole on an invalid reference time.",
}
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["needs"]))
head = open(H + "/design/head.md").read(); tail = open(H + "/design/tail.md").read()
with open(V + "/DESIGN.md", "w") as f:
    f.write(head)
    f.write("## Per property\nFor each: deciding method; quantified over; bounds and what is left unspecified; why tests cannot; planted changes the check catches.\n\n")
    for p in P:
        i = p["id"]
        f.write(f"- **{i} {p['title']}**: {p['technique']}. Over {p['qtext']}. {B[i]} Tests cannot: {p['why']}")
        f.write(f" Planted: {', '.join(s for s, _ in seeds.get(i, [])) or 'none (see bounds)'}.\n")
    f.write("\n" + tail)
