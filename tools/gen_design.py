#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design.in.md, the evidence of the last quick
runs (sizes of the spaces), the times of the thorough runs and the planted
bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

ORACLE = {
    "C01": "Law: parsing the rendering of a file gives the file, up to the normalisations named in the statement. Files are built from values, so the oracle is the value itself. Tests: a dozen fixtures at width 78.",
    "C02": "Law: the second save equals the first, and the file read back after it is the same. Only texts the parser accepts are judged. Tests save each fixture once.",
    "C03": "Law: opening returns, within 60 s per unit and 8 MiB + 4096 bytes per byte of input; a panic, abort or hang is seen because the exploration runs in a child process.",
    "C04": "Oracle: a reference PO reader (`lines.rs`), a state machine written from the format and not from the library's table. Every explored trace of the model is replayed on the library and compared including line numbers, header and metadata. Law for layouts: the same result whatever the layout.",
    "C05": "Oracle: the grammar automaton gives for each well-formed prefix exactly the line kinds that may follow; every other kind, and each of 69 lines that are malformed anywhere, must be rejected with that line's number, whatever follows.",
    "C06": "Oracle: a reference transducer, and the law that unescaping inverts escaping.",
    "C07": "Oracle: structural. The pieces join to the escaped text; no line is wider than allowed if it *could have been broken further*; breaks are legal by the unicode-linebreak crate and made only when needed.",
    "C08": "Law: compiling and reading back gives the messages and metadata; re-compiling gives the same bytes.",
    "C09": "Oracle: an independent checker of the GNU MO layout and an independent reader that finds every message by binary search. The same spaces as C08.",
    "C10": "Oracle: a reference MO reader decides which byte strings must be errors and what the content of the others is; memory is bounded.",
    "C11": "Oracle: a reference predicate for the messages that belong in an MO file, applied through every way of compiling, converting and saving.",
    "C12": "Oracle: reference predicates for the classes; the lists partition the file and the percentage is the exact rounded-down quotient.",
    "C13": "Explicit-state search: every file over a small universe of messages is a state, every operation from it is compared with a list model, and every query is answered in every state.",
    "C14": "Oracle: a reference merge on lists of messages.",
    "C15": "Laws of a total order over all pairs and triples for all 256 selections of fields (built in 7 ways), and a reference comparison.",
    "C16": "Oracle: a reference order of the items. The order of a hash map is nondeterminism the check cannot control; each map has a fresh random state and each case is run with several maps, and as the reference order leaves one admissible output, no order has to be provoked. Only in *level*, where the order of the keys is left open, is agreement between 16 maps all that is compared.",
    "C17": "Law: all ways of opening the same data agree, error texts included (apart from the file name).",
    "C18": "Fault enumeration: a process with `RLIMIT_FSIZE` saves to a storage that stops accepting data after every number of bytes; the outcome must be the complete file or a visible failure.",
    "C19": "The same sequence of operations is interpreted by a Python driver on the extension module and by a Rust twin on the crate; complete observations are compared after every step.",
    "C20": "Law: the shared fields are kept, everything else is empty; rendering an MO file and reading it as PO keeps its content.",
    "C21": "The result of each operation as the first one of fresh processes is recorded; every sequence of operations, in fresh and in long-lived processes, must reproduce it. Live files are compared with fresh equal ones and with copies after every change.",
    "C22": "An MO assembler enumerates layouts of known catalogues; the oracle is the catalogue.",
}


def main():
    props = [json.loads(l) for l in open(f"{VERIF}/properties.jsonl")]
    times = json.load(open(f"{HERE}/thorough_times.json"))
    out = []
    for p in props:
        i = p["id"]
        e = json.load(open(f"{VERIF}/evidence/{i}.json"))
        c = e["coverage"]
        quick = round(sum(s["wall_s"] for s in c["spaces"]))
        out.append(f"### {i} {p['title']} ({quick} / {times.get(i, '?')})\n")
        out.append(ORACLE[i] + "\n")
        for s in c["spaces"]:
            out.append(f"* *{s['name']}* ({s['units']:,}) — {s['enumerates']}")
        out.append("")
    rows = ["| planted bug | needs | breaks |", "|---|---|---|"]
    for d in sorted(glob.glob(f"{VERIF}/seeded/*/")):
        m = json.load(open(d + "meta.json"))
        rows.append(
            "| %s | %s | %s |"
            % (d.split("/")[-2], m["needs"], m["what_it_breaks"])
        )
    t = open(f"{HERE}/design.in.md").read()
    t = t.replace("@@PROPS@@", "\n".join(out).rstrip())
    t = t.replace("@@PLANTED@@", "\n".join(rows))
    open(f"{VERIF}/DESIGN.md", "w").write(t)


main()
