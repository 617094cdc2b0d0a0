#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
CHECKS = [
 # id, technique, level, note
 ("C01",
  "bounded exhaustive enumeration of files, rendered and parsed by the real code",
  "model_checking",
  "Every file of the stated bounded spaces survives saving and loading; larger files rest on the small-scope argument."),
 ("C02",
  "bounded exhaustive enumeration of line sequences, fixed point after one save",
  "model_checking",
  "Every accepted sequence of fragments within the bound is stable; longer texts rest on the small-scope argument."),
 ("C03",
  "bounded exhaustive enumeration of inputs with time and memory watch",
  "model_checking",
  "Every input within the bounds terminates with a file or an error in proportionate memory (counted by the allocator)."),
 ("C04",
  "exhaustive line sequences against an independent reference parser (model conformance)",
  "model_checking",
  "The reference parser of harness/src/lines.rs is trusted; every trace of it within the bounds is replayed on the code."),
 ("C05",
  "exhaustive placement of malformed lines in enumerated contexts",
  "model_checking",
  "Every listed kind of fault at every position of every explored context; fields given twice are unspecified."),
 ("C06",
  "all strings up to a length against a reference transducer",
  "model_checking",
  "Complete up to the length bound over an alphabet that holds every character the code distinguishes."),
 ("C07",
  "all piece sequences and widths against structural constraints on the written lines",
  "model_checking",
  "Line break opportunities and widths are those of unicode-linebreak and unicode-width, which are trusted."),
 ("C08",
  "all bounded message sets, byte orders and revisions, written and read by the real code",
  "model_checking",
  "Complete for the stated catalogues; judged by round trip."),
 ("C09",
  "all bounded message sets, compiled bytes judged by an independent MO reader",
  "model_checking",
  "The independent reader of harness/src/mo.rs is trusted."),
 ("C10",
  "all truncations and boundary word values of valid files, all short inputs, independent MO reader",
  "model_checking",
  "Complete for the stated corruptions; memory counted by the allocator."),
 ("C11",
  "all bounded mixes of message shapes, compiled and judged by an independent MO reader",
  "model_checking",
  "The reference predicate of translated messages and the MO reader are trusted."),
 ("C12",
  "all message shapes and bounded mixes of them against reference predicates",
  "model_checking",
  "Complete for the stated shapes and file sizes."),
 ("C13",
  "explicit-state exploration of operation sequences against a list model",
  "model_checking",
  "Every history within the depth is replayed on the code and compared with the model after each step."),
 ("C14",
  "all bounded pairs of files and repeated merges against a reference merge",
  "model_checking",
  "One known finding: messages present in both files keep their own fields."),
 ("C15",
  "all pairs and triples of a message universe for all 256 field selections",
  "model_checking",
  "Order laws and a reference comparison, complete over the universe."),
 ("C16",
  "all bounded key sets and insertion orders against a reference order",
  "model_checking",
  "Complete for the stated key sets; repeated builds expose hash order."),
 ("C17",
  "all input forms of enumerated inputs compared with each other",
  "model_checking",
  "Complete for the stated inputs; errors compared by their text."),
 ("C18",
  "storage fault at every byte position of every save",
  "fault_enumeration",
  "The operating system cuts the write after every byte (file size limit); durability after a power failure is not promised by the library."),
 ("C19",
  "exhaustive operation sequences run in Python and in Rust side by side",
  "model_checking",
  "The Rust library is the model; every program within the bounds is executed by a real interpreter with the extension module."),
 ("C20",
  "all bounded messages and MO files, converted, written, parsed and compiled again",
  "model_checking",
  "Complete for the stated shapes; judged by field equality and an independent MO reader."),
 ("C21",
  "all bounded operation histories against fresh processes, explicit-state exploration of live files",
  "model_checking",
  "The first operation of a fresh process is the reference."),
 ("C22",
  "all layouts of small catalogues written by an independent MO writer",
  "model_checking",
  "The independent writer is trusted; complete for the stated layouts."),
]
NA = []
d = {
 "version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "checks": [
  {"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick",
   "thorough_cmd": f"bash /verif/check.sh {i} thorough",
   "technique": t, "level": l, "level_note": n}
  for i, t, l, n in CHECKS],
 "not_applicable": NA,
}
json.dump(d, open("/verif/MANIFEST.json", "w"), indent=1)
