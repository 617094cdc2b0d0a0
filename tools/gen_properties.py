import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
PP="rust/src/poparser.rs";PE="rust/src/entry/poentry.rs";EM="rust/src/entry/mod.rs";PF="rust/src/file/pofile.rs";MF="rust/src/file/mofile.rs";MP="rust/src/moparser.rs";TW="rust/src/twrapper.rs";ES="rust/src/escaping.rs";ER="rust/src/errors.rs";FM="rust/src/file/mod.rs";ME="rust/src/entry/moentry.rs"
p("C01","Saving a PO file and loading it again loses nothing",
"Writing any PO file to text, at any wrap width, and parsing that text again gives the same messages in the same order (obsolete ones after the others) with the same header, metadata and metadata fuzzy mark. Every context, source string, plural source, translation, plural translation, flag, source reference, comment, obsolete mark and previous-message string comes back unchanged. The only allowed differences are that a comment line longer than the wrap width may be broken into several at legal line break opportunities, blanks at the ends of comment lines and blank lines at the end of the header may go, obsolete messages carry no references or previous-message strings, and an absent and an empty translation, comment or header may be identified.",
["inputs","configurations"],"all file contents expressible in PO syntax (any characters in string fields; references without blanks and not ending in a colon, flags without commas, metadata values on one line; one metadata message; at most 1000 plural forms) x all wrap widths",
"The tests round-trip a dozen fixture files at the default width; the guarantee is over every combination of fields, characters and widths (a comment longer than the width, a translation ending in blanks, a third reference on a full line were all broken with the suite green).",
[PE,EM,PF,PP,TW,ES],[("entry rendering",PE),("string field rendering",EM),("file rendering",PF),("line parser",PP)],
["text of the file, text of an entry at a width","parsed file fields"])
p("C02","Re-saving a parsed PO file is stable",
"For every text the PO parser accepts, the rendered file is accepted again and describes the same header, metadata and messages (previous-message strings of obsolete messages excepted, which are not read). Rendering that second file gives exactly the same text, so loading and saving repeatedly never changes a file after the first save.",
["inputs","histories"],"all accepted texts, including oddly ordered and oddly spaced ones; any number of load/save rounds",
"Tests compare a few fixtures after one round; drift that needs a second round, or a text with unusual line order, is never run.",
[PP,PF,PE,EM],[("line parser",PP),("file rendering",PF)],["text after one and two load/save rounds"])
p("C03","Opening any input as PO never crashes, hangs or exhausts memory",
"For every text and every byte string, given directly or through a file, opening it as a PO file terminates and returns either a parsed file or an error. It never panics, never loops forever, and never uses memory out of proportion to the size of the input.",
["inputs"],"all strings and byte strings",
"Tests feed about ten hand-written malformed files; undefined keyword orders, lone quotes, multi-byte characters at slice positions, huge plural indexes and invalid UTF-8 all crashed or lost data while the suite passed.",
[PP,ES],[("transition table lookup",PP),("quote checking and slicing",PP),("plural index handling",PP)],["result of opening the input"],
[("parser state","which construct the previous line belonged to",PP)])
p("C04","Every PO line lands in the right field of the right message",
"For every sequence of well-formed PO lines, each line contributes exactly its content to the field and message the PO format assigns it: keyword strings and their continuation lines are concatenated and unescaped, plural translations are stored by index, each kind of comment, flag, reference and previous-message line belongs to the message that follows it, the obsolete mark belongs to its own message, the leading comment block is the header, and the context-free empty message is the metadata. Messages come out in file order with the number of the line they start on, and none is lost, merged or duplicated. Blank lines, indentation, trailing blanks, CRLF line ends, a byte order mark and the way a string is split over continuation lines do not change the result.",
["inputs","programs"],"all well-formed sequences of PO lines of every kind, with all layouts and plural indexes up to 999",
"Each test checks one hand-made arrangement; the number of arrangements of 15 line kinds is exponential, and a handler that leaks state from one message to the next needs a particular sequence.",
[PP,"rust/build.rs"],[("line classification",PP),("state transition table","rust/build.rs"),("per-construct handlers",PP)],["fields of parsed entries, header, metadata"],
[("parser state","which construct the previous line belonged to",PP),("current entry","message under construction",PP),("plural index","slot continuation lines append to",PP)])
p("C05","Malformed PO input is rejected, with the place of the first fault",
"Every PO text with a malformed line is rejected as a whole, never accepted with altered content: unknown keywords, unterminated, unquoted or wrongly quoted strings, invalid escapes, invalid plural indexes, keywords out of order, continuation lines with nothing to continue, and empty or unknown previous-message lines (fields given twice are left unspecified). Except for escape errors, the error carries the 1-based number of the first malformed line. The error names the file when the input was given as a path and does not when it was given as content.",
["inputs"],"all single malformed lines at every position of every well-formed context; content and path inputs",
"Tests have one example per message at one position; acceptance of a malformed line in another field, state or after another entry is not exercised.",
[PP,ER],[("unescaped quote check",PP),("transition table lookup",PP),("error construction",ER)],["error value and its text"])
p("C06","String escaping is lossless, single-line and strict",
"Unescaping the escaped form of any text gives back that text, and the escaped form contains no raw line feed, carriage return, tab or backspace, no unescaped double quote and no incomplete escape, so it can stand between double quotes on one line. Unescaping turns exactly the documented two-character sequences into their characters and leaves everything else untouched. It rejects any text with a trailing backslash or a backslash before any other character.",
["inputs"],"all strings",
"Tests check a fixed list of sequences one at a time; interactions (backslash runs before quotes, escapes next to multi-byte characters) need all short strings.",
[ES],[("escape",ES),("unescape",ES)],["escape, unescape results"])
p("C07","Line wrapping preserves text, respects the width and breaks legally",
"For every text and wrap width, joining the quoted lines written for a string field gives exactly the escaped text, and no line is wider than the wrap width if it could have been broken further. The width is that of the text between the quotes, on the first line together with the keyword (without the index of a plural form) and the blank after it; a text that fits stays on one line. Breaks occur only at legal Unicode line break opportunities, never inside an escape sequence, and only when the next piece would have reached the wrap width. References and comments are likewise continued on further marked lines without losing, repeating or reordering anything, each line within the width unless it holds a single unbreakable item.",
["inputs","configurations"],"all texts (ASCII, wide, combining, escapes, unbreakable runs) x all wrap widths, for string fields, references and comments",
"Tests fix four texts at one width each; off-by-one, multi-byte and escape-splitting faults depend on the exact pair of text and width.",
[TW,EM,PE],[("width accounting",TW),("field layout",EM),("reference and comment layout",PE)],["rendered lines of an entry at a width"])
p("C08","Compiled MO bytes parse back to the same messages",
"Encoding any MO file with distinct messages, in either byte order and with either valid revision, and parsing the bytes gives back exactly the same messages with their contexts, plural sources, translations and plural translations, and the same metadata. The parsed file reports the byte order and revision it was written with, and encoding it again gives identical bytes.",
["inputs","configurations"],"all sets of messages over all field shapes x byte orders x revisions",
"Tests compare counts and lengths for one fixture; contexts came back swapped with their message while the suite passed.",
[MF,MP,ME],[("MO writer",MF),("MO reader",MP)],["bytes, parsed MO entries"])
p("C09","Compiled MO bytes follow the GNU MO layout",
"For every file, the compiled bytes are a valid GNU MO file in the requested byte order and revision: correct counts and table offsets, every string inside the file, counted without its terminating NUL and followed by it, and no overlapping content. Original strings are sorted in byte order, with the metadata under the empty string, contexts joined by EOT and plurals by NUL. The lookup key a message offers is its source string, after its context and EOT if it has one. An independent reader using binary search therefore finds every message's exact translation.",
["inputs","configurations"],"all sets of messages (any insertion order, prefixes, non-ASCII, contexts, plurals) x byte orders x revisions",
"Tests check the length and first bytes of one fixture; a mis-sorted pair or an offset that is wrong only for some lengths is invisible to them.",
[MF,ME,EM],[("MO writer",MF),("sort key",EM)],["compiled bytes"])
p("C10","Reading MO input never crashes and never invents content",
"For every byte string, opening it as an MO file terminates with a parsed file or an error, without panicking and without using memory out of proportion to the input and the strings its tables name. A wrong magic number, an unsupported revision, and any table or string that does not lie wholly inside the input are reported as errors. Whatever is returned as a message was read from the input at the place its tables name.",
["inputs","fault_sequences"],"all truncations and all corruptions of header and table words of valid files, and all short byte strings",
"Tests truncate the header at six positions; string bounds, huge lengths and both byte orders are unexplored, and truncated data used to be returned as NUL-filled translations.",
[MP],[("bounds and magic checks",MP)],["result of opening the bytes"])
p("C11","Compiling PO to MO contains exactly the translated messages",
"The MO form of any PO file holds the metadata and one message for every translated message of the PO file, with its context, source, plural source and translations unchanged, and nothing for messages that are obsolete, fuzzy or have an empty translation or plural form. This holds equally for the in-memory conversion, the bytes in both byte orders and the saved file.",
["inputs","configurations"],"all PO files over all mixes of translated, untranslated, fuzzy, obsolete, plural and contextual messages",
"Tests convert two fixtures and compare counts; leaking a fuzzy or partially translated plural needs the specific mix.",
[PF,MF,ME,PE],[("translated predicate",PE),("PO to MO conversion",MF)],["bytes of the PO file, saved MO file, converted MO file"])
p("C12","Message classification and statistics are consistent",
"In every PO file each message is counted as exactly one of translated and untranslated, and it is translated exactly when it is not obsolete, not fuzzy and its translation, or every one of its plural translations, is non-empty; an MO message is translated by the same rule. The fuzzy list holds exactly the non-obsolete messages flagged fuzzy and the obsolete list exactly the obsolete ones, all in file order. The translated percentage is the translated share of all messages, between 0 and 100, and 0 for an empty file.",
["inputs"],"all message shapes (translations, plurals, flags, obsolete) and all mixes of them in a file",
"Tests look at one fixture's totals; mixed shapes such as plural forms partly empty, or a flag beside fuzzy, are not covered.",
[PE,PF,ME],[("translated predicate",PE),("list and percent methods",PF)],["lists, percent, predicates"])
p("C13","Finding and removing messages touches exactly the matching ones",
"For every history of appends and removals on a PO or MO file, searching by any supported field, optionally narrowed by context and obsolete status, returns exactly the matching messages in file order (an absent context or text counts as an empty one), and single lookups return the first match or nothing. Removing by value, by source string or by source string and context leaves no matching message, and keeps every other message unchanged and in order.",
["histories","inputs"],"all sequences of append/remove/find operations over messages sharing and differing in source, context, plural, obsolete status",
"Tests do one removal and a few searches on fixtures; wrong context narrowing or order needs particular multisets of messages.",
[PF,MF],[("find predicates",PF),("find predicates",MF),("retain-based removal",PF)],["entries after operations, search results"],
[("entries","ordered message list",PF)])
p("C14","Merging a reference file keeps, adds and retires the right messages",
"After merging any reference PO file into any PO file, every message of the reference, identified by source string and context, is present, and those that were missing are added in reference order with all their fields. No message of the original is lost, duplicated or reordered, each one whose identity is not in the reference is marked obsolete, and no other message is. A message present in both ends up with the reference's fields, and header and metadata stay those of the original.",
["inputs","histories"],"all pairs of files over messages sharing source strings with and without contexts, and repeated merges",
"One test merges two fixtures without contexts; identity confusion between same source strings in different contexts is never exercised.",
[PF,PE,ME],[("file merge",PF),("entry merge",PE)],["entries after merge"])
p("C15","Message comparison is a consistent order over the chosen fields",
"For every choice of fields, comparing messages is a total preorder: reflexive, antisymmetric under swapping the operands and transitive, so sorting with it is well defined. Two messages compare equal exactly when they agree on every chosen field (lists compared regardless of order), and fields that are not chosen never influence the result. Among the chosen fields the first that differs decides, in the order obsolete mark, references, flags, context, plural source, plural translations, source, translation, obsolete messages sorting before others.",
["inputs","configurations"],"all pairs and triples of messages x all 256 field selections, PO and MO",
"Tests compare a handful of pairs for a few selections; transitivity and independence quantify over triples and all selections.",
[PE,ME,EM],[("cmp_by",PE),("option building",EM)],["ordering results"])
p("C16","Metadata is written completely, in one fixed order",
"However the metadata was filled, rendering and compiling a file writes every metadata item exactly once, the standard items first in their fixed order and the others after them in natural order. Output depends only on the items, so equal metadata gives identical text and bytes on every run, and reading it back gives the same items with surrounding blanks removed. Repeated items of a PO input are combined and items without a blank after the colon are kept.",
["inputs","histories"],"all sets of standard and custom keys, all insertion orders, PO and MO",
"Tests check two fixtures; the underlying map iterates in random order, so order faults appear only for some key sets and runs.",
[FM,PF,MF,PP,MP],[("key ordering",FM),("metadata parsing",PP),("metadata parsing",MP)],["rendered metadata entry, compiled metadata string, metadata map"])
p("C17","All ways of giving the same input are equivalent, and options are kept",
"Opening the same data as a path, as content, as bytes or through options gives the same messages, header and metadata or the same error, for PO and, where applicable, MO files. The wrap width given when opening is kept and is the one used when the file is rendered (78 where none is given, as for a message rendered by itself), and copying options keeps all of them. An input that is neither an existing file nor content is an error, not a crash.",
["inputs","configurations"],"all input forms x inputs x wrap widths",
"Tests open bytes without looking at the result; bytes were silently ignored for PO and the width was ignored when rendering with the suite passing.",
[FM,PF,MF,PP,MP],[("options conversions",FM),("input selection",PP),("input selection",MP)],["parsed files, rendered text"])
p("C18","Saving writes the complete file or fails visibly",
"When saving as PO or MO returns normally, the target file holds exactly the rendered text or compiled bytes, whatever it held before. If the storage fails at any point of the write, the failure is visible to the caller; a truncated file is never reported as saved.",
["crash_points","fault_sequences"],"every byte position at which the storage can stop accepting data, for every save operation, over fresh and existing targets",
"Tests save to a healthy file system only; write errors were swallowed.",
[FM,MF,PF],[("save methods",FM),("save methods",MF)],["file contents, outcome of save"])
p("C19","The Python bindings behave exactly like the Rust library",
"Every operation offered in Python (opening from path and content, reading and assigning every field, rendering at any width, compiling, finding, removing, iterating, indexing, classification, comparing, saving, escaping, merging messages) gives the same result as the Rust operation on the same data, for every sequence of operations. Parsing and escaping errors arrive as the documented Python exceptions with the Rust message, never as panics. Changes made through Python are what rendering and saving use, and messages handed out or taken in are copies.",
["histories","inputs"],"all sequences of binding operations up to the bound over a menu of files and entries",
"Python tests mirror a few fixtures; a setter or getter wired to the wrong field, or a lost update, only shows for distinct values in distinct fields.",
["python/src/pypofile.rs","python/src/pymofile.rs","python/src/pypoentry.rs","python/src/pymoentry.rs","python/src/lib.rs","python/src/escaping.rs","python/src/exceptions.rs"],[("wrapper methods","python/src")],["Python return values, exceptions"])
p("C20","Conversions between PO and MO keep the shared fields",
"Converting a message between its PO and MO forms keeps source, translation, plural source, plural translations and context and leaves the rest empty. Writing any MO file as PO text and parsing it gives a PO file with the same messages and metadata, and compiling that gives back the MO content for all translated messages. Building a file from a list of messages keeps exactly those messages in order.",
["inputs"],"all message shapes and mixes",
"Tests convert single examples; field mix-ups show only when all fields hold distinct values, with contexts and plurals together.",
[ME,PE,MF,PF,EM],[("conversions",ME),("conversions",PE),("MO rendering",MF)],["converted entries, text of MO files"])
p("C21","Operations do not depend on what was done before",
"For every history of operations (opening valid and invalid PO and MO inputs, rendering, compiling, merging, escaping), each operation gives the result it would give as the first operation of a fresh process. Reading operations never modify the file they read, and copies of a file are independent of each other.",
["histories"],"all sequences of operations up to the bound, in fresh and in long-lived processes",
"Each test runs one operation on fresh data; state leaking between calls needs an ordered pair of calls.",
[PP,MP,PF,MF,TW],[("per-call parser objects",PP),("lazily built shared tables",PP)],["results of repeated operations"])
p("C22","Any valid MO file is read faithfully whatever its layout",
"Every valid MO file is read correctly regardless of the tool that wrote it: either byte order, revision 0 or 1, tables and strings at any offsets and in any arrangement, shared or overlapping strings, gaps, and an optional hash table. Each table entry yields one message in table order, with the context before EOT, plural source after NUL and the plural translations split at NULs. The metadata is taken from the leading empty string only.",
["inputs","configurations"],"all arrangements of tables and strings for small catalogues x byte orders x revisions",
"Tests read files written by one tool with one layout.",
[MP],[("table reading",MP),("key splitting",MP)],["parsed entries and metadata"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
