"""Executes programs against the extension module.

One request per line: a JSON list of programs, a program being a list of
expressions.  One answer per line: the outcome of every expression.
"""
import json
import os
import sys

sys.path.insert(0, sys.argv[1])
import rspolib  # noqa: E402

os.dup2(os.open(os.devnull, os.O_WRONLY), 2)


def enc(x):
    if x is None:
        return "N"
    if x is True:
        return "T"
    if x is False:
        return "F"
    if isinstance(x, str):
        return '"' + x.replace("\\", "\\\\").replace("\n", "\\n").replace(
            "\r", "\\r").replace('"', '\\"') + '"'
    if isinstance(x, (int, float)):
        return repr(x)
    if isinstance(x, bytes):
        return "b" + x.hex()
    if isinstance(x, dict):
        return enc([[k, x[k]] for k in sorted(x)])
    if isinstance(x, (list, tuple)):
        return "[" + ",".join([enc(y) for y in x]) + "]"
    if isinstance(x, rspolib.POEntry):
        return enc(entry(x))
    if isinstance(x, rspolib.MOEntry):
        return enc(moentry(x))
    if isinstance(x, rspolib.POFile):
        return "POFile"
    if isinstance(x, rspolib.MOFile):
        return "MOFile"
    return "?" + type(x).__name__


def entry(e):
    return [
        e.msgid, e.msgstr, e.msgid_plural, e.get_msgstr_plural(), e.msgctxt,
        e.obsolete, e.comment, e.tcomment, e.get_occurrences(),
        e.get_flags(), e.previous_msgid, e.previous_msgid_plural,
        e.previous_msgctxt, e.linenum,
    ]


def moentry(e):
    return [
        e.msgid, e.msgstr, e.msgid_plural, e.get_msgstr_plural(), e.msgctxt,
    ]


def show(e):
    """Everything that can be computed from one message."""
    r = [e.translated(), e.msgid_eot_msgctxt(), str(e)]
    r += [e.to_string_with_wrapwidth(w) for w in (0, 10, 78)]
    if isinstance(e, rspolib.POEntry):
        r.append(e.fuzzy)
    return r


def view(f):
    r = [
        f.get_entries(), f.header, f.get_metadata(), f.metadata_is_fuzzy,
        f.wrapwidth, f.path_or_content, f.bytes_content,
        f.percent_translated(), f.translated_entries(),
        f.untranslated_entries(), f.fuzzy_entries(), f.obsolete_entries(),
        f.metadata_as_entry(), bytes(f.as_bytes()), bytes(f.as_bytes_le()),
        bytes(f.as_bytes_be()),
        bytes(f.as_bytes_with(rspolib.MOFile.MAGIC_SWAPPED, 1)), len(f),
        str(f), list(f), [f[i] for i in range(len(f))],
    ]
    return r


def moview(f):
    return [
        f.get_entries(), f.get_metadata(), f.magic_number, f.version,
        f.wrapwidth, f.path_or_content, f.metadata_as_entry(),
        bytes(f.as_bytes()), bytes(f.as_bytes_le()), bytes(f.as_bytes_be()),
        bytes(f.as_bytes_with(rspolib.MOFile.MAGIC_SWAPPED, 1)), len(f),
        str(f), list(f), [f[i] for i in range(len(f))],
    ]


def relations(a, b):
    return [a == b, a != b, a < b, a <= b, a > b, a >= b, a.__cmp__(b)]


def subsets(a, b, names):
    return [
        a.cmp_by(b, **{n: bool(k >> i & 1) for i, n in enumerate(names)})
        for k in range(1 << len(names))
    ]


def search(f, values, fields, contexts):
    """Lines of what every search and lookup finds, and who is contained."""
    out = [
        [k.linenum for k in f.find(v, by, old, c)]
        for by in fields for v in values for c in contexts
        for old in (False, True)
    ]
    for v in values:
        k = f.find_by_msgid(v)
        out.append(k and k.linenum)
        for c in contexts[1:]:
            k = f.find_by_msgid_msgctxt(v, c)
            out.append(k and k.linenum)
    return out


def mosearch(f, values, fields, contexts):
    out = [
        f.find(v, by, c)
        for by in fields for v in values for c in contexts
    ]
    for v in values:
        out.append(f.find_by_msgid(v))
        out += [f.find_by_msgid_msgctxt(v, c) for c in contexts[1:]]
    return out


def put(obj, **fields):
    for k in fields:
        setattr(obj, k, fields[k])


def read(path):
    with open(path, "rb") as f:
        return f.read()


BASE = {
    k: getattr(rspolib, k)
    for k in ("POFile", "MOFile", "POEntry", "MOEntry", "pofile", "mofile",
              "escape", "unescape")
}
for x in (show, view, moview, relations, subsets, search, mosearch, put,
          read):
    BASE[x.__name__] = x

CODE = {}


def run(program, env):
    out = []
    for text in program:
        code = CODE.get(text)
        if code is None:
            code = compile(text, "<program>", "eval")
            if len(CODE) > 50000:
                CODE.clear()
            CODE[text] = code
        try:
            out.append(enc(eval(code, env)))
        except BaseException as e:  # panics are not Exceptions
            name = type(e).__name__
            if getattr(rspolib, name, None) is type(e):
                name = "rspolib." + name
            out.append("!" + name + " " + enc(str(e)))
    return "|".join(out)


for line in sys.stdin.buffer:
    answers = [run(p, dict(BASE)) for p in json.loads(line)]
    sys.stdout.buffer.write("\x1e".join(answers).encode() + b"\n")
    sys.stdout.buffer.flush()
