//! C19: the Python bindings behave exactly like the Rust library.

use super::c02::FRAGS;
use super::c03::RICH;
use super::c05::BAD;
use super::c08::clean_metas;
use super::c10;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::*;
use crate::mo;
use crate::model::*;
use crate::shapes::{
    counts, related, related_radices, scalar, scalar_file, sized, some_scalar,
    twin, DIMENSIONS, SCALARS, SOME_SCALARS, TWINS,
};
use crate::python::{self, eb, eo, es, ey, list, lit, opt};
use rspolib::escaping::{escape, unescape};
use rspolib::prelude::*;
use rspolib::{
    mofile, pofile, EntryCmpByOptions, FileOptions, MOEntry, MOFile,
    Merge, POEntry, POFile, MAGIC, MAGIC_SWAPPED,
};
use std::cmp::Ordering;
use std::sync::Arc;

const OTHER: &str = "# Other\nmsgid \"\"\nmsgstr \"\"\n\"X-Z: 1\\n\"\n\"Language: pt\\n\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"x\"\n\n#, fuzzy\nmsgid \"new one with a rather long text that has to be wrapped somewhere, as it is longer than a line\"\nmsgstr \"é\"\n\nmsgid \"a\"\nmsgstr \"\"\n\n#~ msgid \"a\"\n#~ msgstr \"g\"\n";

/// A program: expressions for Python and the outcome Rust gives.
struct Program {
    py: Vec<String>,
    want: Vec<String>,
}
impl Program {
    fn new() -> Self {
        Program { py: vec![], want: vec![] }
    }
    fn add(&mut self, py: impl Into<String>, want: impl Into<String>) {
        self.py.push(py.into());
        self.want.push(want.into());
    }
}

fn execute(programs: &[Program], rec: &mut Rec) -> Res {
    if programs.is_empty() {
        return Ok(());
    }
    let mut req = String::from("[");
    for (i, p) in programs.iter().enumerate() {
        if i > 0 {
            req.push(',');
        }
        req.push('[');
        for (k, x) in p.py.iter().enumerate() {
            if k > 0 {
                req.push(',');
            }
            req.push_str(&json_str(x));
        }
        req.push(']');
    }
    req.push(']');
    rec.case(req.as_bytes());
    let Some(got) = python::run(&req) else {
        return bad("the Python interpreter died");
    };
    ensure!(
        got.len() == programs.len(),
        "{} answers to {} programs",
        got.len(),
        programs.len()
    );
    for (p, g) in programs.iter().zip(&got) {
        rec.trace(p.py.len() as u64);
        rec.state(g.as_bytes());
        let want = p.want.join("|");
        if *g != want {
            let at = g
                .bytes()
                .zip(want.bytes())
                .take_while(|(a, b)| a == b)
                .count();
            let cut = |s: &str| {
                String::from_utf8_lossy(
                    &s.as_bytes()[at.saturating_sub(60).min(s.len())..],
                )
                .chars()
                .take(300)
                .collect::<String>()
            };
            return bad(format!(
                "program [{}]: Python gives …{} but Rust gives …{}",
                p.py.join("; "),
                cut(g),
                cut(&want)
            ));
        }
    }
    Ok(())
}

// ---- values -------------------------------------------------------------

fn fields(e: &POEntry) -> String {
    format!(
        "[{},{},{},{},{},{},{},{},{},{},{},{},{},{}]",
        es(&e.msgid),
        eo(&e.msgstr),
        eo(&e.msgid_plural),
        list(&e.msgstr_plural, |x| es(x)),
        eo(&e.msgctxt),
        eb(e.obsolete),
        eo(&e.comment),
        eo(&e.tcomment),
        list(&e.occurrences, |(a, b)| format!("[{},{}]", es(a), es(b))),
        list(&e.flags, |x| es(x)),
        eo(&e.previous_msgid),
        eo(&e.previous_msgid_plural),
        eo(&e.previous_msgctxt),
        e.linenum
    )
}
fn mofields(e: &MOEntry) -> String {
    format!(
        "[{},{},{},{},{}]",
        es(&e.msgid),
        eo(&e.msgstr),
        eo(&e.msgid_plural),
        list(&e.msgstr_plural, |x| es(x)),
        eo(&e.msgctxt),
    )
}
fn show(e: &POEntry) -> String {
    format!(
        "[{},{},{},{},{},{},{}]",
        eb(e.translated()),
        es(&e.msgid_eot_msgctxt()),
        es(&e.to_string()),
        es(&e.to_string_with_wrapwidth(0)),
        es(&e.to_string_with_wrapwidth(10)),
        es(&e.to_string_with_wrapwidth(78)),
        eb(e.fuzzy())
    )
}
fn moshow(e: &MOEntry) -> String {
    format!(
        "[{},{},{},{},{},{}]",
        eb(e.translated()),
        es(&e.msgid_eot_msgctxt()),
        es(&e.to_string()),
        es(&e.to_string_with_wrapwidth(0)),
        es(&e.to_string_with_wrapwidth(10)),
        es(&e.to_string_with_wrapwidth(78)),
    )
}
fn meta(m: &std::collections::HashMap<String, String>) -> String {
    let v: Vec<(String, String)> = meta_of(m).into_iter().collect();
    list(&v, |(k, x)| format!("[{},{}]", es(k), es(x)))
}
fn refs(v: &[&POEntry]) -> String {
    list(v, |e| fields(e))
}
fn view(f: &POFile) -> String {
    let all: Vec<&POEntry> = f.entries.iter().collect();
    let m = MOFile::from(f);
    let b = match &f.options.byte_content {
        None => "N".into(),
        Some(b) => list(b, |x| x.to_string()),
    };
    [
        refs(&all),
        es(f.header.as_deref().unwrap_or("")),
        meta(&f.metadata),
        eb(f.metadata_is_fuzzy),
        f.options.wrapwidth.to_string(),
        es(&f.options.path_or_content),
        b,
        format!("{:?}", f.percent_translated() as f64),
        refs(&f.translated_entries()),
        refs(&f.untranslated_entries()),
        refs(&f.fuzzy_entries()),
        refs(&f.obsolete_entries()),
        fields(&f.metadata_as_entry()),
        ey(&f.as_bytes()),
        ey(&f.as_bytes_le()),
        ey(&f.as_bytes_be()),
        ey(&m.as_bytes_with(MAGIC_SWAPPED, 1)),
        f.entries.len().to_string(),
        es(&f.to_string()),
        refs(&all),
        refs(&all),
    ]
    .join(",")
}
fn moview(f: &MOFile) -> String {
    let all = list(&f.entries, mofields);
    [
        all.clone(),
        meta(&f.metadata),
        f.magic_number.unwrap_or(MAGIC).to_string(),
        f.version.unwrap_or(0).to_string(),
        f.options.wrapwidth.to_string(),
        es(&f.options.path_or_content),
        mofields(&f.metadata_as_entry()),
        ey(&f.as_bytes()),
        ey(&f.as_bytes_le()),
        ey(&f.as_bytes_be()),
        ey(&f.as_bytes_with(MAGIC_SWAPPED, 1)),
        f.entries.len().to_string(),
        es(&f.to_string()),
        all.clone(),
        all,
    ]
    .join(",")
}
fn v(s: String) -> String {
    format!("[{s}]")
}

fn py_new(e: &Ent) -> String {
    format!(
        "POEntry({},{},{},{},{},{},{},{})",
        lit(&e.id),
        opt(&e.s),
        opt(&e.plural),
        list(&e.sp, |x| lit(x)),
        opt(&e.ctxt),
        opt(&e.tcomment),
        opt(&e.comment),
        list(&e.flags, |x| lit(x))
    )
}
fn py_put(var: &str, e: &Ent) -> String {
    format!(
        "put({var}, msgid={}, msgstr={}, msgid_plural={}, msgstr_plural={}, msgctxt={}, tcomment={}, comment={}, flags={}, obsolete={}, occurrences={}, previous_msgid={}, previous_msgid_plural={}, previous_msgctxt={}, linenum={})",
        lit(&e.id),
        opt(&e.s),
        opt(&e.plural),
        list(&e.sp, |x| lit(x)),
        opt(&e.ctxt),
        opt(&e.tcomment),
        opt(&e.comment),
        list(&e.flags, |x| lit(x)),
        if e.obsolete { "True" } else { "False" },
        list(&e.occ, |(a, b)| format!("({},{})", lit(a), lit(b))),
        opt(&e.pid),
        opt(&e.pplural),
        opt(&e.pctxt),
        e.line
    )
}
/// The message made by the constructor alone.
fn constructed(e: &Ent) -> POEntry {
    Ent {
        obsolete: false,
        occ: vec![],
        pid: None,
        pplural: None,
        pctxt: None,
        line: 0,
        ..e.clone()
    }
    .po()
}

fn message(e: &Ent) -> Program {
    let mut p = Program::new();
    let c = constructed(e);
    p.add(format!("(e := {})", py_new(e)), fields(&c));
    p.add("show(e)", show(&c));
    let full = e.po();
    p.add(py_put("e", e), "N");
    p.add("e", fields(&full));
    p.add("show(e)", show(&full));
    // assigning everything to a fresh message gives the same
    p.add("(x := POEntry())", fields(&POEntry::new(0)));
    p.add(py_put("x", e), "N");
    p.add("x", fields(&full));
    p.add("[x == e, x != e]", "[T,F]");
    p.add("e.merge(POEntry(\"other\"))", "N");
    let mut merged = full.clone();
    merged.merge(POEntry::from("other"));
    p.add("e", fields(&merged));
    p.add("x.merge(e)", "N");
    let mut again = full;
    again.merge(merged);
    p.add("x", fields(&again));
    let m = MOEntry::new(
        e.id.clone(),
        e.s.clone(),
        e.plural.clone(),
        e.sp.clone(),
        e.ctxt.clone(),
    );
    p.add(
        format!(
            "(n := MOEntry({},{},{},{},{}))",
            lit(&e.id),
            opt(&e.s),
            opt(&e.plural),
            list(&e.sp, |x| lit(x)),
            opt(&e.ctxt)
        ),
        mofields(&m),
    );
    p.add("show(n)", moshow(&m));
    p.add(
        format!(
            "put((k := MOEntry()), msgid={}, msgstr={}, msgid_plural={}, msgstr_plural={}, msgctxt={})",
            lit(&e.id),
            opt(&e.s),
            opt(&e.plural),
            list(&e.sp, |x| lit(x)),
            opt(&e.ctxt)
        ),
        "N",
    );
    p.add("k", mofields(&m));
    let mut mm = m.clone();
    mm.merge(MOEntry::from("other"));
    p.add("k.merge(MOEntry(\"other\"))", "N");
    p.add("k", mofields(&mm));
    p
}

/// Messages that differ in single fields, for comparisons.
fn distinct() -> Vec<Ent> {
    let mut out = vec![Ent { id: s("a"), ..Default::default() }];
    let b = out[0].clone();
    let mut add = |f: &dyn Fn(&mut Ent)| {
        let mut e = b.clone();
        f(&mut e);
        out.push(e);
    };
    add(&|e| e.id = s("b"));
    add(&|e| e.s = o("x"));
    add(&|e| e.s = o("y"));
    add(&|e| e.s = o(""));
    add(&|e| e.ctxt = o("c"));
    add(&|e| e.ctxt = o("d"));
    add(&|e| e.obsolete = true);
    add(&|e| e.plural = o("p"));
    add(&|e| e.plural = o("q"));
    add(&|e| e.sp = vec![s("1"), s("2")]);
    add(&|e| e.sp = vec![s("2"), s("1")]);
    add(&|e| e.sp = vec![s("1")]);
    add(&|e| e.occ = vec![(s("f"), s("1"))]);
    add(&|e| e.occ = vec![(s("f"), s("2"))]);
    add(&|e| e.occ = vec![(s("f"), s("1")), (s("e"), s("2"))]);
    add(&|e| e.flags = vec![s("fuzzy")]);
    add(&|e| e.flags = vec![s("c-format"), s("fuzzy")]);
    add(&|e| e.flags = vec![s("fuzzy"), s("c-format")]);
    add(&|e| e.comment = o("c"));
    add(&|e| e.tcomment = o("c"));
    add(&|e| e.pid = o("c"));
    add(&|e| e.line = 9);
    add(&|e| {
        e.id = s("b");
        e.obsolete = true;
        e.s = o("x")
    });
    add(&|e| {
        e.id = s("A");
        e.ctxt = o("c");
        e.occ = vec![(s("g"), s("1"))];
        e.flags = vec![s("x")]
    });
    out
}

fn sign(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "-1",
        Ordering::Equal => "0",
        Ordering::Greater => "1",
    }
}
fn relations(o: Ordering) -> String {
    format!(
        "[{},{},{},{},{},{},{}]",
        eb(o.is_eq()),
        eb(o.is_ne()),
        eb(o.is_lt()),
        eb(o.is_le()),
        eb(o.is_gt()),
        eb(o.is_ge()),
        sign(o)
    )
}

const PO_KEYS: [&str; 8] = [
    "msgid",
    "msgstr",
    "msgctxt",
    "obsolete",
    "msgid_plural",
    "msgstr_plural",
    "occurrences",
    "flags",
];
fn by(k: u32, keys: &[&str]) -> EntryCmpByOptions {
    let mut o = EntryCmpByOptions::new().by_all(false);
    for (i, n) in keys.iter().enumerate() {
        if k >> i & 1 == 0 {
            continue;
        }
        o = match *n {
            "msgid" => o.by_msgid(true),
            "msgstr" => o.by_msgstr(true),
            "msgctxt" => o.by_msgctxt(true),
            "obsolete" => o.by_obsolete(true),
            "msgid_plural" => o.by_msgid_plural(true),
            "msgstr_plural" => o.by_msgstr_plural(true),
            "occurrences" => o.by_occurrences(true),
            _ => o.by_flags(true),
        };
    }
    o
}

fn comparison(a: &Ent, b: &Ent) -> Program {
    let mut p = Program::new();
    p.add(format!("[(a := POEntry()), (b := POEntry())] and {}", py_put("a", a)), "N");
    p.add(py_put("b", b), "N");
    let (x, y) = (a.po(), b.po());
    let d = EntryCmpByOptions::default();
    p.add("relations(a, b)", relations(x.cmp_by(&y, &d)));
    let names = list(&PO_KEYS, |k| lit(k));
    let all: Vec<u32> = (0..256).collect();
    p.add(
        format!("subsets(a, b, {names})"),
        list(&all, |k| s(sign(x.cmp_by(&y, &by(*k, &PO_KEYS))))),
    );
    p.add("a.cmp_by(b)", sign(x.cmp_by(&y, &by(255, &PO_KEYS))));
    p.add(
        "a.cmp_by(b, False)",
        sign(x.cmp_by(&y, &by(254, &PO_KEYS))),
    );
    let (m, n) = (MOEntry::from(&x), MOEntry::from(&y));
    let make = |e: &Ent| {
        format!(
            "MOEntry({},{},{},{},{})",
            lit(&e.id),
            opt(&e.s),
            opt(&e.plural),
            list(&e.sp, |x| lit(x)),
            opt(&e.ctxt)
        )
    };
    p.add(
        format!("relations((m := {}), (n := {}))", make(a), make(b)),
        relations(m.cmp_by(&n, &d)),
    );
    const KEYS: [&str; 5] =
        ["msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr_plural"];
    let all: Vec<u32> = (0..32).collect();
    p.add(
        format!("subsets(m, n, {})", list(&KEYS, |k| lit(k))),
        list(&all, |k| s(sign(m.cmp_by(&n, &by(*k, &KEYS))))),
    );
    p.add("m.cmp_by(n)", sign(m.cmp_by(&n, &by(31, &KEYS))));
    let (mut q, mut r) = (x.clone(), m);
    q.merge(y);
    r.merge(n);
    p.add("a.merge(b) or a", fields(&q));
    p.add("m.merge(n) or m", mofields(&r));
    p
}

// ---- opening ------------------------------------------------------------

fn opened(
    p: &mut Program,
    expr: &str,
    r: Result<POFile, impl std::fmt::Display>,
) {
    match r {
        Ok(f) => {
            p.add(format!("(f := {expr})"), "POFile");
            p.add("view(f)", v(view(&f)));
        }
        Err(e) => p.add(
            expr,
            format!("!rspolib.SyntaxError {}", es(&e.to_string())),
        ),
    }
}
fn mo_opened(
    p: &mut Program,
    expr: &str,
    r: Result<MOFile, impl std::fmt::Display>,
) {
    match r {
        Ok(f) => {
            p.add(format!("(m := {expr})"), "MOFile");
            p.add("moview(m)", v(moview(&f)));
        }
        Err(e) => p.add(
            expr,
            format!("!rspolib.IOError {}", es(&e.to_string())),
        ),
    }
}

fn opening(text: &str, path: Option<&str>, w: usize) -> Program {
    let mut p = Program::new();
    let t = lit(text);
    opened(&mut p, &format!("pofile({t})"), pofile(text));
    opened(&mut p, &format!("POFile({t}, {w})"), pofile((text, w)));
    opened(
        &mut p,
        &format!("pofile({t}, wrapwidth={w})"),
        pofile((text, w)),
    );
    if let Some(path) = path {
        let l = lit(path);
        opened(&mut p, &format!("POFile({l})"), pofile(path));
        opened(
            &mut p,
            &format!("pofile({l}, {w})"),
            pofile((path, w)),
        );
    }
    p
}

// ---- histories ----------------------------------------------------------

struct World {
    f: POFile,
    e: POEntry,
    x: POEntry,
    m: MOFile,
    n: MOEntry,
    path: String,
}

fn world(path: &str) -> (Program, World) {
    let mut p = Program::new();
    p.add("(f := POFile())", "POFile");
    p.add("(m := MOFile())", "MOFile");
    let mut e = POEntry::from(("a", "t"));
    p.add("(e := POEntry(\"a\", \"t\"))", fields(&e));
    e.msgctxt = o("c");
    let x = e.clone();
    let e = POEntry::from(("a", "t"));
    p.add("(x := POEntry(\"a\", \"t\", msgctxt=\"c\"))", fields(&x));
    let n = MOEntry::from(&x);
    p.add("(n := MOEntry(\"a\", \"t\", msgctxt=\"c\"))", mofields(&n));
    let w = World {
        f: POFile::new(FileOptions::default()),
        e,
        x,
        m: MOFile::new(FileOptions::default()),
        n,
        path: s(path),
    };
    (p, w)
}

type Step = (&'static str, fn(&mut World) -> String);
fn none(_: ()) -> String {
    s("N")
}
fn maybe(e: Option<POEntry>) -> String {
    e.map(|e| fields(&e)).unwrap_or_else(|| s("N"))
}
fn found(v: Vec<&POEntry>) -> String {
    refs(&v)
}
const INDEX: &str = "!IndexError \"Index out of range\"";

/// Operations on a PO file and two messages; PATH is a scratch file.
const STEPS: [Step; 44] = [
    ("(f := POFile())", |w| {
        w.f = POFile::new(FileOptions::default());
        s("POFile")
    }),
    ("(f := pofile(RICH, 30))", |w| {
        w.f = pofile((RICH, 30)).unwrap();
        s("POFile")
    }),
    ("(f := POFile(OTHER))", |w| {
        w.f = pofile(OTHER).unwrap();
        s("POFile")
    }),
    ("(f := pofile(\"msgid \"))", |_| {
        format!(
            "!rspolib.SyntaxError {}",
            es(&pofile("msgid ").unwrap_err().to_string())
        )
    }),
    ("f.append(e)", |w| none(w.f.entries.push(w.e.clone()))),
    ("f.append(x)", |w| none(w.f.entries.push(w.x.clone()))),
    ("put(f, entries=[x, e])", |w| {
        none(w.f.entries = vec![w.x.clone(), w.e.clone()])
    }),
    ("put(f, entries=f.get_entries()[1:])", |w| {
        if !w.f.entries.is_empty() {
            w.f.entries.remove(0);
        }
        s("N")
    }),
    ("put(f, header=\"Header\\n\\ntext\")", |w| {
        none(w.f.header = o("Header\n\ntext"))
    }),
    ("put(f, header=None)", |w| none(w.f.header = None)),
    ("put(f, metadata={\"X-B\": \"1\", \"Language\": \"es\"})", |w| {
        w.f.metadata.clear();
        w.f.metadata.insert(s("X-B"), s("1"));
        w.f.metadata.insert(s("Language"), s("es"));
        s("N")
    }),
    ("f.update_metadata({\"Language\": \"pt\", \"X-A\": \"é\"})", |w| {
        w.f.metadata.insert(s("Language"), s("pt"));
        w.f.metadata.insert(s("X-A"), s("é"));
        s("N")
    }),
    ("f.remove_metadata_field(\"Language\")", |w| {
        w.f.metadata.remove("Language");
        s("N")
    }),
    ("put(f, metadata_is_fuzzy=not f.metadata_is_fuzzy)", |w| {
        none(w.f.metadata_is_fuzzy = !w.f.metadata_is_fuzzy)
    }),
    ("put(f, wrapwidth=15)", |w| none(w.f.options.wrapwidth = 15)),
    ("f.remove(e)", |w| {
        let e = w.e.clone();
        none(w.f.remove(&e))
    }),
    ("f.remove_by_msgid(\"a\")", |w| none(w.f.remove_by_msgid("a"))),
    ("f.remove_by_msgid_msgctxt(\"a\", \"c\")", |w| {
        none(w.f.remove_by_msgid_msgctxt("a", "c"))
    }),
    ("[f.find(\"a\"), f.find(\"t\", \"msgstr\"), f.find(\"c\", by=\"msgctxt\"), f.find(\"a\", \"msgid\", True), f.find(\"a\", msgctxt=\"c\"), f.find(\"a\", include_obsolete_entries=True, msgctxt=\"c\"), f.find(\"p\\\"m\", \"previous_msgid\"), f.find(\"ids\", \"msgid_plural\"), f.find(\"a\", \"nothing\")]", |w| {
        let f = &w.f;
        v([
            found(f.find("a", "msgid", None, false)),
            found(f.find("t", "msgstr", None, false)),
            found(f.find("c", "msgctxt", None, false)),
            found(f.find("a", "msgid", None, true)),
            found(f.find("a", "msgid", Some("c"), false)),
            found(f.find("a", "msgid", Some("c"), true)),
            found(f.find("p\"m", "previous_msgid", None, false)),
            found(f.find("ids", "msgid_plural", None, false)),
            found(f.find("a", "nothing", None, false)),
        ]
        .join(","))
    }),
    ("[f.find_by_msgid(\"a\"), f.find_by_msgid(\"zz\"), f.find_by_msgid_msgctxt(\"a\", \"c\"), f.find_by_msgid_msgctxt(\"c\", \"a\")]", |w| {
        v([
            maybe(w.f.find_by_msgid("a")),
            maybe(w.f.find_by_msgid("zz")),
            maybe(w.f.find_by_msgid_msgctxt("a", "c")),
            maybe(w.f.find_by_msgid_msgctxt("c", "a")),
        ]
        .join(","))
    }),
    ("[e in f, x in f, POEntry(\"zz\") in f]", |w| {
        let has = |e: &POEntry| match &e.msgctxt {
            Some(c) => w
                .f
                .entries
                .iter()
                .any(|k| k.msgid == e.msgid && k.msgctxt.as_ref() == Some(c)),
            None => w.f.entries.iter().any(|k| k.msgid == e.msgid),
        };
        v([eb(has(&w.e)), eb(has(&w.x)), eb(has(&POEntry::from("zz")))]
            .join(","))
    }),
    ("f[1]", |w| {
        w.f.entries.get(1).map(fields).unwrap_or_else(|| s(INDEX))
    }),
    // what the file hands out are copies
    ("put(f[0], msgstr=\"changed\")", |w| {
        if w.f.entries.is_empty() { s(INDEX) } else { s("N") }
    }),
    ("[put(k, flags=[\"fuzzy\"], msgid=\"k\") for k in f] and None", |_| {
        s("N")
    })
    ,
    ("[k.merge(e) for k in f.get_entries() + f.translated_entries() + f.find(\"a\")] and None", |w| {
        if w.f.entries.is_empty() { s("[]") } else { s("N") }
    }),
    ("f.get_metadata().clear()", |_| s("N")),
    ("(e := f[0])", |w| match w.f.entries.first() {
        Some(e) => {
            w.e = e.clone();
            fields(e)
        }
        None => s(INDEX),
    }),
    ("put(e, obsolete=True)", |w| none(w.e.obsolete = true)),
    ("put(e, flags=[\"c-format\", \"fuzzy\"])", |w| {
        none(w.e.flags = vec![s("c-format"), s("fuzzy")])
    }),
    ("put(e, msgstr=None)", |w| none(w.e.msgstr = None)),
    ("put(e, msgstr=\"une très longue traduction, plus longue que la largeur\")", |w| {
        none(w.e.msgstr = o("une très longue traduction, plus longue que la largeur"))
    }),
    ("put(e, msgid_plural=\"as\", msgstr_plural=[\"1\", \"2\"])", |w| {
        w.e.msgid_plural = o("as");
        w.e.msgstr_plural = vec![s("1"), s("2")];
        s("N")
    }),
    ("put(e, msgctxt=\"c\")", |w| none(w.e.msgctxt = o("c"))),
    ("put(e, msgctxt=None, msgid=\"b\")", |w| {
        w.e.msgctxt = None;
        w.e.msgid = s("b");
        s("N")
    }),
    ("put(e, comment=\"c1\\nc2\", tcomment=\"t\", occurrences=[(\"f.c\", \"1\"), (\"g\", \"\")])", |w| {
        w.e.comment = o("c1\nc2");
        w.e.tcomment = o("t");
        w.e.occurrences = vec![(s("f.c"), s("1")), (s("g"), s(""))];
        s("N")
    }),
    ("put(e, previous_msgid=\"pi\", previous_msgid_plural=\"pp\", previous_msgctxt=\"pc\", linenum=7)", |w| {
        w.e.previous_msgid = o("pi");
        w.e.previous_msgid_plural = o("pp");
        w.e.previous_msgctxt = o("pc");
        w.e.linenum = 7;
        s("N")
    }),
    ("e.merge(x)", |w| {
        let x = w.x.clone();
        none(w.e.merge(x))
    }),
    ("x.merge(e)", |w| {
        let e = w.e.clone();
        none(w.x.merge(e))
    }),
    ("relations(e, x)", |w| {
        relations(w.e.cmp_by(&w.x, &EntryCmpByOptions::default()))
    }),
    ("[f == pofile(str(f)), f != pofile(str(f)), f == POFile(), f != POFile()]", |w| {
        let t = w.f.to_string();
        let same = t == pofile(t.as_str()).unwrap().to_string();
        let empty = t == POFile::new(FileOptions::default()).to_string();
        v([eb(same), eb(!same), eb(empty), eb(!empty)].join(","))
    }),
    ("[f.save(PATH), read(PATH)]", |w| {
        v(format!("N,{}", ey(w.f.to_string().as_bytes())))
    }),
    ("[f.save_as_pofile(PATH), read(PATH)]", |w| {
        v(format!("N,{}", ey(w.f.to_string().as_bytes())))
    }),
    ("[f.save_as_mofile(PATH), read(PATH), moview(mofile(PATH))]", |w| {
        let b = w.f.as_bytes();
        std::fs::write(&w.path, &b).unwrap();
        v(format!(
            "N,{},{}",
            ey(&b),
            v(moview(&mofile(w.path.as_str()).unwrap()))
        ))
    }),
    ("f.path_or_content", |w| es(&w.f.options.path_or_content)),
];

/// Operations on an MO file and a message.
const MO_STEPS: [Step; 26] = [
    ("(m := MOFile())", |w| {
        w.m = MOFile::new(FileOptions::default());
        s("MOFile")
    }),
    ("(m := MOFile(\"\", 12))", |w| {
        w.m = MOFile::new(FileOptions::from(("", 12)));
        s("MOFile")
    }),
    ("(m := mofile(\"no/such.mo\"))", |_| {
        format!(
            "!rspolib.IOError {}",
            es(&mofile("no/such.mo").unwrap_err().to_string())
        )
    }),
    ("m.append(n)", |w| none(w.m.entries.push(w.n.clone()))),
    ("m.append(MOEntry(\"b\", \"u\", \"bs\", [\"1\", \"2\"]))", |w| {
        none(w.m.entries.push(MOEntry::new(
            s("b"),
            o("u"),
            o("bs"),
            vec![s("1"), s("2")],
            None,
        )))
    }),
    ("put(m, entries=[n, MOEntry(\"a\")])", |w| {
        none(w.m.entries = vec![w.n.clone(), MOEntry::from("a")])
    }),
    ("put(m, entries=m.get_entries()[1:])", |w| {
        if !w.m.entries.is_empty() {
            w.m.entries.remove(0);
        }
        s("N")
    }),
    ("put(m, metadata={\"X-B\": \"1\", \"Language\": \"es\"})", |w| {
        w.m.metadata.clear();
        w.m.metadata.insert(s("X-B"), s("1"));
        w.m.metadata.insert(s("Language"), s("es"));
        s("N")
    }),
    ("m.update_metadata({\"Language\": \"pt\", \"X-A\": \"é\"})", |w| {
        w.m.metadata.insert(s("Language"), s("pt"));
        w.m.metadata.insert(s("X-A"), s("é"));
        s("N")
    }),
    ("m.remove_metadata_field(\"Language\")", |w| {
        w.m.metadata.remove("Language");
        s("N")
    }),
    ("put(m, wrapwidth=7)", |w| none(w.m.options.wrapwidth = 7)),
    ("m.remove(n)", |w| {
        let n = w.n.clone();
        none(w.m.remove(&n))
    }),
    ("m.remove_by_msgid(\"a\")", |w| none(w.m.remove_by_msgid("a"))),
    ("m.remove_by_msgid_msgctxt(\"a\", \"c\")", |w| {
        none(w.m.remove_by_msgid_msgctxt("a", "c"))
    }),
    ("[m.find(\"a\"), m.find(\"t\", \"msgstr\"), m.find(\"c\", by=\"msgctxt\"), m.find(\"a\", msgctxt=\"c\"), m.find(\"bs\", \"msgid_plural\"), m.find(\"a\", \"nothing\")]", |w| {
        let g = |v: Vec<&MOEntry>| list(&v, |e| mofields(e));
        v([
            g(w.m.find("a", "msgid", None)),
            g(w.m.find("t", "msgstr", None)),
            g(w.m.find("c", "msgctxt", None)),
            g(w.m.find("a", "msgid", Some("c"))),
            g(w.m.find("bs", "msgid_plural", None)),
            g(w.m.find("a", "nothing", None)),
        ]
        .join(","))
    }),
    ("[m.find_by_msgid(\"a\"), m.find_by_msgid_msgctxt(\"a\", \"c\"), m.find_by_msgid_msgctxt(\"c\", \"a\")]", |w| {
        let g = |e: Option<&MOEntry>| {
            e.map(mofields).unwrap_or_else(|| s("N"))
        };
        v([
            g(w.m.find_by_msgid("a")),
            g(w.m.find_by_msgid_msgctxt("a", "c")),
            g(w.m.find_by_msgid_msgctxt("c", "a")),
        ]
        .join(","))
    }),
    ("[n in m, MOEntry(\"a\") in m, MOEntry(\"zz\") in m]", |w| {
        let has = |e: &MOEntry| match &e.msgctxt {
            Some(c) => w
                .m
                .entries
                .iter()
                .any(|k| k.msgid == e.msgid && k.msgctxt.as_ref() == Some(c)),
            None => w.m.entries.iter().any(|k| k.msgid == e.msgid),
        };
        v([
            eb(has(&w.n)),
            eb(has(&MOEntry::from("a"))),
            eb(has(&MOEntry::from("zz"))),
        ]
        .join(","))
    }),
    ("m[1]", |w| {
        w.m.entries.get(1).map(mofields).unwrap_or_else(|| s(INDEX))
    }),
    ("[put(k, msgid=\"k\", msgstr=\"k\") for k in list(m) + m.get_entries() + m.find(\"a\")] and None", |w| {
        if w.m.entries.is_empty() { s("[]") } else { s("N") }
    }),
    ("m.get_metadata().clear()", |_| s("N")),
    ("put(n, msgstr=\"tt\", msgctxt=None)", |w| {
        w.n.msgstr = o("tt");
        w.n.msgctxt = None;
        s("N")
    }),
    ("put(n, msgid=\"zé\", msgid_plural=\"zs\", msgstr_plural=[\"1\"], msgctxt=\"c\")", |w| {
        w.n.msgid = s("zé");
        w.n.msgid_plural = o("zs");
        w.n.msgstr_plural = vec![s("1")];
        w.n.msgctxt = o("c");
        s("N")
    }),
    ("n.merge(MOEntry(\"a\", \"t\"))", |w| {
        none(w.n.merge(MOEntry::new(s("a"), o("t"), None, vec![], None)))
    }),
    ("[m == MOFile(), m != MOFile(), m == m]", |w| {
        let e = w.m.to_string()
            == MOFile::new(FileOptions::default()).to_string();
        v([eb(e), eb(!e), eb(true)].join(","))
    }),
    ("[m.save(PATH), read(PATH), m.save_as_pofile(PATH), read(PATH)]", |w| {
        v(format!(
            "N,{},N,{}",
            ey(&w.m.as_bytes()),
            ey(w.m.to_string().as_bytes())
        ))
    }),
    ("[m.save_as_mofile(PATH), read(PATH), (m := mofile(PATH, 33))]", |w| {
        let b = w.m.as_bytes().into_owned();
        std::fs::write(&w.path, &b).unwrap();
        w.m = mofile((w.path.as_str(), 33)).unwrap();
        v(format!("N,{},MOFile", ey(&b)))
    }),
];

fn history(steps: &[Step], ops: &[usize], path: &str, po: bool) -> Program {
    let (mut p, mut w) = world(path);
    for k in ops {
        let (py, rs) = steps[*k];
        let text = if py.contains("PATH") {
            py.replace("PATH", &lit(path))
        } else if py.contains("RICH") {
            py.replace("RICH", &lit(RICH))
        } else if py.contains("OTHER") {
            py.replace("OTHER", &lit(OTHER))
        } else {
            s(py)
        };
        let want = rs(&mut w);
        // "and None" of a list of nothing
        let want = if text.ends_with("for k in f] and None")
            && w.f.entries.is_empty()
        {
            s("[]")
        } else {
            want
        };
        p.add(text, want);
    }
    if po {
        p.add("view(f)", v(view(&w.f)));
        p.add("e", fields(&w.e));
        p.add("x", fields(&w.x));
    } else {
        p.add("moview(m)", v(moview(&w.m)));
        p.add("n", mofields(&w.n));
    }
    p
}

/// All searches, lookups and removals in one PO and one MO file.
fn searching(l: &[usize]) -> Program {
    use super::c13::{messages, mo_distinct, CTX, FIELDS, VALUES};
    let mut p = Program::new();
    let mut f = POFile::new(FileOptions::default());
    let mut m = MOFile::new(FileOptions::default());
    p.add("(f := POFile())", "POFile");
    p.add("(m := MOFile())", "MOFile");
    for (n, k) in l.iter().enumerate() {
        let mut e = messages()[*k].clone();
        e.line = n + 1;
        f.entries.push(e.po());
        p.add(format!("put((e := POEntry()), msgid=\"\") or {}", py_put("e", &e)), "N");
        p.add("f.append(e)", "N");
        let e = &mo_distinct()[*k];
        m.entries.push(MOEntry::from(&e.po()));
        p.add(
            format!(
                "m.append(MOEntry({},{},{},{},{}))",
                lit(&e.id),
                opt(&e.s),
                opt(&e.plural),
                list(&e.sp, |x| lit(x)),
                opt(&e.ctxt)
            ),
            "N",
        );
    }
    let args = format!(
        "{},{},{}",
        list(&VALUES, |x| lit(x)),
        list(&FIELDS, |x| lit(x)),
        list(&CTX, |x| opt(&x.map(String::from)))
    );
    let mut out = vec![];
    for by in FIELDS {
        for val in VALUES {
            for c in CTX {
                for obs in [false, true] {
                    out.push(list(&f.find(val, by, c, obs), |e| {
                        e.linenum.to_string()
                    }));
                }
            }
        }
    }
    let line = |e: Option<POEntry>| {
        e.map(|e| e.linenum.to_string()).unwrap_or(s("N"))
    };
    for val in VALUES {
        out.push(line(f.find_by_msgid(val)));
        for c in CTX.iter().flatten() {
            out.push(line(f.find_by_msgid_msgctxt(val, c)));
        }
    }
    p.add(format!("search(f,{args})"), v(out.join(",")));
    let mut out = vec![];
    for by in FIELDS {
        for val in VALUES {
            for c in CTX {
                out.push(list(&m.find(val, by, c), |e| mofields(e)));
            }
        }
    }
    let one = |e: Option<&MOEntry>| e.map(mofields).unwrap_or(s("N"));
    for val in VALUES {
        out.push(one(m.find_by_msgid(val)));
        for c in CTX.iter().flatten() {
            out.push(one(m.find_by_msgid_msgctxt(val, c)));
        }
    }
    p.add(format!("mosearch(m,{args})"), v(out.join(",")));
    // each removal, the file being filled again from a copy
    p.add("[(a := f.get_entries()), (b := m.get_entries())] and None", "N");
    for val in VALUES {
        for c in CTX {
            let (mut g, mut h) = (f.clone(), m.clone());
            let how = match c {
                None => {
                    g.remove_by_msgid(val);
                    h.remove_by_msgid(val);
                    format!("remove_by_msgid({})", lit(val))
                }
                Some(c) => {
                    g.remove_by_msgid_msgctxt(val, c);
                    h.remove_by_msgid_msgctxt(val, c);
                    format!("remove_by_msgid_msgctxt({},{})", lit(val), lit(c))
                }
            };
            p.add(
                format!("[f.{how}, m.{how}, [k.linenum for k in f], list(m), put(f, entries=a), put(m, entries=b)]"),
                format!(
                    "[N,N,{},{},N,N]",
                    list(&g.entries, |e| e.linenum.to_string()),
                    list(&h.entries, mofields)
                ),
            );
        }
    }
    for k in 0..8 {
        let mut e = messages()[k].clone();
        e.line = l.iter().position(|x| *x == k).map_or(0, |x| x + 1);
        let n = MOEntry::from(&mo_distinct()[k].po());
        let (mut g, mut h) = (f.clone(), m.clone());
        g.remove(&e.po());
        h.remove(&n);
        p.add(
            format!(
                "put((e := POEntry()), msgid=\"\") or {} or [f.remove(e), m.remove(MOEntry({},{},{},{},{})), [k.linenum for k in f], list(m), put(f, entries=a), put(m, entries=b)]",
                py_put("e", &e),
                lit(&n.msgid),
                opt(&n.msgstr),
                opt(&n.msgid_plural),
                list(&n.msgstr_plural, |x| lit(x)),
                opt(&n.msgctxt)
            ),
            format!(
                "[N,N,{},{},N,N]",
                list(&g.entries, |e| e.linenum.to_string()),
                list(&h.entries, mofields)
            ),
        );
    }
    p
}

fn temp() -> String {
    let t = hash_bytes(
        format!("{:?}", std::thread::current().id()).as_bytes(),
    );
    s(scratch().join(format!("c19-{t:x}")).to_str().unwrap())
}

type Set = Box<dyn Fn(&mut Ent) + Send + Sync>;

/// Assignments of one field each.
fn odd_values() -> Vec<Set> {
    let mut out: Vec<Set> = vec![];
    for t in ["", " ", "\n", "a", "b\nc", "\0", "\\"] {
        let put: [fn(&mut Ent, &str); 8] = [
            |e, t| e.id = s(t),
            |e, t| e.s = o(t),
            |e, t| e.plural = o(t),
            |e, t| e.ctxt = o(t),
            |e, t| e.comment = o(t),
            |e, t| e.tcomment = o(t),
            |e, t| e.pid = o(t),
            |e, t| {
                e.pplural = o(t);
                e.pctxt = o(t)
            },
        ];
        for f in put {
            out.push(Box::new(move |e| f(e, t)));
        }
    }
    for l in [
        &[""][..],
        &["", ""],
        &["a", ""],
        &["", "a"],
        &["a", "a"],
        &["b", "a"],
        &["a", "b", "a"],
        &["fuzzy", "fuzzy"],
        &["fuzzy", ""],
        &[" fuzzy"],
        &["a,b", "fuzzy"],
        &["1", "2", "3", "4", "5", "6", "7"],
    ] {
        let l: Vec<String> = l.iter().map(|x| s(x)).collect();
        let k = l.clone();
        out.push(Box::new(move |e| e.flags = k.clone()));
        let k = l.clone();
        out.push(Box::new(move |e| e.sp = k.clone()));
        out.push(Box::new(move |e| {
            e.occ = l.iter().map(|x| (x.clone(), s(""))).collect()
        }));
    }
    for (a, b) in [("", "1"), ("a b", "1"), ("a", "0"), ("a", "x"), ("a:1", "2"), ("a", "1 2")] {
        out.push(Box::new(move |e| e.occ = vec![(s(a), s(b)), (s(b), s(a))]));
    }
    for n in [1, 255, 256, 65536, 1 << 32, (1 << 53) + 1] {
        out.push(Box::new(move |e| e.line = n));
    }
    out.push(Box::new(|e| e.obsolete = true));
    out
}

/// Files filled by assignment.
fn assigned(d: &[usize]) -> Program {
    let heads = [None, o(""), o("a"), o("\n")];
    let metas: [&[(&str, &str)]; 5] = [
        &[],
        &[("", "")],
        &[("Language", "")],
        &[("X-A", "1"), ("X-B", ""), ("Language", "es")],
        &[("Content-Type", "text/plain; charset=UTF-8"), ("X-é", "a\nb")],
    ];
    let width =
        [0, 1, 2, 78, 255, 1 << 32, usize::MAX >> 1][d[3]];
    let base = Ent { id: s("a"), ..Default::default() };
    let all = [
        Ent { s: o("t"), ..base.clone() },
        Ent { id: s(""), s: o(""), ..base.clone() },
        Ent { id: s(""), s: o("x"), ctxt: o(""), ..base.clone() },
        Ent { id: s(""), s: o("y"), obsolete: true, ..base.clone() },
        Ent { s: o("t"), sp: vec![s("1"), s("")], ..base.clone() },
        Ent {
            plural: o(""),
            sp: vec![s("1"), s("2")],
            flags: vec![s("fuzzy"), s("fuzzy")],
            ..base.clone()
        },
        base,
    ];
    let ents: Vec<Ent> =
        word(d[4] as u64, 7).into_iter().map(|k| all[k].clone()).collect();
    let mut f = POFile::new(FileOptions::default());
    let mut m = MOFile::new(FileOptions::default());
    let mut p = Program::new();
    p.add("(f := POFile())", "POFile");
    p.add("(m := MOFile())", "MOFile");
    p.add(
        format!(
            "put(f, header={}, metadata={{{}}}, metadata_is_fuzzy={}, wrapwidth={width})",
            opt(&heads[d[0]]),
            metas[d[1]]
                .iter()
                .map(|(k, x)| format!("{}:{}", lit(k), lit(x)))
                .collect::<Vec<_>>()
                .join(","),
            if d[2] == 1 { "True" } else { "False" },
        ),
        "N",
    );
    p.add(
        format!(
            "put(m, metadata=dict(f.get_metadata()), wrapwidth={width})"
        ),
        "N",
    );
    f.header = heads[d[0]].clone();
    for (k, x) in metas[d[1]] {
        f.metadata.insert(s(k), s(x));
        m.metadata.insert(s(k), s(x));
    }
    f.metadata_is_fuzzy = d[2] == 1;
    f.options.wrapwidth = width;
    m.options.wrapwidth = width;
    for e in &ents {
        p.add(
            format!("put((e := POEntry()), msgid=\"\") or {} or f.append(e)", py_put("e", e)),
            "N",
        );
        p.add(
            format!(
                "m.append(MOEntry({},{},{},{},{}))",
                lit(&e.id),
                opt(&e.s),
                opt(&e.plural),
                list(&e.sp, |x| lit(x)),
                opt(&e.ctxt)
            ),
            "N",
        );
        f.entries.push(e.po());
        m.entries.push(MOEntry::from(&e.po()));
    }
    p.add("view(f)", v(view(&f)));
    p.add("moview(m)", v(moview(&m)));
    p
}

/// A space of programs executed in batches.
fn batches(
    name: &str,
    what: &str,
    total: u64,
    size: u64,
    make: impl Fn(u64) -> Program + Send + Sync + 'static,
) -> Space {
    space(name, what, total.div_ceil(size), move |i, rec| {
        let ps: Vec<Program> = (i * size..((i + 1) * size).min(total))
            .map(&make)
            .collect();
        execute(&ps, rec)
    })
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut out = vec![];
    let m = menus(true);
    let depth = if quick { 2 } else { 3 };
    let dev = Deviations::new(&m.radices(), depth);
    let total = dev.total;
    out.push(batches(
        "messages",
        &format!("every message differing from the plain one in up to {depth} fields: made, assigned, rendered at 3 widths, merged"),
        total,
        40,
        move |i| message(&m.ent(&dev.get(i))),
    ));
    let d = Arc::new(distinct());
    let n = d.len();
    out.push(batches(
        "comparisons",
        &format!("every ordered pair of {n} messages: 7 comparisons, all 256 choices of fields, merging"),
        (n * n) as u64,
        5,
        move |i| comparison(&d[i as usize % n], &d[i as usize / n]),
    ));
    let n = if quick { 2 } else { 3 };
    out.push(batches(
        "opening",
        &format!("every sequence of up to {n} of 36 fragments opened as content in 3 ways"),
        words_upto(FRAGS.len(), n),
        20,
        |i| {
            opening(
                &word_string(i, &FRAGS),
                None,
                [20, 0, 100][i as usize % 3],
            )
        },
    ));
    out.push(space(
        "paths",
        "36 fragments, 69 malformed lines and every 5th prefix of a file with every feature, opened as a path in 2 ways and as content in 3",
        36 + 69 + 60,
        |i, rec| {
            let i = i as usize;
            let text = match i {
                0..=35 => s(FRAGS[i]),
                36..=104 => {
                    format!("msgid \"a\"\nmsgstr \"b\"\n\n{}\n", BAD[i - 36])
                }
                _ => RICH.chars().take((i - 105) * 5).collect(),
            };
            let path = temp();
            std::fs::write(&path, &text).unwrap();
            let r = execute(&[opening(&text, Some(&path), 25)], rec);
            std::fs::remove_file(&path).ok();
            r
        },
    ));
    let bases = c10::bases();
    let max = bases.iter().map(|b| b.len()).max().unwrap();
    out.push(space(
        "mo-paths",
        "10 MO files and every prefix of them opened as a path in 3 ways",
        (bases.len() * (max + 1)) as u64,
        move |i, rec| {
            let d = digits(i, &[max + 1, bases.len()]);
            let b = &bases[d[1]];
            if d[0] > b.len() {
                return Ok(());
            }
            let path = temp();
            std::fs::write(&path, &b[..d[0]]).unwrap();
            let l = lit(&path);
            let mut p = Program::new();
            mo_opened(&mut p, &format!("mofile({l})"), mofile(path.as_str()));
            mo_opened(
                &mut p,
                &format!("MOFile({l}, 9)"),
                mofile((path.as_str(), 9)),
            );
            mo_opened(
                &mut p,
                &format!("mofile({l}, wrapwidth=40)"),
                mofile((path.as_str(), 40)),
            );
            let r = execute(&[p], rec);
            std::fs::remove_file(&path).ok();
            r
        },
    ));
    out.push(space(
        "metadata",
        "MO and PO files with 5 kinds of metadata and every pair of 24 messages, read from a path",
        24 * 24,
        move |i, rec| {
            let cat = mo::catalogue();
            let d = digits(i, &[24, 24]);
            let mut msgs = vec![cat[d[0]].clone()];
            if d[1] != d[0] {
                msgs.push(cat[d[1]].clone());
            }
            let f = mo_file(&msgs, &clean_metas()[i as usize % 5]);
            let path = temp();
            std::fs::write(&path, f.as_bytes()).unwrap();
            let mut p = Program::new();
            mo_opened(
                &mut p,
                &format!("mofile({})", lit(&path)),
                mofile(path.as_str()),
            );
            let text = f.to_string();
            opened(
                &mut p,
                &format!("pofile({})", lit(&text)),
                pofile(text.as_str()),
            );
            let r = execute(&[p], rec);
            std::fs::remove_file(&path).ok();
            r
        },
    ));
    let n = if quick { 4 } else { 5 };
    out.push(batches(
        "escaping",
        &format!("every string of length <= {n} over 18 letters escaped and unescaped"),
        words_upto(LETTERS.len(), n),
        500,
        |i| {
            let x = word_string(i, &LETTERS);
            let mut p = Program::new();
            p.add(format!("escape({})", lit(&x)), es(&escape(&x)));
            p.add(
                format!("unescape({})", lit(&x)),
                match unescape(&x) {
                    Ok(t) => es(&t),
                    Err(e) => format!(
                        "!rspolib.EscapingError {}",
                        es(&e.to_string())
                    ),
                },
            );
            p
        },
    ));
    let n = if quick { 3 } else { 4 };
    out.push(batches(
        "searching",
        &format!("every PO and MO file of up to {n} of 8 messages: all searches and lookups (7 values, 9 fields, 5 contexts, obsolete or not) and removals"),
        words_upto(8, n),
        4,
        |i| searching(&word(i, 8)),
    ));
    let r = related_radices();
    out.push(batches(
        "related",
        "one message whose fields are drawn from the same three texts (absent, empty, equal, differing in a final newline): made, assigned, rendered, merged",
        product(&r),
        40,
        move |i| match related(&digits(i, &r)) {
            Some(e) => message(&e),
            None => Program::new(),
        },
    ));
    let m = TWINS;
    out.push(batches(
        "twins",
        &format!("every ordered pair of {m} small messages that may share any field, compared, appended to a file and everything observed"),
        (m * m) as u64,
        10,
        move |i| {
            let d = digits(i, &[m, m]);
            let (a, b) = (twin(d[0]), twin(d[1]));
            let mut p = comparison(&a, &b);
            let f = Fil { ents: vec![a.clone(), b.clone()], ..Default::default() }.po(78);
            p.add("(f := POFile())", "POFile");
            for e in [&a, &b] {
                p.add(format!("put((e := POEntry()), msgid=\"\") or {} or f.append(e)", py_put("e", e)), "N");
            }
            p.add("view(f)", v(view(&f)));
            p
        },
    ));
    out.push(space(
        "histories",
        &format!("every sequence of up to {n} of {} operations on a PO file and two messages, everything observed at the end", STEPS.len()),
        words_upto(STEPS.len(), n).div_ceil(44),
        move |i, rec| {
            let path = temp();
            let total = words_upto(STEPS.len(), n);
            let ps: Vec<Program> = (i * 44..((i + 1) * 44).min(total))
                .map(|k| history(&STEPS, &word(k, STEPS.len()), &path, true))
                .collect();
            let r = execute(&ps, rec);
            std::fs::remove_file(&path).ok();
            r
        },
    ));
    let n = if quick { 3 } else { 4 };
    out.push(space(
        "mo-histories",
        &format!("every sequence of up to {n} of {} operations on an MO file and a message", MO_STEPS.len()),
        words_upto(MO_STEPS.len(), n).div_ceil(26),
        move |i, rec| {
            let path = temp();
            let total = words_upto(MO_STEPS.len(), n);
            let ps: Vec<Program> = (i * 26..((i + 1) * 26).min(total))
                .map(|k| {
                    history(&MO_STEPS, &word(k, MO_STEPS.len()), &path, false)
                })
                .collect();
            let r = execute(&ps, rec);
            std::fs::remove_file(&path).ok();
            r
        },
    ));
    // odd but possible values of every field
    let odd: Arc<Vec<Set>> = Arc::new(odd_values());
    let n = odd.len();
    out.push(batches(
        "values",
        &format!("every pair of {n} values of the fields of a message, empty texts and lists and repeated items among them: made, assigned, rendered, merged"),
        (n * n) as u64,
        40,
        move |i| {
            let d = digits(i, &[n, n]);
            if d[0] > d[1] {
                return Program::new();
            }
            let mut e = Ent { id: s("a"), ..Default::default() };
            odd[d[0]](&mut e);
            odd[d[1]](&mut e);
            message(&e)
        },
    ));
    let lists = words_upto(7, if quick { 2 } else { 3 });
    let r = vec![4, 5, 2, 7, lists as usize];
    out.push(batches(
        "files",
        "files with 4 headers, 5 kinds of metadata, fuzzy or not, 7 widths and every list of up to 2 (thorough 3) of 7 messages, the context-free empty source among them, made by assignment, everything observed",
        product(&r),
        20,
        move |i| assigned(&digits(i, &r)),
    ));
    out.push(space(
        "versions",
        "MO files of every list of up to 2 of 24 messages in both byte orders and both versions, read from a path",
        words_upto(24, 2) * 4,
        |i, rec| {
            let cat = mo::catalogue();
            let mut l = word(i / 4, 24);
            l.dedup();
            let msgs: Vec<Msg> =
                l.into_iter().map(|k| cat[k].clone()).collect();
            let f = mo_file(&msgs, &Default::default());
            let path = temp();
            let magic = [MAGIC, MAGIC_SWAPPED][i as usize % 2];
            let b = f.as_bytes_with(magic, i as u32 / 2 % 2);
            std::fs::write(&path, b).unwrap();
            let mut p = Program::new();
            mo_opened(
                &mut p,
                &format!("mofile({})", lit(&path)),
                mofile(path.as_str()),
            );
            let r = execute(&[p], rec);
            std::fs::remove_file(&path).ok();
            r
        },
    ));
    // every character crosses the border unchanged
    let n = if quick { 0x3000 + 17 * 64 } else { SOME_SCALARS };
    out.push(batches(
        "scalars",
        &format!("{n} Unicode scalar values in every field: made, assigned, rendered, merged, escaped, parsed"),
        n,
        10,
        move |i| {
            let c = if !quick {
                some_scalar(i)
            } else if i < 0x3000 {
                scalar(i)
            } else {
                // around the ends of the planes
                let (p, k) = ((i - 0x3000) / 64, (i - 0x3000) % 64);
                let at = 0x30000 * (p + 1) - 0x800 - 32 + k;
                scalar(at.min(SCALARS - 1))
            };
            // separates answers
            if c == '\u{1e}' {
                return Program::new();
            }
            let f = scalar_file(c);
            let mut p = message(&f.ents[(i % 3) as usize]);
            let x = format!("{c}x{c}");
            p.add(format!("escape({})", lit(&x)), es(&escape(&x)));
            p.add(
                format!("unescape({})", lit(&escape(&x))),
                es(&unescape(&escape(&x)).unwrap()),
            );
            let text = f.po(78).to_string();
            opened(
                &mut p,
                &format!("pofile({})", lit(&text)),
                pofile(text.as_str()),
            );
            p
        },
    ));
    let sizes = counts(20, if quick { 1025 } else { 4097 });
    let n = sizes.len();
    out.push(space(
        "sizes",
        "files with each number of messages, plural forms, flags, references and comment lines, and texts of each length, at the neighbours of the powers of two and ten up to 1025 (thorough 4097): opened, every message by index, everything observed",
        (DIMENSIONS * n) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, n]);
            let f = match sized(d[0], sizes[d[1]]) {
                Some(f) if !quick || d[0] > 8 || sizes[d[1]] <= 257 => f,
                _ => return Ok(()),
            };
            let text = f.po(78).to_string();
            let mut p = Program::new();
            opened(
                &mut p,
                &format!("pofile({}, 60)", lit(&text)),
                pofile((text.as_str(), 60)),
            );
            let m = f.ents.len();
            for k in [m, m + 1, m + 255, 1 << 31] {
                p.add(format!("f[{k}]"), INDEX);
            }
            for e in f.ents.iter().rev().take(2) {
                p.add(format!("put((e := POEntry()), msgid=\"\") or {}", py_put("e", e)), "N");
                p.add("e", fields(&e.po()));
                p.add("show(e)", show(&e.po()));
            }
            execute(&[p], rec)
        },
    ));
    let far = counts(130, usize::MAX);
    out.push(batches(
        "widths",
        &format!("{} widths, all up to 130 and around the powers of two and ten up to 2^64-1, given on opening, assigned, and to single messages", far.len()),
        far.len() as u64,
        4,
        move |i| {
            let w = far[i as usize];
            let mut p = Program::new();
            opened(
                &mut p,
                &format!("pofile({}, wrapwidth={w})", lit(OTHER)),
                pofile((OTHER, w)),
            );
            opened(
                &mut p,
                &format!("POFile({}, {w})", lit(OTHER)),
                pofile((OTHER, w)),
            );
            let f = pofile((OTHER, w)).unwrap();
            p.add(format!("(f := pofile({}))", lit(OTHER)), "POFile");
            p.add(format!("put(f, wrapwidth={w})"), "N");
            p.add("[f.wrapwidth, str(f)]", v(format!("{w},{}", es(&f.to_string()))));
            for (k, e) in f.entries.iter().enumerate() {
                p.add(
                    format!("f[{k}].to_string_with_wrapwidth({w})"),
                    es(&e.to_string_with_wrapwidth(w)),
                );
                p.add(
                    format!("f[{k}].to_string_with_wrapwidth(wrapwidth={w})"),
                    es(&e.to_string_with_wrapwidth(w)),
                );
            }
            let mut m = MOFile::new(FileOptions::from(("", w)));
            m.entries = f.entries.iter().map(MOEntry::from).collect();
            p.add(format!("(m := MOFile(\"\", {w}))"), "MOFile");
            for (k, e) in m.entries.iter().enumerate() {
                p.add(
                    format!(
                        "m.append((n := MOEntry({},{},{},{},{})))",
                        lit(&e.msgid),
                        opt(&e.msgstr),
                        opt(&e.msgid_plural),
                        list(&e.msgstr_plural, |x| lit(x)),
                        opt(&e.msgctxt)
                    ),
                    "N",
                );
                p.add(
                    format!("m[{k}].to_string_with_wrapwidth({w})"),
                    es(&e.to_string_with_wrapwidth(w)),
                );
            }
            p.add("moview(m)", v(moview(&m)));
            p
        },
    ));
    // arguments left out, given by position and by name
    out.push(batches(
        "calls",
        "every subset of the arguments of the constructors and comparisons by name, every number of them by position, every way to call the searches and to open a file",
        256 * 2,
        16,
        |i| {
            let full = Ent {
                id: s("i"),
                s: o("t"),
                plural: o("p"),
                sp: vec![s("1"), s("2")],
                ctxt: o("c"),
                tcomment: o("tc"),
                comment: o("xc"),
                flags: vec![s("fuzzy"), s("f")],
                ..Default::default()
            };
            let args = [
                ("msgid", lit(&full.id)),
                ("msgstr", opt(&full.s)),
                ("msgid_plural", opt(&full.plural)),
                ("msgstr_plural", list(&full.sp, |x| lit(x))),
                ("msgctxt", opt(&full.ctxt)),
                ("tcomment", opt(&full.tcomment)),
                ("comment", opt(&full.comment)),
                ("flags", list(&full.flags, |x| lit(x))),
            ];
            let some = |bits: usize| {
                let on = |k: usize| bits >> k & 1 == 1;
                let mut e = full.clone();
                if !on(0) {
                    e.id = s("");
                }
                if !on(3) {
                    e.sp.clear();
                }
                if !on(7) {
                    e.flags.clear();
                }
                for (k, x) in [
                    (1, &mut e.s),
                    (2, &mut e.plural),
                    (4, &mut e.ctxt),
                    (5, &mut e.tcomment),
                    (6, &mut e.comment),
                ] {
                    if !on(k) {
                        *x = None;
                    }
                }
                e.po()
            };
            let bits = (i / 2) as usize;
            let mut p = Program::new();
            if i % 2 == 0 {
                let named: Vec<String> = (0..8)
                    .filter(|k| bits >> k & 1 == 1)
                    .map(|k| format!("{}={}", args[k].0, args[k].1))
                    .collect();
                p.add(format!("POEntry({})", named.join(",")), fields(&some(bits)));
                if bits < 32 {
                    p.add(
                        format!("MOEntry({})", named.join(",")),
                        mofields(&MOEntry::from(&some(bits))),
                    );
                }
                let n = bits % 9;
                let first: Vec<&str> =
                    args[..n].iter().map(|a| &a.1[..]).collect();
                p.add(
                    format!("POEntry({})", first.join(",")),
                    fields(&some((1 << n) - 1)),
                );
                if n <= 5 {
                    p.add(
                        format!("MOEntry({})", first.join(",")),
                        mofields(&MOEntry::from(&some((1 << n) - 1))),
                    );
                }
                return p;
            }
            // fields are compared unless refused
            let (a, mut b) = (full.clone(), full.clone());
            b.id = s("j");
            b.s = o("u");
            b.ctxt = o("d");
            b.obsolete = true;
            b.plural = o("q");
            b.sp = vec![s("1"), s("3")];
            b.occ = vec![(s("f"), s("1"))];
            b.flags = vec![s("g")];
            let mut c = a.clone();
            let k = bits.count_ones() as usize % 8;
            match PO_KEYS[k] {
                "msgid" => c.id = b.id.clone(),
                "msgstr" => c.s = b.s.clone(),
                "msgctxt" => c.ctxt = b.ctxt.clone(),
                "obsolete" => c.obsolete = true,
                "msgid_plural" => c.plural = b.plural.clone(),
                "msgstr_plural" => c.sp = b.sp.clone(),
                "occurrences" => c.occ = b.occ.clone(),
                _ => c.flags = b.flags.clone(),
            }
            for (var, e) in [("e", &a), ("x", &b), ("k", &c)] {
                p.add(
                    format!("put(({var} := POEntry()), msgid=\"\") or {}", py_put(var, e)),
                    "N",
                );
            }
            let refused: Vec<String> = (0..8)
                .filter(|k| bits >> k & 1 == 1)
                .map(|k| format!(", {}=False", PO_KEYS[k]))
                .collect();
            let op = by(255 & !(bits as u32), &PO_KEYS);
            for (var, e) in [("x", &b), ("k", &c)] {
                p.add(
                    format!("e.cmp_by({var}{})", refused.concat()),
                    sign(a.po().cmp_by(&e.po(), &op)),
                );
                p.add(
                    format!("{var}.cmp_by(e{})", refused.concat()),
                    sign(e.po().cmp_by(&a.po(), &op)),
                );
                // by position
                let n = bits.count_ones() as usize;
                let given: Vec<&str> = (0..n)
                    .map(|k| [", False", ", True"][bits >> k & 1])
                    .collect();
                let pos = (0..8)
                    .filter(|k| *k >= n || bits >> k & 1 == 1)
                    .fold(0, |x, k| x | 1 << k);
                p.add(
                    format!("e.cmp_by({var}{})", given.concat()),
                    sign(a.po().cmp_by(&e.po(), &by(pos, &PO_KEYS))),
                );
            }
            const KEYS: [&str; 5] =
                ["msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr_plural"];
            if bits < 32 {
                let refused: Vec<String> = (0..5)
                    .filter(|k| bits >> k & 1 == 1)
                    .map(|k| format!(", {}=False", KEYS[k]))
                    .collect();
                let op = by(31 & !(bits as u32), &KEYS);
                for (var, e) in [("n", &a), ("q", &b), ("r", &c)] {
                    let m = MOEntry::from(&e.po());
                    p.add(
                        format!(
                            "({var} := MOEntry({},{},{},{},{}))",
                            lit(&e.id),
                            opt(&e.s),
                            opt(&e.plural),
                            list(&e.sp, |x| lit(x)),
                            opt(&e.ctxt)
                        ),
                        mofields(&m),
                    );
                    if var != "n" {
                        let n = MOEntry::from(&a.po());
                        p.add(
                            format!("n.cmp_by({var}{})", refused.concat()),
                            sign(n.cmp_by(&m, &op)),
                        );
                    }
                }
            }
            // searches
            let ents = super::c13::messages();
            let f = Fil { ents, ..Default::default() }.po(78);
            let m = MOFile::from(f.entries.iter().map(MOEntry::from).collect::<Vec<_>>().iter().collect::<Vec<_>>());
            p.add(
                format!("(f := pofile({}))", lit(&f.to_string())),
                "POFile",
            );
            let f = pofile(f.to_string().as_str()).unwrap();
            p.add("(m := MOFile())", "MOFile");
            for e in &m.entries {
                p.add(
                    format!(
                        "m.append(MOEntry({},{},{},{},{}))",
                        lit(&e.msgid),
                        opt(&e.msgstr),
                        opt(&e.msgid_plural),
                        list(&e.msgstr_plural, |x| lit(x)),
                        opt(&e.msgctxt)
                    ),
                    "N",
                );
            }
            let mf = |v: Vec<&MOEntry>| list(&v, |e| mofields(e));
            p.add("f.find(\"a\")", refs(&f.find("a", "msgid", None, false)));
            p.add(
                "f.find(\"c\", \"msgctxt\")",
                refs(&f.find("c", "msgctxt", None, false)),
            );
            p.add(
                "f.find(\"a\", msgctxt=\"c\")",
                refs(&f.find("a", "msgid", Some("c"), false)),
            );
            p.add(
                "f.find(\"a\", include_obsolete_entries=True)",
                refs(&f.find("a", "msgid", None, true)),
            );
            p.add(
                "f.find(value=\"a\", by=\"msgstr\", include_obsolete_entries=True, msgctxt=\"\")",
                refs(&f.find("a", "msgstr", Some(""), true)),
            );
            p.add("m.find(\"a\")", mf(m.find("a", "msgid", None)));
            p.add("m.find(\"c\", \"msgctxt\")", mf(m.find("c", "msgctxt", None)));
            p.add(
                "m.find(\"a\", msgctxt=\"c\")",
                mf(m.find("a", "msgid", Some("c"))),
            );
            p.add(
                "m.find(value=\"tr\", by=\"msgstr\", msgctxt=\"c\")",
                mf(m.find("tr", "msgstr", Some("c"))),
            );
            // names of few letters are names
            let name = ["x", "/", ".", "x.mo", " ", "é", "a/b", "\n"][k];
            mo_opened(&mut p, &format!("mofile({})", lit(name)), mofile(name));
            mo_opened(&mut p, &format!("MOFile({})", lit(name)), mofile(name));
            opened(&mut p, &format!("pofile({})", lit(name)), pofile(name));
            opened(
                &mut p,
                &format!("POFile(path_or_content={}, wrapwidth=9)", lit(name)),
                pofile((name, 9)),
            );
            p
        },
    ));
    out.push(space(
        "misc",
        "constants, defaults, errors of the operations",
        1,
        |_, rec| {
            let mut p = Program::new();
            p.add(
                "[MOFile.MAGIC, MOFile.MAGIC_SWAPPED]",
                format!("[{MAGIC},{MAGIC_SWAPPED}]"),
            );
            p.add("[POFile().wrapwidth, MOFile().wrapwidth, pofile(\"\").wrapwidth]", "[78,78,78]");
            p.add("[POEntry(), MOEntry()]", v(format!("{},{}", fields(&POEntry::new(0)), mofields(&MOEntry::from("")))));
            p.add("len(POFile())", "0");
            p.add("len(MOFile())", "0");
            p.add("POFile()[0]", INDEX);
            p.add("MOFile()[0]", INDEX);
            p.add("str(POFile())", es(&POFile::new(FileOptions::default()).to_string()));
            p.add("str(MOFile())", es(&MOFile::new(FileOptions::default()).to_string()));
            p.add("[POEntry(msgid=\"i\", comment=\"c\").comment, POEntry(msgid=\"i\", tcomment=\"c\").tcomment, POEntry(flags=[\"x\"]).get_flags(), POEntry(msgctxt=\"c\").msgctxt, POEntry(msgid_plural=\"p\").msgid_plural, POEntry(msgstr_plural=[\"p\"]).get_msgstr_plural()]", "[\"c\",\"c\",[\"x\"],\"c\",\"p\",[\"p\"]]");
            p.add("(f := POFile())", "POFile");
            p.add("f.append(POEntry(\"a\")) or [k for k in f][0].msgid", es("a"));
            p.add("[(i := iter(f)), f.append(POEntry(\"b\")), [k.msgid for k in i], len(f)][2:]", "[[\"a\"],2]");
            p.add("[k.msgid for k in f]", "[\"a\",\"b\"]");
            execute(&[p], rec)
        },
    ));
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "model_checking",
        rule: "every enumerated program is executed by a Python interpreter with the extension module built from the tree and, step by step, with the Rust library; all outcomes must be identical; states are distinct outcomes",
        assumptions: &[
            "Python values that are not text, such as lone surrogates and negative widths, are refused by the binding layer and not part of the property",
            "a failed save is a panic in Rust and arrives as PanicException, which is not one of the documented exceptions",
        ],
        spaces,
    }
}
