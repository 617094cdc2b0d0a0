//! Menus of field values and archetypal messages.

use crate::model::*;
use std::collections::BTreeMap;

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn o(x: &str) -> Option<String> {
    Some(x.to_string())
}

/// Letters for exhaustive short strings.
pub const LETTERS: [&str; 18] = [
    "a", " ", "\"", "\\", "\n", "n", "é", "中", "\t", "\r", "#",
    "\u{8}", "\u{11}", "\u{12}", "\u{2028}", "\u{301}", "-", "\u{c}",
];

pub fn long(unit: &str, n: usize) -> String {
    unit.repeat(n)
}

/// Strings with boundary content for any string field.
pub fn texts() -> Vec<String> {
    vec![
        s("x"),
        s(""),
        s(" "),
        s("two words"),
        s("  lead and trail  "),
        s("line one\nline two\n"),
        s("\n"),
        s("quote \" in \"the\" text\""),
        s("back\\slash \\n not newline \\"),
        s("tab\tcr\rbs\u{8}v\u{11}f\u{12}vt\u{b}ff\u{c}"),
        s("naïve café 中文字符 日本語 한국어"),
        s("e\u{301}\u{301} 👩‍👩‍👧 \u{200b}zw\u{feff}bom \u{a0}nbsp\u{2028}ls\u{85}nel"),
        s("msgid \"fake\""),
        s("# not a comment"),
        s("#~ msgstr \"\""),
        s("%s of %d: {0} <b>bold</b> http://example.com/a/b?c=d&e=f"),
        long("word ", 60),
        long("unbreakable", 30),
        long("中文", 90),
        long("a-b\\\"c\n", 40),
        long("é ", 50),
        s("\u{0}nul\u{7f}del\u{1b}esc"),
        s("trailing backslash n: \\\n"),
        s("] [0] \"x\""),
    ]
}

pub fn small_texts() -> Vec<String> {
    let t = texts();
    [0usize, 1, 4, 5, 7, 8, 10, 12, 16, 17, 19]
        .iter()
        .map(|&i| t[i].clone())
        .collect()
}

fn opt(v: Vec<String>) -> Vec<Option<String>> {
    let mut r = vec![None];
    r.extend(v.into_iter().map(Some));
    r
}

pub struct Menus {
    pub ctxt: Vec<Option<String>>,
    pub id: Vec<String>,
    pub plural: Vec<Option<String>>,
    /// translation(s): (single, plural list)
    pub tr: Vec<(Option<String>, Vec<String>)>,
    pub comment: Vec<Option<String>>,
    pub tcomment: Vec<Option<String>>,
    pub occ: Vec<Vec<(String, String)>>,
    pub flags: Vec<Vec<String>>,
    pub pctxt: Vec<Option<String>>,
    pub pid: Vec<Option<String>>,
    pub pplural: Vec<Option<String>>,
}

pub fn comments() -> Vec<String> {
    vec![
        s("c"),
        s("two words"),
        s("one\ntwo"),
        s("one\n\nthree"),
        s("  indented\n\ttab"),
        s("# hash"),
        s("msgid \"x\""),
        s("comentário 中文"),
        long("word ", 40),
        long("unbreakable", 20),
        format!("short\n{}\nlast", long("mixed w-ords, ", 15)),
        long("中文", 60),
        s("back\\slash \"quote\" \\"),
        s("~ | , : . !"),
    ]
}

pub fn occs() -> Vec<Vec<(String, String)>> {
    let p = |a: &str, b: &str| (s(a), s(b));
    vec![
        vec![],
        vec![p("a.c", "1")],
        vec![p("a.c", "")],
        vec![p("src/a.c", "12"), p("b.c", "")],
        vec![p("C:\\dir\\x.c", "")],
        vec![p("a:b.c", ""), p("a:", ""), p("a:b:", ""), p(":", "")],
        vec![p("fïle.c", "3"), p("文件.c", "4")],
        (0..30).map(|i| (format!("dir/file{i}.c"), format!("{i}"))).collect(),
        vec![p(&long("path/", 30), "7"), p("b", "1"), p(&long("q/", 50), "")],
        vec![p("a.c", "1"), p("a.c", "1")],
        vec![p("a.c", "007")],
        vec![p("10", ""), p("#", ""), p("#,x", "2")],
    ]
}

pub fn flagss() -> Vec<Vec<String>> {
    vec![
        vec![],
        vec![s("fuzzy")],
        vec![s("c-format")],
        vec![s("c-format"), s("fuzzy")],
        vec![s("fuzzy"), s("no-wrap"), s("range: 0..10")],
        vec![s("fuzzy"), s("fuzzy")],
        (0..14).map(|i| format!("flag-{i}")).collect(),
        vec![s("Fuzzy")],
    ]
}

pub fn menus(small: bool) -> Menus {
    let t = if small { small_texts() } else { texts() };
    let mut tr: Vec<(Option<String>, Vec<String>)> =
        vec![(Some(s("str")), vec![]), (None, vec![])];
    tr.extend(t.iter().map(|x| (Some(x.clone()), vec![])));
    tr.push((None, vec![s("one")]));
    tr.push((None, vec![s("one"), s("two")]));
    tr.push((None, vec![s(""), s("two")]));
    tr.push((None, vec![s("one"), s("")]));
    tr.push((None, vec![s(""), s("")]));
    tr.push((None, (0..12).map(|i| format!("form {i}")).collect()));
    tr.push((
        None,
        vec![long("word ", 30), s("q\"\\\n"), long("中文", 50)],
    ));
    let mut id = vec![s("id")];
    id.extend(t.iter().cloned());
    Menus {
        ctxt: opt(t.clone()),
        id,
        plural: opt(t.clone()),
        tr,
        comment: opt(comments()),
        tcomment: opt(comments()),
        occ: occs(),
        flags: flagss(),
        pctxt: opt(t.clone()),
        pid: opt(t.clone()),
        pplural: opt(t),
    }
}

impl Menus {
    pub fn radices(&self) -> Vec<usize> {
        vec![
            self.ctxt.len(),
            self.id.len(),
            self.plural.len(),
            self.tr.len(),
            self.comment.len(),
            self.tcomment.len(),
            self.occ.len(),
            self.flags.len(),
            self.pctxt.len(),
            self.pid.len(),
            self.pplural.len(),
            2,
        ]
    }
    pub fn ent(&self, d: &[usize]) -> Ent {
        let (st, sp) = self.tr[d[3]].clone();
        let mut plural = self.plural[d[2]].clone();
        // plural translations belong to a message with a plural source
        if !sp.is_empty() && plural.is_none() {
            plural = o("ids");
        }
        Ent {
            ctxt: self.ctxt[d[0]].clone(),
            id: self.id[d[1]].clone(),
            plural,
            s: st,
            sp,
            obsolete: d[11] == 1,
            comment: self.comment[d[4]].clone(),
            tcomment: self.tcomment[d[5]].clone(),
            occ: self.occ[d[6]].clone(),
            flags: self.flags[d[7]].clone(),
            pctxt: self.pctxt[d[8]].clone(),
            pid: self.pid[d[9]].clone(),
            pplural: self.pplural[d[10]].clone(),
            line: 0,
        }
    }
}

/// Archetypal messages for multi-message files; `n` makes them distinct.
pub const ARCHETYPES: usize = 16;
pub fn archetype(k: usize, n: usize) -> Ent {
    let mut e = Ent {
        id: format!("id{n}"),
        s: Some(format!("str{n}")),
        ..Default::default()
    };
    match k {
        0 => {}
        1 => e.s = None,
        2 => {
            e.plural = Some(format!("ids{n}"));
            e.s = None;
            e.sp = vec![format!("one{n}"), format!("many{n}")];
        }
        3 => {
            e.ctxt = Some(format!("ctx{n}"));
            e.tcomment = Some(format!("tc{n}"));
        }
        4 => e.obsolete = true,
        5 => {
            e.obsolete = true;
            e.ctxt = Some(format!("ctx{n}"));
            e.tcomment = Some(format!("tc{n}"));
            e.flags = vec![s("fuzzy")];
            e.pid = Some(format!("old{n}"));
            e.occ = vec![(format!("f{n}.c"), format!("{n}"))];
        }
        6 => e.flags = vec![s("fuzzy")],
        7 => {
            e.comment = Some(format!("gc{n}\nmore"));
            e.occ = vec![
                (format!("f{n}.c"), format!("{n}")),
                (format!("g{n}.c"), s("")),
            ];
            e.flags = vec![s("c-format"), s("no-wrap")];
        }
        8 => {
            e.pctxt = Some(format!("pctx{n}"));
            e.pid = Some(format!("pid{n}"));
            e.pplural = Some(format!("pids{n}"));
            e.flags = vec![s("fuzzy")];
        }
        9 => {
            e.plural = Some(format!("ids{n}"));
            e.s = None;
            e.sp = vec![format!("one{n}"), s("")];
        }
        10 => {
            e.id = s("");
            e.ctxt = Some(format!("ctx{n}"));
        }
        11 => {
            e.id = format!("multi\nline {n}\n");
            e.s = Some(format!("multi\nlínea {n} {}\n", long("w ", 45)));
        }
        12 => {
            e.obsolete = true;
            e.plural = Some(format!("ids{n}"));
            e.s = None;
            e.sp = vec![s("a"), s("b"), s("c")];
        }
        13 => {
            e.ctxt = o("");
            e.s = o("");
        }
        14 => {
            // same source string as its neighbours, other context
            e.id = s("same");
            e.ctxt = Some(format!("c{n}"));
        }
        _ => {
            e.tcomment = Some(format!("{}{n}", long("long comment ", 10)));
            e.comment = Some(format!("{}{n}", long("long extracted ", 10)));
            e.occ = (0..9)
                .map(|i| (format!("some/dir/{n}/{i}.c"), format!("{i}")))
                .collect();
        }
    }
    e
}

pub fn metas() -> Vec<BTreeMap<String, String>> {
    let m = |v: &[(&str, &str)]| {
        v.iter()
            .map(|(a, b)| (s(a), s(b)))
            .collect::<BTreeMap<String, String>>()
    };
    vec![
        m(&[]),
        m(&[("Language", "es")]),
        m(&[
            ("Project-Id-Version", "p 1.0"),
            ("PO-Revision-Date", "2020-01-01 10:00+0000"),
            ("Content-Type", "text/plain; charset=UTF-8"),
            ("Plural-Forms", "nplurals=2; plural=(n != 1);"),
            ("X-Generator", "x"),
        ]),
        m(&[("X-Quote", "a \"b\" \\ c\t"), ("X-Empty", ""), ("X-Colon", "a: b:c")]),
        m(&[("X-Long", &long("word ", 60).trim_end().to_string()), ("X-é", "中文")]),
    ]
}

pub fn headers() -> Vec<Option<String>> {
    vec![
        None,
        o("Header"),
        o("Line one\nLine two"),
        o("First\n\nThird  spaced\n\tTab"),
        o("\nblank first"),
        o("# hash #\nmsgid \"x\""),
        Some(long("long header ", 20).trim_end().to_string()),
        o("中文 é"),
        o(""),
    ]
}
