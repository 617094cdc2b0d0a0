//! Message shapes for classification and compilation.

use crate::menu::{o, s};
use crate::model::*;

/// Reference: translated messages are those neither obsolete nor fuzzy
/// whose translation, or every plural translation, is non-empty.
pub fn translated(e: &Ent) -> bool {
    let fuzzy = e.flags.iter().any(|f| f == "fuzzy");
    let full = if e.plural.is_some() || !e.sp.is_empty() {
        !e.sp.is_empty() && e.sp.iter().all(|x| !x.is_empty())
    } else {
        e.s.as_deref().is_some_and(|x| !x.is_empty())
    };
    !e.obsolete && !fuzzy && full
}

pub fn flag_sets() -> Vec<Vec<String>> {
    vec![
        vec![],
        vec![s("fuzzy")],
        vec![s("c-format")],
        vec![s("c-format"), s("fuzzy")],
        vec![s("fuzzy"), s("no-wrap")],
        vec![s("Fuzzy")],
        vec![s("not-fuzzy"), s("fuzzy2")],
        vec![s("a"), s("b"), s("fuzzy"), s("c")],
    ]
}

/// (plural source, single translation, plural translations)
pub fn translations() -> Vec<(Option<String>, Option<String>, Vec<String>)> {
    let mut v: Vec<(Option<String>, Option<String>, Vec<String>)> = vec![
        (None, o("tr"), vec![]),
        (None, None, vec![]),
        (None, o(""), vec![]),
        (None, o(" "), vec![]),
        (None, o("\n"), vec![]),
        (None, o("longer\ntranslation 中"), vec![]),
        (o("ids"), None, vec![]),
        (o(""), None, vec![s("x"), s("y")]),
    ];
    // all patterns of empty forms up to 4 plural translations
    for n in 1..=4usize {
        for bits in 0..1usize << n {
            v.push((
                o("ids"),
                None,
                (0..n)
                    .map(|k| {
                        if bits >> k & 1 == 1 {
                            format!("form{k}")
                        } else {
                            s("")
                        }
                    })
                    .collect(),
            ));
        }
    }
    v
}

pub const CTXTS: [Option<&str>; 3] = [None, Some(""), Some("ctx")];

pub fn radices() -> Vec<usize> {
    vec![flag_sets().len(), translations().len(), 2, CTXTS.len(), 4]
}

pub fn shape(d: &[usize]) -> Ent {
    let (plural, st, sp) = translations()[d[1]].clone();
    let mut e = Ent {
        id: s("id"),
        ctxt: CTXTS[d[3]].map(String::from),
        plural,
        s: st,
        sp,
        flags: flag_sets()[d[0]].clone(),
        obsolete: d[2] == 1,
        ..Default::default()
    };
    match d[4] {
        1 => {
            e.comment = o("generated");
            e.tcomment = o("fuzzy");
            e.occ = vec![(s("a.c"), s("1"))];
        }
        2 => {
            e.pid = o("old");
            e.pctxt = o("old ctx");
            e.pplural = o("olds");
        }
        3 => e.id = s("id \"é\"\n"),
        _ => {}
    }
    e
}

/// The distinct classes, for lists of messages; `n` makes them distinct.
pub const CLASSES: usize = 12;
pub fn class(k: usize, n: usize) -> Ent {
    let tr = translations();
    let d: [usize; 5] = match k {
        0 => [0, 0, 0, 0, 0],
        1 => [0, 2, 0, 0, 1],
        2 => [1, 0, 0, 2, 0],
        3 => [0, 0, 1, 0, 0],
        4 => [3, 0, 1, 0, 0],
        5 => [0, tr.iter().position(|t| t.2 == ["form0", "form1"]).unwrap(), 0, 0, 0],
        6 => [2, tr.iter().position(|t| t.2 == ["form0", ""]).unwrap(), 0, 2, 2],
        7 => [0, tr.iter().position(|t| t.2 == ["", "form1"]).unwrap(), 0, 0, 0],
        8 => [0, 1, 0, 2, 0],
        9 => [2, 5, 0, 1, 2],
        10 => [7, tr.iter().position(|t| t.2 == ["form0", "form1"]).unwrap(), 0, 0, 0],
        _ => [0, 2, 1, 0, 0],
    };
    let mut e = shape(&d);
    e.id = format!("{} {n}", e.id);
    e
}

const REL: [&str; 3] = ["", "a", "a\n"];
const REL_OPT: [Option<&str>; 4] = [None, Some(""), Some("a"), Some("a\n")];

/// Radices of `related`: source, context, translations, obsolete, flags and
/// the remaining fields.
pub fn related_radices() -> Vec<usize> {
    vec![3, 4, 124, 2, 5, 9]
}

/// One message whose fields are drawn from the same three texts, so that any
/// two of them may be absent, empty, equal or differ in a final newline.
/// `None` for the context-free empty source, which is the metadata.
pub fn related(d: &[usize]) -> Option<Ent> {
    let mut e = Ent {
        id: s(REL[d[0]]),
        ctxt: REL_OPT[d[1]].map(String::from),
        obsolete: d[3] == 1,
        flags: [&[][..], &["fuzzy"], &["a"], &["a", "fuzzy"], &["a", "a"]][d[4]]
            .iter()
            .map(|f| s(f))
            .collect(),
        ..Default::default()
    };
    if e.id.is_empty() && e.ctxt.is_none() {
        return None;
    }
    if d[2] < 4 {
        e.s = REL_OPT[d[2]].map(String::from);
    } else {
        e.plural = o(REL[(d[2] - 4) % 3]);
        e.sp = crate::gen::word(((d[2] - 4) / 3) as u64, 3)
            .into_iter()
            .map(|k| s(REL[k]))
            .collect();
    }
    match d[5] {
        1 => e.comment = o("a"),
        2 => e.tcomment = o("a"),
        3 => e.occ = vec![(s("a"), s(""))],
        4 => e.occ = vec![(s("a"), s("1")), (s("a"), s("1"))],
        5 => e.pid = o("a"),
        6 => e.pctxt = o("a"),
        7 => e.pplural = o("a"),
        8 => {
            e.comment = o("a");
            e.tcomment = o("a");
            e.occ = vec![(s("a"), s("1"))];
            e.pid = o("a");
            e.pctxt = o("a");
            e.pplural = o("a");
        }
        _ => {}
    }
    Some(e)
}

/// Small messages for pairs that may share any of their fields.
pub const TWINS: usize = 3 * 3 * 4 * 2 * 2;
pub fn twin(k: usize) -> Ent {
    let d = crate::gen::digits(k as u64, &[3, 3, 4, 2, 2]);
    let mut e = Ent {
        id: s(["a", "b", "A"][d[0]]),
        ctxt: [None, Some(""), Some("a")][d[1]].map(String::from),
        obsolete: d[3] == 1,
        ..Default::default()
    };
    match d[2] {
        0 => e.s = o("a"),
        1 => e.s = o(""),
        2 => {
            e.plural = o("a");
            e.sp = vec![s("a"), s("a")];
        }
        _ => {
            e.plural = o("b");
            e.sp = vec![s("a"), s("")];
        }
    }
    if d[4] == 1 {
        e.flags = vec![s("fuzzy")];
    }
    e
}

/// Every number up to `dense`, then the neighbours of the powers of two and
/// ten up to `max`.
pub fn counts(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    for base in [2usize, 10] {
        let mut p = Some(1usize);
        while let Some(x) = p {
            v.extend([x - 1, x, x.saturating_add(1)]);
            p = x.checked_mul(base);
        }
    }
    v.push(usize::MAX);
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

pub const SCALARS: u64 = 0x110000 - 0x800;
/// The `i`-th Unicode scalar value.
pub fn scalar(i: u64) -> char {
    let i = i as u32;
    char::from_u32(if i < 0xd800 { i } else { i + 0x800 }).unwrap()
}
/// The basic plane, and the first and last 128 values of the others.
pub const SOME_SCALARS: u64 = 0x10000 - 0x800 + 16 * 256;
pub fn some_scalar(i: u64) -> char {
    let bmp = 0x10000 - 0x800;
    if i < bmp {
        return scalar(i);
    }
    let (p, k) = ((i - bmp) / 256 + 1, (i - bmp) % 256);
    let k = if k < 128 { k } else { 0xff00 + k };
    scalar(p * 0x10000 + k - 0x800)
}

/// A file with the character in every field that can hold it.
pub fn scalar_file(c: char) -> Fil {
    let t = |p: &str| Some(p.replace('_', &c.to_string()));
    let mut e = Ent {
        ctxt: t("_"),
        id: t("x_y").unwrap(),
        plural: t("_x"),
        sp: vec![t("x_").unwrap(), t(" _ ").unwrap(), t("_").unwrap()],
        pctxt: t("x_"),
        pid: t("_"),
        pplural: t("_x"),
        ..Default::default()
    };
    let mut e2 = Ent { id: t("_").unwrap(), s: t("_ _"), ..Default::default() };
    let mut f = Fil::default();
    if c != '\n' && c != '\r' {
        e.tcomment = t("_x");
        e.comment = t("x_x");
        e2.tcomment = t("x x_x");
        e2.comment = t("x _x");
        f.header = t("x_x\n_x");
        f.meta.insert(s("X-K"), t("x_x").unwrap());
    }
    if !c.is_whitespace() && c != ',' {
        e.flags = vec![t("f_").unwrap(), t("_f").unwrap()];
    }
    if !c.is_whitespace() && c != ':' {
        e.occ = vec![(t("f_").unwrap(), s("1")), (t("_f").unwrap(), s(""))];
    }
    let mut e3 = e.clone();
    e3.id = t("_z").unwrap();
    e3.occ.clear();
    (e3.pctxt, e3.pid, e3.pplural) = (None, None, None);
    e3.obsolete = true;
    f.ents = vec![e, e2, e3];
    f
}

/// A file whose first line holds the text: header, comments, flag, context or
/// source; `None` where that is not possible.
pub fn opening(k: usize, t: &str) -> Option<Fil> {
    if k < 4 && (t.trim() != t || t.is_empty()) {
        return None;
    }
    let mut f = Fil::default();
    let mut e = Ent { id: s("k"), s: o("v"), ..Default::default() };
    match k {
        0 => {
            f.header = o(t);
            f.meta.insert(s("Language"), s("es"));
        }
        1 => e.tcomment = o(t),
        2 => e.comment = o(t),
        3 => e.flags = vec![s(t)],
        4 => e.ctxt = o(t),
        _ if t.is_empty() => return None,
        _ => e.id = s(t),
    }
    f.ents.push(e);
    Some(f)
}

/// Distinct texts that a careless comparison takes for one another or puts in
/// another order: case, blanks, composition, widths, digits, invisible
/// characters, and the ends of the ranges of the Unicode encodings.
pub const SIMILAR: [&str; 62] = [
    "a", "A", "aa", "aA", "Aa", "a ", " a", "a\u{a0}", "a\n", "a\r", "a\t",
    "\u{ff41}", "\u{e1}", "a\u{301}", "\u{c1}", "\u{e4}", "\u{df}", "ss", "SS",
    "\u{17f}", "s", "K", "\u{212a}", "k", "i", "I", "\u{130}", "\u{131}",
    "\u{2126}", "\u{3a9}", "\u{3c9}", "\u{3c2}", "\u{3c3}", "_", "Z", "z", "[",
    "1", "01", "10", "9", "\u{ff11}", "a\u{200b}", "\u{feff}a", "a\u{ad}", "a.",
    "a-", "fi", "\u{fb01}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}",
    "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}",
    "\u{1d11e}", "a\u{3}z", "a\u{5}",
];
/// Texts that differ only after `n` letters, in no particular order.
pub fn late(n: usize) -> Vec<String> {
    ["b", "", "ab", "a"]
        .iter()
        .map(|t| format!("{}{t}", "x".repeat(n)))
        .filter(|t| !t.is_empty())
        .collect()
}

pub const DIMENSIONS: usize = 23;
/// A file with `n` of something; `None` where that is too large.
pub fn sized(dim: usize, n: usize) -> Option<Fil> {
    // plural indexes go up to 999
    if n > [1 << 17, 4097, 1000]
        [(dim < 9 && dim != 4 && dim != 5) as usize + (dim == 3) as usize]
     {
        return None;
    }
    let e = || Ent { id: s("k"), s: o("v"), ..Default::default() };
    let mut f = Fil { ents: vec![e()], ..Default::default() };
    let lines = || -> String {
        let v: Vec<String> = (0..n).map(|j| format!("line {j}")).collect();
        v.join("\n")
    };
    let m = &mut f.ents[0];
    match dim {
        0 => {
            f.ents = (0..n)
                .map(|j| crate::menu::archetype(j % crate::menu::ARCHETYPES, j))
                .collect()
        }
        1 => {
            f.ents = (0..n)
                .map(|j| Ent { ctxt: Some(format!("c{j}")), ..e() })
                .collect()
        }
        2 => {
            f.ents = (0..n)
                .map(|j| Ent { id: format!("k{j}"), obsolete: j > 0, ..e() })
                .collect()
        }
        3 if n > 0 => {
            m.plural = o("ks");
            m.s = None;
            m.sp = (0..n).map(|j| format!("form{j}")).collect();
        }
        3 => {}
        4 => m.flags = (0..n).map(|j| format!("flag{j}")).collect(),
        5 => {
            m.occ = (0..n).map(|j| (format!("f{j}.c"), format!("{j}"))).collect()
        }
        6 => {
            m.tcomment = Some(lines());
            m.comment = Some(lines());
        }
        7 => f.header = Some(lines()),
        8 => {
            f.meta =
                (0..n).map(|j| (format!("X-K{j}"), format!("v{j}"))).collect()
        }
        9 => {
            m.id = "x".repeat(n);
            m.ctxt = o("c");
            m.s = Some("x ".repeat(n));
        }
        10 => {
            m.id = "\"\\\n".repeat(n);
            m.ctxt = o("c");
            m.s = Some("中 ".repeat(n));
            m.pid = Some("e\u{301}".repeat(n));
        }
        11 => {
            m.ctxt = Some("é".repeat(n));
            m.pctxt = Some("line\n".repeat(n));
        }
        12 => {
            m.plural = Some("two ".repeat(n));
            m.s = None;
            m.sp = vec!["a".repeat(n), s("b"), "\t".repeat(n)];
            m.pplural = Some("b ".repeat(n));
        }
        13 => m.tcomment = Some("x".repeat(n)),
        14 => m.comment = Some("word ".repeat(n)),
        15 => m.flags = vec![format!("f{}", "x".repeat(n)), s("g")],
        16 => {
            m.occ = vec![
                (format!("f{}", "x".repeat(n)), s("1")),
                (s("g.c"), format!("1{}", "0".repeat(n))),
            ]
        }
        17 => f.header = Some("h".repeat(n)),
        18 => {
            f.meta.insert(s("X-K"), "v".repeat(n));
            f.meta.insert(format!("X-{}", "k".repeat(n)), s("w"));
        }
        // many small messages
        22 if n > 0 => {
            f.ents = (0..n)
                .map(|j| Ent { id: format!("k{j}"), s: Some(format!("v{j}")), ..e() })
                .collect()
        }
        22 => return None,
        // messages that are nearly the same
        20 | 21 => {
            let texts: Vec<String> = if dim == 20 {
                late(n)
            } else if n < SIMILAR.len() {
                let mut t = SIMILAR.map(s).to_vec();
                t.rotate_left(n);
                t
            } else {
                return None;
            };
            f.ents.clear();
            for (j, t) in texts.iter().enumerate() {
                f.ents.push(Ent { id: t.clone(), s: Some(format!("t{j}")), ..e() });
                f.ents.push(Ent { ctxt: Some(t.clone()), s: Some(format!("u{j}")), ..e() });
                f.ents.push(Ent { id: t.clone(), ctxt: o("c"), ..e() });
            }
        }
        _ => {
            m.obsolete = true;
            m.id = "x y".repeat(n);
            m.ctxt = o("c");
            m.s = Some("line\n".repeat(n));
        }
    }
    Some(f)
}
