//! C16: metadata is written completely, in one fixed order.

use super::c08::Meta;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::s;
use crate::mo;
use crate::model::*;
use crate::shapes::{counts, scalar, some_scalar, SCALARS, SOME_SCALARS};
use rspolib::{
    mo_metadata_entry_to_string, mofile, po_metadata_entry_to_string, pofile,
    AsBytes, FileOptions, MOFile, POFile,
};
use std::cmp::Ordering;

const STD: [&str; 11] = [
    "Project-Id-Version",
    "Report-Msgid-Bugs-To",
    "POT-Creation-Date",
    "PO-Revision-Date",
    "Last-Translator",
    "Language-Team",
    "Language",
    "MIME-Version",
    "Content-Type",
    "Content-Transfer-Encoding",
    "Plural-Forms",
];
const OTHER: [&str; 12] = [
    "X-Generator", "X-2", "X-10", "X-1", "x-2", "A", "Z", "X-2a", "é",
    "X-Poedit-Basepath", "Languages", "language",
];

/// Natural order: runs of digits compare as numbers.
fn natural(a: &str, b: &str) -> Ordering {
    fn parts(x: &str) -> Vec<Result<u128, char>> {
        let mut v: Vec<Result<u128, char>> = vec![];
        let mut num: Option<u128> = None;
        for c in x.chars() {
            match c.to_digit(10) {
                Some(d) => num = Some(num.unwrap_or(0) * 10 + d as u128),
                None => {
                    v.extend(num.take().map(Ok));
                    v.push(Err(c));
                }
            }
        }
        v.extend(num.map(Ok));
        v
    }
    let (a, b) = (parts(a), parts(b));
    for (x, y) in a.iter().zip(&b) {
        let o = match (x, y) {
            (Ok(x), Ok(y)) => x.cmp(y),
            (Err(x), Err(y)) => x.cmp(y),
            // a number against a character: by its first digit
            (Ok(x), Err(y)) => first(*x).cmp(y),
            (Err(x), Ok(y)) => x.cmp(&first(*y)),
        };
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len())
}

fn first(n: u128) -> char {
    n.to_string().chars().next().unwrap()
}

fn ordered(items: &[(String, String)]) -> Vec<(String, String)> {
    let mut v = items.to_vec();
    v.sort_by(|a, b| {
        let (x, y) = (
            STD.iter().position(|k| *k == a.0),
            STD.iter().position(|k| *k == b.0),
        );
        match (x, y) {
            (Some(x), Some(y)) => x.cmp(&y),
            (Some(_), None) => Ordering::Less,
            (None, Some(_)) => Ordering::Greater,
            (None, None) => natural(&a.0, &b.0).then(a.0.cmp(&b.0)),
        }
    });
    v
}

/// The lines of the metadata in rendered text.
fn lines_of(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut inside = false;
    for l in text.lines() {
        if l == "msgstr \"\"" {
            inside = true;
        } else if inside {
            match l.strip_prefix('"').and_then(|x| x.strip_suffix('"')) {
                Some(x) => out.push(
                    ref_unescape(x).unwrap_or_else(|| format!("?{x}")),
                ),
                None => break,
            }
        }
    }
    out
}

fn judge(items: &[(String, String)], rec: &mut Rec) -> Res {
    rec.case(format!("{items:?}").as_bytes());
    rec.trace(9);
    let want = ordered(items);
    let meta: Meta = items.iter().cloned().collect();
    let mut f = POFile::new(FileOptions::default());
    let mut m = MOFile::new(FileOptions::default());
    for (k, v) in items {
        f.metadata.insert(k.clone(), v.clone());
        m.metadata.insert(k.clone(), v.clone());
    }
    let lines: Vec<String> =
        want.iter().map(|(k, v)| format!("{k}: {v}\n")).collect();
    let e = f.metadata_as_entry();
    for (how, text, fuzzy) in [
        ("PO", f.to_string(), false),
        ("MO as PO", m.to_string(), false),
        ("entry", po_metadata_entry_to_string(&e, false), false),
        ("fuzzy entry", po_metadata_entry_to_string(&e, true), true),
        (
            "MO entry",
            mo_metadata_entry_to_string(&m.metadata_as_entry()),
            false,
        ),
    ] {
        rec.state(text.as_bytes());
        let got = lines_of(&text);
        ensure!(
            got == lines,
            "{how} text has metadata {got:?} instead of {lines:?}"
        );
        match pofile(text.as_str()) {
            Ok(p) => ensure!(
                meta_of(&p.metadata) == trim(&meta)
                    && p.metadata_is_fuzzy == fuzzy
                    && p.entries.is_empty(),
                "{how} text reads back as {:?}",
                p.metadata
            ),
            Err(e) => return bad(format!("{how} text rejected: {e}")),
        }
    }
    let joined = want
        .iter()
        .map(|(k, v)| format!("{k}: {v}"))
        .collect::<Vec<_>>()
        .join("\n");
    for (how, b, be) in [
        ("PO bytes", f.as_bytes().into_owned(), false),
        ("MO bytes", m.as_bytes().into_owned(), false),
        ("PO big endian bytes", f.as_bytes_be().into_owned(), true),
    ] {
        let r = match mo::conforms(&b, be, 0) {
            Ok(r) => r,
            Err(e) => return bad(format!("{how}: {e}")),
        };
        let got = mo::lookup(&b, &r, b"").map(|x| {
            String::from_utf8_lossy(x).trim_end_matches('\n').to_string()
        });
        ensure!(
            got.as_deref() == Some(joined.trim_end_matches('\n')),
            "{how} hold metadata {got:?} instead of {joined:?}"
        );
        match mofile(b) {
            Ok(p) => ensure!(
                meta_of(&p.metadata) == trim(&meta),
                "{how} read back as {:?}",
                p.metadata
            ),
            Err(e) => return bad(format!("{how} rejected: {e}")),
        }
    }
    for (how, e) in [
        ("PO", f.metadata_as_entry().msgstr),
        ("MO", m.metadata_as_entry().msgstr),
    ] {
        ensure!(
            e.clone().unwrap_or_default() == joined,
            "{how} metadata entry {e:?} instead of {joined:?}"
        );
    }
    Ok(())
}

fn trim(m: &Meta) -> Meta {
    m.iter().map(|(k, v)| (k.clone(), s(v.trim()))).collect()
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let keys: Vec<&str> =
        STD.iter().chain(OTHER.iter()).copied().collect();
    let n = if quick { 4 } else { 5 };
    let sel = selections(keys.len(), n);
    let size = sel.len() as u64;
    let k1 = keys.clone();
    v.push(space(
        "orders",
        &format!("up to {n} of 23 keys inserted in every order"),
        size,
        move |i, rec| {
            let items: Vec<_> = sel[i as usize]
                .iter()
                .map(|k| (s(k1[*k]), format!("v{k}")))
                .collect();
            judge(&items, rec)
        },
    ));
    let k1 = keys.clone();
    let n = if quick { 6 } else { 7 };
    let sub = subsets(keys.len(), n);
    let size = sub.len() as u64;
    v.push(space(
        "subsets",
        &format!("every subset of up to {n} of 23 keys, and its complement"),
        size,
        move |i, rec| {
            let c = &sub[i as usize];
            let items: Vec<_> = c
                .iter()
                .rev()
                .map(|k| (s(k1[*k]), format!("v{k}")))
                .collect();
            judge(&items, rec)?;
            if c.len() <= 3 {
                let rest: Vec<_> = (0..k1.len())
                    .filter(|k| !c.contains(k))
                    .map(|k| (s(k1[k]), format!("w{k}")))
                    .collect();
                judge(&rest, rec)?;
            }
            Ok(())
        },
    ));
    // values
    const V: [&str; 9] = ["a", ":", " ", "\"", "\\", "é", "中", "\t", "n"];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "values",
        &format!("every value of up to {n} of 9 letters under a standard and another key, beside other items"),
        words_upto(V.len(), n),
        move |i, rec| {
            let x = word_string(i, &V);
            judge(
                &[
                    (s("X-2"), x.clone()),
                    (s("Language"), x.clone()),
                    (s("X-10"), s("z")),
                ],
                rec,
            )
        },
    ));
    v.push(space(
        "lengths",
        "values of 0..=400 letters, words, wide and escaped characters",
        401 * 4,
        move |i, rec| {
            let d = digits(i, &[401, 4]);
            let x = ["x", "word ", "中", "\\\""][d[1]].repeat(d[0]);
            judge(&[(s("X-A"), s(x.trim())), (s("Language"), s("es"))], rec)
        },
    ));
    let max = if quick { 40 } else { 120 };
    v.push(space(
        "numbered",
        &format!("0..={max} numbered keys inserted in 3 orders"),
        (max + 1) * 3,
        move |i, rec| {
            let n = (i / 3) as usize;
            let mut items: Vec<_> =
                (0..n).map(|k| (format!("X-{k}"), format!("{k}"))).collect();
            match i % 3 {
                0 => items.reverse(),
                1 => items.rotate_left(n / 2),
                _ => {}
            }
            judge(&items, rec)
        },
    ));
    // reading: repeated items, missing blanks, order of the lines
    const R: [(&str, &str, &str); 12] = [
        ("Language: es\\n", "Language", "es"),
        ("Language:fr\\n", "Language", "fr"),
        ("X-A:  spaced  \\n", "X-A", "spaced"),
        ("X-A: b:c\\n", "X-A", "b:c"),
        ("X-B:\\n", "X-B", ""),
        ("Plural-Forms: nplurals=2;\\n", "Plural-Forms", "nplurals=2;"),
        ("X-A:\\tt\\n", "X-A", "t"),
        ("X-é: 中\\n", "X-é", "中"),
        ("X-B:  v w \\n", "X-B", "v w"),
        ("X-A: spaced\\n", "X-A", "spaced"),
        ("X-A: : \\n", "X-A", ":"),
        ("X-C:a: b\\n", "X-C", "a: b"),
    ];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "reading",
        &format!("every sequence of up to {n} of 12 metadata lines, repeated ones included, each on its own line and all in one string"),
        words_upto(R.len(), n) * 2,
        move |i, rec| {
            let w = word(i / 2, R.len());
            let mut text = s("msgid \"\"\nmsgstr \"\"\n");
            if i % 2 == 0 {
                for k in &w {
                    text.push_str(&format!("\"{}\"\n", R[*k].0));
                }
            } else {
                let all: String = w.iter().map(|k| R[*k].0).collect();
                text.push_str(&format!("\"{all}\"\n"));
            }
            rec.case(text.as_bytes());
            rec.trace(1);
            let mut want = Meta::new();
            for k in &w {
                want.entry(s(R[*k].1)).or_default().push_str(R[*k].2);
            }
            match pofile(text.as_str()) {
                Ok(f) => {
                    rec.state(text.as_bytes());
                    ensure!(
                        meta_of(&f.metadata) == want,
                        "metadata {:?} instead of {want:?}",
                        f.metadata
                    );
                    let lines: Vec<String> = ordered(
                        &want.into_iter().collect::<Vec<_>>(),
                    )
                    .iter()
                    .map(|(k, v)| format!("{k}: {v}\n"))
                    .collect();
                    let got = lines_of(&f.to_string());
                    ensure!(
                        got == lines,
                        "saved as {got:?} instead of {lines:?}"
                    );
                    Ok(())
                }
                Err(e) => bad(format!("rejected: {e}")),
            }
        },
    ));
    // every character in keys and values
    let n = if quick { SOME_SCALARS } else { SCALARS };
    v.push(space(
        "scalars",
        &format!("{n} Unicode scalar values inside a value and inside a key, beside others"),
        n,
        move |i, rec| {
            let c = if quick { some_scalar(i) } else { scalar(i) };
            if c == '\n' {
                return Ok(());
            }
            let mut items = vec![
                (s("X-2"), format!("x{c}y")),
                (s("Language"), format!("x{c}{c}y")),
                (s("X-1"), s("z")),
            ];
            if c != ':' && !c.is_whitespace() {
                items.push((format!("X{c}Y"), s("v")));
            }
            judge(&items, rec)
        },
    ));
    let sizes = counts(if quick { 20 } else { 100 }, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "sizes",
        "values, keys and numbers of items at the neighbours of the powers of two and ten, up to 2^17 letters and 4097 items",
        (n * 3) as u64,
        move |i, rec| {
            let d = digits(i, &[3, n]);
            let n = sizes[d[1]];
            let items: Vec<_> = match d[0] {
                0 => vec![(s("X-A"), "v".repeat(n)), (s("Language"), s("es"))],
                1 => vec![
                    (format!("X{}", "k".repeat(n)), s("v")),
                    (format!("X{}l", "k".repeat(n)), s("w")),
                    (s("MIME-Version"), s("1.0")),
                ],
                _ if n <= 4097 => {
                    (0..n).rev().map(|k| (format!("K{k}"), format!("v{k}"))).collect()
                }
                _ => return Ok(()),
            };
            judge(&items, rec)
        },
    ));
    // large numbers in keys
    let far = counts(0, usize::MAX);
    let n = far.len();
    v.push(space(
        "far-numbers",
        &format!("every pair of {n} numbers around the powers of two and ten up to 2^64 at the end of, inside and alone in keys"),
        (n * n) as u64,
        move |i, rec| {
            let d = digits(i, &[n, n]);
            let (a, b) = (far[d[0]], far[d[1]]);
            if a == b {
                return Ok(());
            }
            for w in ["X-_", "_", "X-_-y"] {
                let k = |n: usize| w.replace('_', &n.to_string());
                judge(&[(k(a), s("a")), (k(b), s("b"))], rec)?;
            }
            Ok(())
        },
    ));
    // leading zeros and inner blanks: the order is left open but fixed
    const ZERO: [&str; 13] = [
        "X-1", "X-01", "X-001", "X-1-01", "X-01-1", "X-1-1", "1", "01",
        "X-2", "X-02-a1", "X bc", "Xb c", "Xbc",
    ];
    let sel = selections(ZERO.len(), if quick { 3 } else { 4 });
    v.push(space(
        "level",
        "every ordered selection of up to 3 (thorough 4) of 13 keys with leading zeros and inner blanks, in 16 maps each: complete, the same text and bytes",
        sel.len() as u64,
        move |i, rec| {
            let keys: Vec<&str> =
                sel[i as usize].iter().map(|k| ZERO[*k]).collect();
            rec.case(format!("{keys:?}").as_bytes());
            let mut first: Option<(String, String, Vec<u8>)> = None;
            for k in 0..16 {
                let mut f = POFile::new(FileOptions::default());
                let mut m = MOFile::new(FileOptions::default());
                for j in 0..keys.len() {
                    let key = keys[(j + k) % keys.len()];
                    f.metadata.insert(s(key), s(key));
                    m.metadata.insert(s(key), s(key));
                }
                rec.trace(3);
                let got =
                    (f.to_string(), m.to_string(), m.as_bytes().into_owned());
                let l = lines_of(&got.0);
                let names: Vec<&str> = l
                    .iter()
                    .filter_map(|x| x.split_once(": ").map(|x| x.0))
                    .collect();
                ensure!(
                    names.len() == keys.len()
                        && keys.iter().all(|k| names.contains(k)),
                    "metadata {keys:?} written as {l:?}"
                );
                match &first {
                    None => {
                        rec.state(got.0.as_bytes());
                        first = Some(got)
                    }
                    Some(x) => ensure!(
                        *x == got,
                        "metadata {keys:?} written in different ways:\n{x:?}\n{got:?}"
                    ),
                }
            }
            Ok(())
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "model_checking",
        rule: "every enumerated set of items is inserted in the enumerated order, rendered and compiled by the real code and compared with a reference order, then read back; states are distinct texts. The iteration order of the hash map inside differs from map to map and must not show",
        assumptions: &[
            "keys hold no colon, no blanks and no numbers with leading zeros; values hold no newline",
            "natural order means that runs of digits compare as numbers",
        ],
        spaces,
    }
}
