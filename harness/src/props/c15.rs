//! C15: message comparison is a consistent order over the chosen fields.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::{o, s};
use crate::model::*;
use crate::shapes::{counts, scalar, SCALARS, SIMILAR};
use rspolib::{EntryCmpByOptions, MOEntry};
use std::cmp::Ordering;

/// Fields in their documented rank.
const RANK: [&str; 8] = [
    "obsolete",
    "occurrences",
    "flags",
    "msgctxt",
    "msgid_plural",
    "msgstr_plural",
    "msgid",
    "msgstr",
];

fn chosen(bits: usize, k: usize) -> bool {
    bits >> k & 1 == 1
}

/// The same choice of fields, built in every way the library offers.
fn options(bits: usize, way: usize) -> EntryCmpByOptions {
    match way {
        0 => EntryCmpByOptions::new()
            .by_obsolete(chosen(bits, 0))
            .by_occurrences(chosen(bits, 1))
            .by_flags(chosen(bits, 2))
            .by_msgctxt(chosen(bits, 3))
            .by_msgid_plural(chosen(bits, 4))
            .by_msgstr_plural(chosen(bits, 5))
            .by_msgid(chosen(bits, 6))
            .by_msgstr(chosen(bits, 7)),
        1 => {
            let mut v: Vec<(String, bool)> = RANK
                .iter()
                .enumerate()
                .map(|(k, n)| (s(n), chosen(bits, k)))
                .collect();
            v.push((s("unknown"), true));
            EntryCmpByOptions::from(&v)
        }
        2 => {
            let mut x = EntryCmpByOptions::default().by_all(false);
            for k in 0..8 {
                if chosen(bits, k) {
                    x = match k {
                        0 => x.by_obsolete(true),
                        1 => x.by_occurrences(true),
                        2 => x.by_flags(true),
                        3 => x.by_msgctxt(true),
                        4 => x.by_msgid_plural(true),
                        5 => x.by_msgstr_plural(true),
                        6 => x.by_msgid(true),
                        _ => x.by_msgstr(true),
                    };
                }
            }
            x
        }
        // what is not mentioned is chosen
        3 => {
            let v: Vec<(String, bool)> = (0..8)
                .filter(|k| !chosen(bits, *k))
                .map(|k| (s(RANK[k]), false))
                .collect();
            EntryCmpByOptions::from(&v)
        }
        _ => {
            let mut x = match way {
                4 => EntryCmpByOptions::new(),
                5 => EntryCmpByOptions::default(),
                _ => EntryCmpByOptions::new().by_all(false).by_all(true),
            };
            for k in 0..8 {
                if !chosen(bits, k) {
                    x = match k {
                        0 => x.by_obsolete(false),
                        1 => x.by_occurrences(false),
                        2 => x.by_flags(false),
                        3 => x.by_msgctxt(false),
                        4 => x.by_msgid_plural(false),
                        5 => x.by_msgstr_plural(false),
                        6 => x.by_msgid(false),
                        _ => x.by_msgstr(false),
                    };
                }
            }
            x
        }
    }
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// Order of two messages on one field; `None` where only the laws settle
/// it (an absent text against a present one).
fn on(a: &Ent, b: &Ent, k: usize) -> Option<Ordering> {
    fn opt(a: &Option<String>, b: &Option<String>) -> Option<Ordering> {
        match (a, b) {
            (Some(x), Some(y)) => Some(x.cmp(y)),
            (None, None) => Some(Ordering::Equal),
            _ => None,
        }
    }
    match k {
        0 => Some(b.obsolete.cmp(&a.obsolete)),
        1 => Some(sorted(&a.occ).cmp(&sorted(&b.occ))),
        2 => Some(sorted(&a.flags).cmp(&sorted(&b.flags))),
        3 => opt(&a.ctxt, &b.ctxt),
        4 => opt(&a.plural, &b.plural),
        5 => Some(sorted(&a.sp).cmp(&sorted(&b.sp))),
        6 => Some(a.id.cmp(&b.id)),
        _ => opt(&a.s, &b.s),
    }
}

/// `Err(())` when the first differing field is only bound by the laws.
fn expected(a: &Ent, b: &Ent, bits: usize) -> Result<Ordering, ()> {
    for k in 0..8 {
        if chosen(bits, k) {
            match on(a, b, k) {
                Some(Ordering::Equal) => {}
                Some(x) => return Ok(x),
                None => return Err(()),
            }
        }
    }
    Ok(Ordering::Equal)
}

fn lowhigh(i: usize) -> Ent {
    let hi = |k: usize| i >> k & 1 == 1;
    let t = |k: usize| s(if hi(k) { "b" } else { "a" });
    Ent {
        // obsolete sorts first
        obsolete: !hi(0),
        occ: vec![(t(1), s("1"))],
        flags: vec![t(2)],
        ctxt: Some(t(3)),
        plural: Some(t(4)),
        sp: vec![t(5)],
        id: t(6),
        s: Some(t(7)),
        ..Default::default()
    }
}

/// Single and double deviations with absent, empty and permuted values.
fn varied() -> Vec<Ent> {
    let base = Ent {
        id: s("m"),
        ctxt: o("m"),
        plural: o("m"),
        s: o("m"),
        sp: vec![s("m")],
        flags: vec![s("m")],
        occ: vec![(s("m"), s("1"))],
        ..Default::default()
    };
    let p = |a: &str, b: &str| (s(a), s(b));
    let mut v = vec![base.clone()];
    let mut add = |f: &dyn Fn(&mut Ent)| {
        let mut e = base.clone();
        f(&mut e);
        v.push(e);
    };
    for t in ["", "a", "ma", "z", "M", "é", "10", "9", " "] {
        add(&|e| e.id = s(t));
        add(&|e| e.ctxt = o(t));
        add(&|e| e.s = o(t));
        add(&|e| e.plural = o(t));
    }
    add(&|e| e.ctxt = None);
    add(&|e| e.s = None);
    add(&|e| e.plural = None);
    add(&|e| e.obsolete = true);
    for l in [
        vec![],
        vec![s("a")],
        vec![s("a"), s("b")],
        vec![s("b"), s("a")],
        vec![s("m"), s("m")],
        vec![s("z"), s("a")],
        vec![s("")],
        vec![s("c"), s("b"), s("a")],
        vec![s("a"), s("c"), s("b")],
    ] {
        add(&|e| e.flags = l.clone());
        add(&|e| e.sp = l.clone());
    }
    for l in [
        vec![],
        vec![p("a", "1")],
        vec![p("a", "2")],
        vec![p("a", "10")],
        vec![p("a", "")],
        vec![p("a", "1"), p("b", "1")],
        vec![p("b", "1"), p("a", "1")],
        vec![p("b", "1"), p("a", "1"), p("a", "1")],
    ] {
        add(&|e| e.occ = l.clone());
    }
    // fields that comparison knows nothing about
    add(&|e| {
        e.comment = o("x");
        e.tcomment = o("y");
        e.pid = o("z");
        e.line = 9;
    });
    // contradictions between a field and a lower-ranked one
    add(&|e| {
        e.ctxt = o("z");
        e.id = s("a");
    });
    add(&|e| {
        e.plural = None;
        e.s = o("z");
    });
    add(&|e| {
        e.s = None;
        e.ctxt = None;
    });
    add(&|e| {
        e.obsolete = true;
        e.flags = vec![];
        e.id = s("z");
    });
    v
}

fn against(
    a: &Ent,
    b: &Ent,
    bits: usize,
    got: Ordering,
    what: &str,
) -> Res {
    match expected(a, b, bits) {
        Ok(w) => ensure!(
            got == w,
            "{what} by {:?}: {a:?} against {b:?} is {got:?} instead of {w:?}",
            names(bits)
        ),
        Err(()) => ensure!(
            got != Ordering::Equal,
            "{what} by {:?}: {a:?} and {b:?} compare equal",
            names(bits)
        ),
    }
    Ok(())
}

fn names(bits: usize) -> Vec<&'static str> {
    (0..8).filter(|k| chosen(bits, *k)).map(|k| RANK[k]).collect()
}

/// All laws on the matrix of comparisons of a list of messages.
fn laws(
    ents: &[Ent],
    bits: usize,
    m: &[Vec<Ordering>],
    what: &str,
) -> Res {
    let n = ents.len();
    for i in 0..n {
        ensure!(
            m[i][i] == Ordering::Equal,
            "{what} by {:?}: {:?} differs from itself",
            names(bits),
            ents[i]
        );
        for j in 0..n {
            ensure!(
                m[i][j] == m[j][i].reverse(),
                "{what} by {:?}: swapping {:?} and {:?} gives {:?} and {:?}",
                names(bits),
                ents[i],
                ents[j],
                m[i][j],
                m[j][i]
            );
        }
    }
    for i in 0..n {
        for j in 0..n {
            if m[i][j] == Ordering::Greater {
                continue;
            }
            for k in 0..n {
                if m[j][k] != Ordering::Greater {
                    let strict = m[i][j] == Ordering::Less
                        || m[j][k] == Ordering::Less;
                    let ok = if strict {
                        m[i][k] == Ordering::Less
                    } else {
                        m[i][k] == Ordering::Equal
                    };
                    ensure!(
                        ok,
                        "{what} by {:?} is not transitive on {:?}, {:?}, {:?}",
                        names(bits),
                        ents[i],
                        ents[j],
                        ents[k]
                    );
                }
            }
        }
    }
    Ok(())
}

/// MO messages know no obsolete mark, references or flags.
const MO_BITS: usize = 0b1111_1000;

/// Two texts, possibly absent, in every field.
fn texts(x: &Option<String>, y: &Option<String>, rec: &mut Rec) -> Res {
    rec.case(format!("{x:?} {y:?}").as_bytes());
    rec.state(format!("{x:?} {y:?}").as_bytes());
    for k in 1..8 {
        let mk = |t: &Option<String>| {
            let mut e = Ent { id: s("i"), ..Default::default() };
            let list: Vec<String> = t.iter().cloned().collect();
            match k {
                1 => e.occ = list.into_iter().map(|x| (x, s(""))).collect(),
                2 => e.flags = list,
                3 => e.ctxt = t.clone(),
                4 => e.plural = t.clone(),
                5 => e.sp = list,
                6 => e.id = t.clone().unwrap_or_default(),
                _ => e.s = t.clone(),
            }
            e
        };
        let (a, b) = (mk(x), mk(y));
        rec.trace(4);
        for bits in [255, 1 << k] {
            let op = options(bits, k % 7);
            let got = a.po().cmp_by(&b.po(), &op);
            against(&a, &b, bits, got, "PO")?;
            ensure!(
                got == b.po().cmp_by(&a.po(), &op).reverse(),
                "swapping {a:?} and {b:?}"
            );
            let (c, e) = (
                MOEntry::from(&a.po()),
                MOEntry::from(&b.po()),
            );
            against(&a, &b, bits & MO_BITS, c.cmp_by(&e, &op), "MO")?;
        }
        // not chosen: no influence
        let op = options(255 & !(1 << k), k % 7);
        ensure!(
            a.po().cmp_by(&b.po(), &op) == Ordering::Equal,
            "{} influences a comparison without it",
            RANK[k]
        );
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    v.push(space(
        "ranks",
        "all pairs of the 256 messages with a low or high value in each of 8 fields, for all 256 choices of fields, PO and MO",
        256 * 256,
        move |i, rec| {
            let d = digits(i, &[256, 256]);
            let (bits, x) = (d[0], d[1]);
            let a = lowhigh(x);
            let pa = a.po();
            let ma = MOEntry::from(&pa);
            let op = options(bits, i as usize % 7);
            rec.case(format!("by {:?}: {a:?}", names(bits)).as_bytes());
            rec.state(format!("{bits} {x}").as_bytes());
            for y in 0..256 {
                let b = lowhigh(y);
                let pb = b.po();
                rec.trace(2);
                against(&a, &b, bits, pa.cmp_by(&pb, &op), "PO")?;
                let mb = MOEntry::from(&pb);
                against(&a, &b, bits & MO_BITS, ma.cmp_by(&mb, &op), "MO")?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "laws",
        "all pairs and triples of messages with absent, empty, permuted and conflicting values, for all 256 choices of fields built in 7 ways, PO and MO",
        256 * 7,
        move |i, rec| {
            let (bits, way) = ((i / 7) as usize, (i % 7) as usize);
            let ents = varied();
            let op = options(bits, way);
            rec.case(format!("by {:?} ({way})", names(bits)).as_bytes());
            let po: Vec<_> = ents.iter().map(|e| e.po()).collect();
            let mo: Vec<_> = po.iter().map(MOEntry::from).collect();
            let n = ents.len();
            rec.trace((2 * n * n) as u64);
            let m: Vec<Vec<Ordering>> = po
                .iter()
                .map(|a| po.iter().map(|b| a.cmp_by(b, &op)).collect())
                .collect();
            let mm: Vec<Vec<Ordering>> = mo
                .iter()
                .map(|a| mo.iter().map(|b| a.cmp_by(b, &op)).collect())
                .collect();
            for x in 0..n {
                rec.state(format!("laws {bits} {x}").as_bytes());
                for y in 0..n {
                    against(&ents[x], &ents[y], bits, m[x][y], "PO")?;
                    against(
                        &ents[x],
                        &ents[y],
                        bits & MO_BITS,
                        mm[x][y],
                        "MO",
                    )?;
                }
            }
            laws(&ents, bits, &m, "PO")?;
            laws(&ents, bits & MO_BITS, &mm, "MO")
        },
    ));
    // text fields: every pair of short strings, absent included
    const L: [&str; 7] = ["a", "b", "B", " ", "é", "1", "\u{1}"];
    let n = if quick { 2 } else { 3 };
    let w = words_upto(7, n) as usize + 1;
    v.push(space(
        "texts",
        &format!("every pair of absent, empty and short texts (length <= {n} over 7 letters) in every text field and list"),
        (w * w) as u64,
        move |i, rec| {
            let d = digits(i, &[w, w]);
            let t = |k: usize| {
                k.checked_sub(1).map(|k| word_string(k as u64, &L))
            };
            let (x, y) = (t(d[0]), t(d[1]));
            texts(&x, &y, rec)
        },
    ));
    v.push(space(
        "similar",
        "every ordered pair of 62 similar texts in every text field and list",
        (SIMILAR.len() * SIMILAR.len()) as u64,
        move |i, rec| {
            let d = digits(i, &[SIMILAR.len(), SIMILAR.len()]);
            texts(&Some(s(SIMILAR[d[0]])), &Some(s(SIMILAR[d[1]])), rec)
        },
    ));
    v.push(space(
        "lists",
        "lists of references, flags and plural translations made of every pair of 62 similar texts, in both orders, against each other and against lists of one of them",
        (SIMILAR.len() * SIMILAR.len() * 4) as u64,
        move |i, rec| {
            let d = digits(i, &[SIMILAR.len(), SIMILAR.len(), 4]);
            let (x, y) = (SIMILAR[d[0]], SIMILAR[d[1]]);
            let mk = |l: &[&str]| {
                let mut e = Ent { id: s("i"), ..Default::default() };
                let l = l.iter().map(|t| s(t));
                match d[2] {
                    0 => e.occ = l.map(|t| (t, s("1"))).collect(),
                    1 => e.occ = l.map(|t| (s("f"), t)).collect(),
                    2 => e.flags = l.collect(),
                    _ => e.sp = l.collect(),
                }
                e
            };
            let k = [1, 1, 2, 5][d[2]];
            rec.state(format!("{d:?}").as_bytes());
            let l = [mk(&[x, y]), mk(&[y, x]), mk(&[x, x]), mk(&[y, y]), mk(&[x]), mk(&[x, y, x])];
            for bits in [255, 1 << k] {
                let op = options(bits, i as usize % 7);
                for a in &l {
                    for b in &l {
                        rec.trace(2);
                        let (pa, pb) = (a.po(), b.po());
                        against(a, b, bits, pa.cmp_by(&pb, &op), "PO")?;
                        let got = MOEntry::from(&pa).cmp_by(&MOEntry::from(&pb), &op);
                        against(a, b, bits & MO_BITS, got, "MO")?;
                    }
                }
            }
            Ok(())
        },
    ));
    const LL: [&str; 3] = ["ab", "abc", "b"];
    let nl = words_upto(3, 4) as usize;
    v.push(space(
        "long-lists",
        "every pair of lists of up to 4 of 3 texts as references by file and by line, as flags and as plural translations",
        (nl * nl * 4) as u64,
        move |i, rec| {
            let d = digits(i, &[nl, nl, 4]);
            let mk = |k: usize| {
                let mut e = Ent { id: s("i"), ..Default::default() };
                let l = word(k as u64, 3).into_iter().map(|t| s(LL[t]));
                match d[2] {
                    0 => e.occ = l.map(|t| (t, s("1"))).collect(),
                    1 => e.occ = l.map(|t| (s("f"), t)).collect(),
                    2 => e.flags = l.collect(),
                    _ => e.sp = l.collect(),
                }
                e
            };
            let (a, b) = (mk(d[0]), mk(d[1]));
            rec.state(format!("{d:?}").as_bytes());
            let k = [1, 1, 2, 5][d[2]];
            for bits in [255, 1 << k] {
                let op = options(bits, i as usize % 7);
                rec.trace(2);
                let (pa, pb) = (a.po(), b.po());
                against(&a, &b, bits, pa.cmp_by(&pb, &op), "PO")?;
                let got = MOEntry::from(&pa).cmp_by(&MOEntry::from(&pb), &op);
                against(&a, &b, bits & MO_BITS, got, "MO")?;
            }
            Ok(())
        },
    ));
    // sorting
    let pool: Vec<Ent> = {
        let v = varied();
        (0..v.len()).step_by(if quick { 6 } else { 4 }).map(|k| v[k].clone()).collect()
    };
    let sel = selections(pool.len(), 3);
    let count = sel.len();
    v.push(space(
        "sorting",
        &format!("sorting every ordered list of up to 3 of {} messages by every choice of fields", pool.len()),
        (count * 256) as u64,
        move |i, rec| {
            let d = digits(i, &[count, 256]);
            let bits = d[1];
            let op = options(bits, d[0] % 7);
            let ents: Vec<&Ent> = sel[d[0]].iter().map(|k| &pool[*k]).collect();
            let mut po: Vec<_> = ents.iter().map(|e| e.po()).collect();
            rec.trace(1);
            po.sort_by(|a, b| a.cmp_by(b, &op));
            for x in po.windows(2) {
                let (a, b) = (Ent::of(&x[0]), Ent::of(&x[1]));
                ensure!(
                    expected(&a, &b, bits) != Ok(Ordering::Greater),
                    "sorting by {:?} puts {a:?} before {b:?}",
                    names(bits)
                );
            }
            Ok(())
        },
    ));
    // every character against its neighbour, its case variants, its low byte
    v.push(space(
        "scalars",
        "every Unicode scalar value against its successor, its case variants and its low byte, in every text field and list",
        SCALARS,
        move |i, rec| {
            let c = scalar(i);
            let k = 1 + (i % 7) as usize;
            let mk = |t: String| {
                let mut e = Ent { id: s("i"), ..Default::default() };
                match k {
                    1 => e.occ = vec![(t, s("1"))],
                    2 => e.flags = vec![s("f"), t],
                    3 => e.ctxt = Some(t),
                    4 => e.plural = Some(t),
                    5 => e.sp = vec![t, s("x")],
                    6 => e.id = t,
                    _ => e.s = Some(t),
                }
                e
            };
            rec.state(&i.to_le_bytes());
            let a = mk(c.to_string());
            let (pa, op) = (a.po(), options(1 << k, k % 7));
            let ma = MOEntry::from(&pa);
            for o in [
                scalar((i + 1) % SCALARS).to_string(),
                c.to_lowercase().to_string(),
                c.to_uppercase().to_string(),
                (c as u32 as u8 as char).to_string(),
                format!("{c} "),
                c.to_string(),
            ] {
                if c == '\0' || o == "\0" {
                    continue;
                }
                let b = mk(o);
                let pb = b.po();
                rec.trace(2);
                against(&a, &b, 1 << k, pa.cmp_by(&pb, &op), "PO")?;
                let got = ma.cmp_by(&MOEntry::from(&pb), &op);
                against(&a, &b, 1 << k & MO_BITS, got, "MO")?;
            }
            Ok(())
        },
    ));
    let sizes = counts(if quick { 300 } else { 1500 }, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "prefixes",
        "texts and lists with a common prefix of each length up to 300 and at the neighbours of the powers of two and ten up to 2^17, that then differ or end",
        (n * 7) as u64,
        move |i, rec| {
            let d = digits(i, &[7, n]);
            let (k, len) = (1 + d[0], sizes[d[1]]);
            let many = matches!(k, 1 | 2 | 5);
            let mk = |tail: &str| {
                let mut e = Ent { id: s("i"), ..Default::default() };
                let t = format!("{}{tail}", "x".repeat(len));
                let list = |t: &str| -> Vec<String> {
                    let mut v = vec![s("x"); len.min(5000)];
                    if !t.is_empty() {
                        v.push(s(t));
                    }
                    v
                };
                match k {
                    1 => e.occ = list(tail).into_iter().map(|x| (x, s("1"))).collect(),
                    2 => e.flags = list(tail),
                    3 => e.ctxt = Some(t),
                    4 => e.plural = Some(t),
                    5 => e.sp = list(tail),
                    6 => e.id = t,
                    _ => e.s = Some(t),
                }
                e
            };
            rec.state(format!("{d:?}").as_bytes());
            let ents = ["", "a", "b", "ab"].map(mk);
            let op = options(1 << k, k % 7);
            for a in &ents {
                for b in &ents {
                    rec.trace(2);
                    let (pa, pb) = (a.po(), b.po());
                    against(a, b, 1 << k, pa.cmp_by(&pb, &op), "PO")?;
                    let got = MOEntry::from(&pa).cmp_by(&MOEntry::from(&pb), &op);
                    against(a, b, 1 << k & MO_BITS, got, "MO")?;
                    // texts are ordered letter by letter whatever comes before
                    if !many && a != b {
                        ensure!(
                            pa.cmp_by(&pb, &op) != Ordering::Equal,
                            "{} texts differing after {len} letters are equal",
                            RANK[k]
                        );
                    }
                }
            }
            Ok(())
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "model_checking",
        rule: "the full comparison matrix of the real code over an enumerated pool of messages and all 256 choices of fields is compared with a reference rank and with the laws of a total preorder on all triples; states are (choice, message) pairs",
        assumptions: &[
            "whether an absent text sorts before or after a present one is left to the library as long as the laws hold; texts hold no NUL, which the library uses for absent ones",
        ],
        spaces,
    }
}
