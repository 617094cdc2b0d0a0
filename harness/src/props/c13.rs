//! C13: finding and removing messages touches exactly the matching ones.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::{o, s};
use crate::model::*;
use crate::shapes::{
    counts, late, related, related_radices, scalar, SCALARS, SIMILAR,
};
use rspolib::{FileOptions, MOEntry, MOFile, POEntry, POFile};

pub fn messages() -> Vec<Ent> {
    let e = |id: &str, c: Option<&str>| Ent {
        id: s(id),
        ctxt: c.map(String::from),
        s: o("tr"),
        ..Default::default()
    };
    let mut v = vec![
        e("a", None),
        e("a", Some("c")),
        e("a", Some("")),
        e("b", None),
        e("a", None),
        e("", Some("c")),
        e("b", Some("a")),
        e("B", Some("C")),
    ];
    v[3].plural = o("a");
    v[3].s = None;
    v[3].sp = vec![s("tr"), s("a")];
    v[3].pid = o("a");
    // same identity as the first, obsolete, other translation
    v[4].obsolete = true;
    v[4].s = o("a");
    v[5].s = None;
    v[5].pctxt = o("a");
    v[6].obsolete = true;
    v[6].pplural = o("a");
    v[6].pid = o("");
    v[7].pctxt = o("c");
    v[7].s = o("");
    v
}

pub const VALUES: [&str; 7] = ["a", "b", "c", "", "tr", "B", "A"];
pub const FIELDS: [&str; 9] = [
    "msgid",
    "msgstr",
    "msgctxt",
    "msgid_plural",
    "previous_msgid",
    "previous_msgid_plural",
    "previous_msgctxt",
    "nothing",
    "Msgid",
];
pub const CTX: [Option<&str>; 5] =
    [None, Some("c"), Some(""), Some("a"), Some("C")];

fn field<'a>(e: &'a Ent, by: &str) -> Option<&'a str> {
    let d = |x: &'a Option<String>| Some(x.as_deref().unwrap_or(""));
    match by {
        "msgid" => Some(&e.id),
        "msgstr" => d(&e.s),
        "msgctxt" => d(&e.ctxt),
        "msgid_plural" => d(&e.plural),
        "previous_msgid" => d(&e.pid),
        "previous_msgid_plural" => d(&e.pplural),
        "previous_msgctxt" => d(&e.pctxt),
        _ => None,
    }
}

fn in_ctx(e: &Ent, c: &str) -> bool {
    e.ctxt.as_deref().unwrap_or("") == c
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(usize),
    Remove(usize),
    ById(&'static str),
    ByIdCtx(&'static str, &'static str),
}

fn ops(n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = (0..n).map(Op::Add).collect();
    v.extend((0..n).map(Op::Remove));
    v.extend(VALUES.iter().map(|x| Op::ById(x)));
    for x in ["a", "b", "", "B"] {
        for c in ["c", "", "a", "C"] {
            v.push(Op::ByIdCtx(x, c));
        }
    }
    v
}

fn model(l: &[usize], all: &[Ent], op: Op) -> Vec<usize> {
    let mut v = l.to_vec();
    match op {
        Op::Add(k) => v.push(k),
        Op::Remove(k) => v.retain(|x| all[*x] != all[k]),
        Op::ById(i) => v.retain(|x| all[*x].id != i),
        Op::ByIdCtx(i, c) => {
            v.retain(|x| all[*x].id != i || !in_ctx(&all[*x], c))
        }
    }
    v
}

fn po_op(f: &mut POFile, all: &[Ent], op: Op) {
    match op {
        Op::Add(k) => f.entries.push(all[k].po()),
        Op::Remove(k) => f.remove(&all[k].po()),
        Op::ById(i) => f.remove_by_msgid(i),
        Op::ByIdCtx(i, c) => f.remove_by_msgid_msgctxt(i, c),
    }
}

fn mo_op(f: &mut MOFile, all: &[Ent], op: Op) {
    match op {
        Op::Add(k) => f.entries.push(MOEntry::from(&all[k].po())),
        Op::Remove(k) => f.remove(&MOEntry::from(&all[k].po())),
        Op::ById(i) => f.remove_by_msgid(i),
        Op::ByIdCtx(i, c) => f.remove_by_msgid_msgctxt(i, c),
    }
}

fn queries_po(f: &POFile, l: &[usize], all: &[Ent]) -> Res {
    queries_po_of(f, l, all, &VALUES, &CTX)
}

fn queries_po_of(
    f: &POFile,
    l: &[usize],
    all: &[Ent],
    values: &[&str],
    ctxs: &[Option<&str>],
) -> Res {
    let pos = |e: &POEntry| {
        f.entries.iter().position(|x| std::ptr::eq(x, e))
    };
    for by in FIELDS {
        for val in values.iter().copied() {
            for c in ctxs.iter().copied() {
                for obs in [false, true] {
                    let got: Vec<Option<usize>> = f
                        .find(val, by, c, obs)
                        .into_iter()
                        .map(pos)
                        .collect();
                    let want: Vec<Option<usize>> = (0..l.len())
                        .filter(|i| {
                            let e = &all[l[*i]];
                            field(e, by) == Some(val)
                                && c.map_or(true, |c| in_ctx(e, c))
                                && (obs || !e.obsolete)
                        })
                        .map(Some)
                        .collect();
                    ensure!(
                        got == want,
                        "find({val:?}, {by}, {c:?}, {obs}) gives {got:?} instead of {want:?}"
                    );
                }
            }
        }
    }
    for val in values.iter().copied() {
        let got = f.find_by_msgid(val).map(|e| Ent::of(&e));
        let want = l.iter().map(|i| &all[*i]).find(|e| e.id == val);
        ensure!(
            got.as_ref() == want,
            "find_by_msgid({val:?}) gives {got:?} instead of {want:?}"
        );
        for c in ctxs.iter().flatten() {
            let got =
                f.find_by_msgid_msgctxt(val, c).map(|e| Ent::of(&e));
            let want = l
                .iter()
                .map(|i| &all[*i])
                .find(|e| e.id == val && in_ctx(e, c));
            ensure!(
                got.as_ref() == want,
                "find_by_msgid_msgctxt({val:?}, {c:?}) gives {got:?} instead of {want:?}"
            );
        }
    }
    Ok(())
}

fn queries_mo(f: &MOFile, l: &[usize], all: &[Ent]) -> Res {
    queries_mo_of(f, l, all, &VALUES, &CTX)
}

fn queries_mo_of(
    f: &MOFile,
    l: &[usize],
    all: &[Ent],
    values: &[&str],
    ctxs: &[Option<&str>],
) -> Res {
    let pos = |e: &MOEntry| {
        f.entries.iter().position(|x| std::ptr::eq(x, e))
    };
    for by in ["msgid", "msgstr", "msgctxt", "msgid_plural", "nothing"] {
        for val in values.iter().copied() {
            for c in ctxs.iter().copied() {
                let got: Vec<Option<usize>> =
                    f.find(val, by, c).into_iter().map(pos).collect();
                let want: Vec<Option<usize>> = (0..l.len())
                    .filter(|i| {
                        let e = &all[l[*i]];
                        field(e, by) == Some(val)
                            && c.map_or(true, |c| in_ctx(e, c))
                    })
                    .map(Some)
                    .collect();
                ensure!(
                    got == want,
                    "MO find({val:?}, {by}, {c:?}) gives {got:?} instead of {want:?}"
                );
            }
        }
    }
    for val in values.iter().copied() {
        let got = f.find_by_msgid(val).and_then(pos);
        let want = l.iter().position(|i| all[*i].id == val);
        ensure!(
            got == want,
            "MO find_by_msgid({val:?}) gives {got:?} instead of {want:?}"
        );
        for c in ctxs.iter().flatten() {
            let got = f.find_by_msgid_msgctxt(val, c).and_then(pos);
            let want = l
                .iter()
                .position(|i| all[*i].id == val && in_ctx(&all[*i], c));
            ensure!(
                got == want,
                "MO find_by_msgid_msgctxt({val:?}, {c:?}) gives {got:?} instead of {want:?}"
            );
        }
    }
    Ok(())
}

fn same_po(f: &POFile, l: &[usize], all: &[Ent]) -> bool {
    f.entries.len() == l.len()
        && f.entries.iter().zip(l).all(|(e, k)| Ent::of(e) == all[*k])
}

fn same_mo(f: &MOFile, l: &[usize], all: &[Ent]) -> bool {
    f.entries.len() == l.len()
        && f.entries
            .iter()
            .zip(l)
            .all(|(e, k)| *e == MOEntry::from(&all[*k].po()))
}

/// Distinct messages for MO files: those that differ only in PO fields
/// are the same message there.
pub fn mo_distinct() -> Vec<Ent> {
    messages()
        .into_iter()
        .map(|mut e| {
            e.obsolete = false;
            e.pid = None;
            e.pctxt = None;
            e.pplural = None;
            e
        })
        .collect()
}

/// Searches for and removes `y` in files whose message holds `x` everywhere.
fn values(x: &str, y: &str, rec: &mut Rec) -> Res {
    rec.case(format!("{x:?} {y:?}").as_bytes());
    rec.state(format!("{x:?} {y:?}").as_bytes());
    let e = Ent {
        id: s(x),
        ctxt: Some(s(x)),
        s: Some(s(x)),
        plural: Some(s(x)),
        pid: Some(s(x)),
        pctxt: Some(s(x)),
        pplural: Some(s(x)),
        ..Default::default()
    };
    let mut f = POFile::new(FileOptions::default());
    f.entries.push(e.po());
    let mut g = MOFile::new(FileOptions::default());
    g.entries.push(MOEntry::from(&e.po()));
    for by in &FIELDS[..7] {
        for c in [None, Some(y)] {
            rec.trace(1);
            let n = f.find(y, by, c, true).len();
            ensure!(
                n == (x == y) as usize,
                "find({y:?}, {by}, {c:?}) in {x:?} gives {n}"
            );
        }
    }
    for by in &FIELDS[..4] {
        let n = g.find(y, by, None).len();
        ensure!(
            n == (x == y) as usize,
            "MO find({y:?}, {by}) in {x:?} gives {n}"
        );
    }
    ensure!(
        f.find_by_msgid_msgctxt(x, y).is_some() == (x == y),
        "find_by_msgid_msgctxt({x:?}, {y:?})"
    );
    ensure!(
        f.find_by_msgid(y).is_some() == (x == y),
        "find_by_msgid({y:?}) in {x:?}"
    );
    ensure!(
        g.find_by_msgid(y).is_some() == (x == y)
            && g.find_by_msgid_msgctxt(y, x).is_some() == (x == y),
        "MO single lookups of {y:?} in {x:?}"
    );
    f.remove_by_msgid_msgctxt(x, y);
    g.remove_by_msgid_msgctxt(x, y);
    ensure!(
        f.entries.len() == (x != y) as usize
            && g.entries.len() == (x != y) as usize,
        "remove_by_msgid_msgctxt({x:?}, {y:?})"
    );
    // removal by value tells them apart in every field
    for k in 0..7 {
        let mk = |t: &str| {
            let mut e = Ent { id: s("i"), ..Default::default() };
            match k {
                0 => e.id = s(t),
                1 => e.ctxt = Some(s(t)),
                2 => e.s = Some(s(t)),
                3 => e.plural = Some(s(t)),
                4 => e.sp = vec![s(t)],
                5 => e.tcomment = Some(s(t)),
                _ => e.occ = vec![(s(t), s("1"))],
            }
            e.po()
        };
        let mut f = POFile::new(FileOptions::default());
        f.entries.push(mk(x));
        f.remove(&mk(y));
        let mut g = MOFile::new(FileOptions::default());
        g.entries.push(MOEntry::from(&mk(x)));
        g.remove(&MOEntry::from(&mk(y)));
        rec.trace(2);
        ensure!(
            f.entries.len() == (x != y) as usize
                && g.entries.len() == (x != y && k < 5) as usize,
            "removing the message with {y:?} from one with {x:?}, field {k}"
        );
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "states-po",
        &format!("every PO file of up to {n} of 8 messages: all queries, and every operation applied to it"),
        words_upto(8, n),
        move |i, rec| {
            let all = messages();
            let l = word(i, 8);
            rec.case(format!("{l:?} of {all:?}").as_bytes());
            rec.state(format!("po{l:?}").as_bytes());
            let mut f = POFile::new(FileOptions::default());
            f.entries = l.iter().map(|k| all[*k].po()).collect();
            f.header = o("h");
            f.metadata.insert(s("Language"), s("es"));
            queries_po(&f, &l, &all)?;
            ensure!(same_po(&f, &l, &all), "a query changed the file");
            for op in ops(8) {
                let mut g = f.clone();
                po_op(&mut g, &all, op);
                rec.trace(1);
                let want = model(&l, &all, op);
                ensure!(
                    same_po(&g, &want, &all),
                    "{op:?} on {l:?} gives {:?} instead of {want:?}",
                    g.entries
                );
                ensure!(
                    g.header == f.header && g.metadata == f.metadata,
                    "{op:?} changed header or metadata"
                );
            }
            Ok(())
        },
    ));
    v.push(space(
        "states-mo",
        &format!("every MO file of up to {n} of 8 messages: all queries, and every operation applied to it"),
        words_upto(8, n),
        move |i, rec| {
            let all = mo_distinct();
            let l = word(i, 8);
            rec.case(format!("{l:?} of {all:?}").as_bytes());
            rec.state(format!("mo{l:?}").as_bytes());
            let mut f = MOFile::new(FileOptions::default());
            f.entries =
                l.iter().map(|k| MOEntry::from(&all[*k].po())).collect();
            queries_mo(&f, &l, &all)?;
            ensure!(same_mo(&f, &l, &all), "a query changed the file");
            for op in ops(8) {
                let mut g = f.clone();
                mo_op(&mut g, &all, op);
                rec.trace(1);
                let want = model(&l, &all, op);
                ensure!(
                    same_mo(&g, &want, &all),
                    "{op:?} on {l:?} gives {:?} instead of {want:?}",
                    g.entries
                );
            }
            Ok(())
        },
    ));
    let n = if quick { 5 } else { 6 };
    let count = ops(8).len();
    v.push(space(
        "histories",
        &format!("all histories of {} operations out of {count} on one live PO and one live MO file that already hold 3 messages, checked after every step", n - 1),
        (count as u64).pow(n as u32 - 1),
        move |i, rec| {
            let (all, mall) = (messages(), mo_distinct());
            let every = ops(8);
            let mut l = vec![0, 3, 6];
            let mut m = l.clone();
            let mut f = POFile::new(FileOptions::default());
            f.entries = l.iter().map(|k| all[*k].po()).collect();
            let mut g = MOFile::new(FileOptions::default());
            g.entries =
                m.iter().map(|k| MOEntry::from(&mall[*k].po())).collect();
            let h = digits(i, &vec![count; n - 1]);
            for k in &h {
                let op = every[*k];
                po_op(&mut f, &all, op);
                mo_op(&mut g, &mall, op);
                l = model(&l, &all, op);
                m = model(&m, &mall, op);
                ensure!(
                    same_po(&f, &l, &all),
                    "PO after {op:?} in {:?}: {:?} instead of {l:?}",
                    h.iter().map(|k| every[*k]).collect::<Vec<_>>(),
                    f.entries
                );
                ensure!(
                    same_mo(&g, &m, &mall),
                    "MO after {op:?} in {:?}: {:?} instead of {m:?}",
                    h.iter().map(|k| every[*k]).collect::<Vec<_>>(),
                    g.entries
                );
            }
            rec.trace(2 * h.len() as u64);
            Ok(())
        },
    ));
    // values that are prefixes, case variants and Unicode variants
    const L: [&str; 6] = ["a", "b", "A", " ", "é", "e\u{301}"];
    let words = words_upto(6, 3);
    v.push(space(
        "values",
        "every pair of strings of length <= 2 over 6 letters as stored and searched value of every field",
        words_upto(6, 2) * words_upto(6, 2),
        move |i, rec| {
            let w = words_upto(6, 2) as usize;
            let d = digits(i, &[w, w]);
            let (x, y) =
                (word_string(d[0] as u64, &L), word_string(d[1] as u64, &L));
            values(&x, &y, rec)
        },
    ));
    let _ = words;
    v.push(space(
        "similar",
        "every ordered pair of 62 similar texts as stored and searched value of every field",
        (SIMILAR.len() * SIMILAR.len()) as u64,
        move |i, rec| {
            let d = digits(i, &[SIMILAR.len(), SIMILAR.len()]);
            values(SIMILAR[d[0]], SIMILAR[d[1]], rec)
        },
    ));
    let sizes = counts(if quick { 300 } else { 1500 }, 1 << 17);
    v.push(space(
        "prefixes",
        "texts with a common beginning of each length up to 300 (thorough 1500) and at the neighbours of the powers of two and ten up to 2^17, that then differ or end, as stored and searched value of every field",
        sizes.len() as u64,
        move |i, rec| {
            let t = late(sizes[i as usize]);
            for x in &t {
                for y in &t {
                    values(x, y, rec)?;
                }
            }
            Ok(())
        },
    ));
    // relations between the fields of one message
    let r = related_radices();
    v.push(space(
        "related",
        "PO and MO files of one message whose context, source, plural source, up to 3 translations and previous strings are drawn from the same three texts, obsolete or not, before and after another one: all queries and removals",
        product(&r) / r[4] as u64,
        move |i, rec| {
            let d = digits(i, &[r[0], r[1], r[2], r[3], r[5]]);
            let e = match related(&[d[0], d[1], d[2], d[3], 0, d[4]]) {
                Some(e) => e,
                None => Ent { id: s(""), s: o("a"), ..Default::default() },
            };
            const V: [&str; 4] = ["", "a", "a\n", "b"];
            const C: [Option<&str>; 4] = [None, Some(""), Some("a"), Some("a\n")];
            let n = Ent { id: s("a"), s: o("t"), ..Default::default() };
            let all = vec![e, n];
            rec.case(format!("{all:?}").as_bytes());
            rec.state(format!("{:?}", all[0]).as_bytes());
            let l = [0, 1, 0];
            let mut f = POFile::new(FileOptions::default());
            f.entries = l.iter().map(|k| all[*k].po()).collect();
            queries_po_of(&f, &l, &all, &V, &C)?;
            let mut every = vec![Op::Remove(0), Op::Remove(1)];
            for v in V {
                every.push(Op::ById(v));
                every.extend(C.iter().flatten().map(|c| Op::ByIdCtx(v, c)));
            }
            for op in &every {
                let mut g = f.clone();
                po_op(&mut g, &all, *op);
                rec.trace(1);
                let want = model(&l, &all, *op);
                ensure!(
                    same_po(&g, &want, &all),
                    "{op:?} on {all:?} gives {:?} instead of {want:?}",
                    g.entries
                );
            }
            // the rest is not part of MO messages
            if d[3] > 0 || d[4] > 0 {
                return Ok(());
            }
            let mut f = MOFile::new(FileOptions::default());
            f.entries =
                l.iter().map(|k| MOEntry::from(&all[*k].po())).collect();
            queries_mo_of(&f, &l, &all, &V, &C)?;
            for op in &every {
                let mut g = f.clone();
                mo_op(&mut g, &all, *op);
                rec.trace(1);
                let want = model(&l, &all, *op);
                ensure!(
                    same_mo(&g, &want, &all),
                    "MO {op:?} on {all:?} gives {:?} instead of {want:?}",
                    g.entries
                );
            }
            Ok(())
        },
    ));
    // removal in long files: every position of the matches
    let max = if quick { 12 } else { 16 };
    v.push(space(
        "positions",
        &format!("files of {max} messages with every pattern of matching ones, every removal"),
        1 << max,
        move |i, rec| {
            let all = messages();
            let l: Vec<usize> = (0..max)
                .map(|k| if i >> k & 1 == 1 { 0 } else { [3, 7, 1][k % 3] })
                .collect();
            rec.state(format!("long{l:?}").as_bytes());
            let mut f = POFile::new(FileOptions::default());
            f.entries = l.iter().map(|k| all[*k].po()).collect();
            for op in
                [Op::Remove(0), Op::ById("a"), Op::ByIdCtx("a", "")]
            {
                let mut g = f.clone();
                po_op(&mut g, &all, op);
                rec.trace(1);
                let want = model(&l, &all, op);
                ensure!(
                    same_po(&g, &want, &all),
                    "{op:?} on {l:?} gives {} messages instead of {}",
                    g.entries.len(),
                    want.len()
                );
            }
            let n = f.find("a", "msgid", Some(""), false).len();
            ensure!(
                n == i.count_ones() as usize,
                "find in {l:?} gives {n}"
            );
            Ok(())
        },
    ));
    // every character
    v.push(space(
        "scalars",
        "every Unicode scalar value as stored value, searched as itself, as its neighbours and case variants, and within longer texts",
        SCALARS,
        move |i, rec| {
            let c = scalar(i);
            let t = c.to_string();
            let mut others = vec![
                format!("{c}{c}"),
                format!(" {c}"),
                format!("{c} "),
                scalar((i + 1) % SCALARS).to_string(),
                c.to_lowercase().to_string(),
                c.to_uppercase().to_string(),
                (c as u32 as u8 as char).to_string(),
            ];
            others.push(t.clone());
            let e = Ent {
                id: t.clone(),
                ctxt: Some(t.clone()),
                s: Some(t.clone()),
                plural: Some(t.clone()),
                pid: Some(t.clone()),
                pctxt: Some(t.clone()),
                pplural: Some(t.clone()),
                ..Default::default()
            };
            rec.state(t.as_bytes());
            let mut f = POFile::new(FileOptions::default());
            f.entries.push(e.po());
            let mut g = MOFile::new(FileOptions::default());
            g.entries.push(MOEntry::from(&e.po()));
            for y in &others {
                let hit = *y == t;
                rec.trace(4);
                for by in &FIELDS[..7] {
                    ensure!(
                        f.find(y, by, None, true).len() == hit as usize,
                        "find({y:?}, {by}) in {t:?}"
                    );
                }
                for by in &FIELDS[..4] {
                    ensure!(
                        g.find(y, by, None).len() == hit as usize,
                        "MO find({y:?}, {by}) in {t:?}"
                    );
                }
                ensure!(
                    f.find(&t, "msgid", Some(y), true).len() == hit as usize
                        && f.find_by_msgid(y).is_some() == hit
                        && f.find_by_msgid_msgctxt(&t, y).is_some() == hit
                        && g.find_by_msgid(y).is_some() == hit
                        && g.find_by_msgid_msgctxt(&t, y).is_some() == hit,
                    "lookups of {y:?} in {t:?}"
                );
                let mut f2 = f.clone();
                f2.remove_by_msgid(y);
                let mut f3 = f.clone();
                f3.remove_by_msgid_msgctxt(&t, y);
                ensure!(
                    f2.entries.is_empty() == hit
                        && f3.entries.is_empty() == hit,
                    "removals of {y:?} in {t:?}"
                );
            }
            Ok(())
        },
    ));
    // large files: the match first, last and everywhere between
    let max = if quick { 40usize } else { 130 };
    v.push(space(
        "large",
        &format!("files of up to {max} and of 255..=257, 1023..=1025, 4095..=4097 and 65535..=65537 different messages: every message (of the large ones up to 64) found and removed, and one that is not there"),
        max as u64 + 13,
        move |i, rec| {
            let i = i as usize;
            let n = if i <= max { i } else { [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537][i - max - 1] };
            let ents: Vec<Ent> = (0..n)
                .map(|k| Ent {
                    id: format!("id{}", k / 2),
                    ctxt: (k % 2 == 1).then(|| format!("c{}", k % 4)),
                    s: Some(format!("s{k}")),
                    obsolete: k % 5 == 4,
                    ..Default::default()
                })
                .collect();
            rec.state(format!("large{n}").as_bytes());
            let f = Fil { ents: ents.clone(), ..Default::default() }.po(78);
            let step = if n > 300 { 1 + n / 61 } else { 1 };
            for k in (0..=n).step_by(step).chain([n.saturating_sub(1)]) {
                let (id, s) = (format!("id{}", k / 2), format!("s{k}"));
                let ctxt = if k % 2 == 1 { format!("c{}", k % 4) } else { String::new() };
                rec.trace(4);
                for old in [false, true] {
                    let got: Vec<String> = f
                        .find(&s, "msgstr", None, old)
                        .iter()
                        .map(|e| e.msgstr.clone().unwrap_or_default())
                        .collect();
                    let want = k < n && (old || !ents[k].obsolete);
                    ensure!(
                        got == vec![s.clone(); want as usize],
                        "find({s:?}) among {n} messages gives {got:?}"
                    );
                }
                let first = ents
                    .iter()
                    .find(|e| e.id == id)
                    .map(|e| e.s.clone().unwrap());
                let got = f.find_by_msgid(&id).and_then(|e| e.msgstr.clone());
                ensure!(
                    got == first,
                    "find_by_msgid({id:?}) among {n} messages gives {got:?}"
                );
                let mut g = f.clone();
                g.remove_by_msgid_msgctxt(&id, &ctxt);
                let got: Vec<Ent> = g.entries.iter().map(Ent::of).collect();
                let want: Vec<Ent> = ents
                    .iter()
                    .filter(|e| {
                        e.id != id
                            || e.ctxt.clone().unwrap_or_default() != ctxt
                    })
                    .cloned()
                    .collect();
                ensure!(
                    got == want,
                    "remove_by_msgid_msgctxt({id:?}, {ctxt:?}) among {n} leaves {}",
                    got.len()
                );
                let mut g = f.clone();
                g.remove_by_msgid(&id);
                let got: Vec<Ent> = g.entries.iter().map(Ent::of).collect();
                let want: Vec<Ent> =
                    ents.iter().filter(|e| e.id != id).cloned().collect();
                ensure!(
                    got == want,
                    "remove_by_msgid({id:?}) among {n} leaves {}",
                    got.len()
                );
            }
            Ok(())
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "explicit-state exploration: the state is the list of messages; every operation and query of the real files is executed in every state within the bounds and compared with a list model; states are distinct lists",
        assumptions: &[
            "an absent optional field counts as empty text in searches and removals",
        ],
        spaces,
    }
}
