//! C14: merging a reference file keeps, adds and retires the right messages.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::s;
use crate::model::*;
use crate::shapes::{
    counts, late, scalar, sized, twin, DIMENSIONS, SCALARS, SIMILAR, TWINS,
};
use rspolib::{MOEntry, Merge};

/// Identities: source and context, some sharing one of the two.
const IDS: [(&str, Option<&str>); 7] = [
    ("a", None),
    ("a", Some("c")),
    ("b", None),
    ("a", Some("")),
    ("b", Some("c")),
    ("c", Some("a")),
    ("", Some("a")),
];

/// One message of an identity; `side` distinguishes original and reference.
fn ent(id: usize, variant: usize, side: &str) -> Ent {
    let (i, c) = IDS[id];
    let mut e = Ent {
        id: s(i),
        ctxt: c.map(String::from),
        s: Some(format!("{side} tr")),
        ..Default::default()
    };
    match variant {
        0 => {}
        1 => {
            e.obsolete = true;
            e.tcomment = Some(format!("{side} comment"));
        }
        2 => {
            e.flags = vec![s("fuzzy"), format!("{side}-flag")];
            e.occ = vec![(format!("{side}.c"), s("1"))];
            e.comment = Some(format!("{side} generated"));
            e.pid = Some(format!("{side} previous"));
            e.pctxt = Some(format!("{side} previous ctx"));
            e.pplural = Some(format!("{side} previous plural"));
            e.line = 7;
        }
        _ => {
            e.plural = Some(format!("{side} plural"));
            e.s = None;
            e.sp = vec![s(""), format!("{side} two")];
        }
    }
    e
}

fn same_id(a: &Ent, b: &Ent) -> bool {
    a.id == b.id && a.ctxt == b.ctxt
}

fn fil(ents: Vec<Ent>, side: &str) -> Fil {
    Fil {
        header: Some(format!("{side} header")),
        meta: [
            (s("Language"), s(side)),
            (format!("X-{side}"), s("v")),
        ]
        .into(),
        fuzzy: side == "ref",
        ents,
    }
}

/// No line numbers: they describe where a message was read.
fn bare(e: &Ent) -> Ent {
    Ent { line: 0, ..e.clone() }
}

fn judge(a: &Fil, b: &Fil, rec: &mut Rec) -> Res {
    rec.case(format!("{:?} <- {:?}", a.ents, b.ents).as_bytes());
    rec.trace(1);
    let mut f = a.po(40);
    f.merge(b.po(99));
    let got = Fil::of(&f);
    rec.state(format!("{:?}", got.ents).as_bytes());
    let n = a.ents.len();
    let missing: Vec<&Ent> = b
        .ents
        .iter()
        .filter(|x| !a.ents.iter().any(|y| same_id(x, y)))
        .collect();
    ensure!(
        got.ents.len() == n + missing.len(),
        "{} messages instead of {} and {} new ones: {:?}",
        got.ents.len(),
        n,
        missing.len(),
        got.ents
    );
    for (g, w) in got.ents[n..].iter().zip(&missing) {
        ensure!(
            g == *w,
            "added message {g:?} instead of {w:?}"
        );
    }
    let mut unchanged = None;
    for (g, x) in got.ents.iter().zip(&a.ents) {
        ensure!(
            same_id(g, x),
            "{g:?} stands where {x:?} was: lost or reordered"
        );
        match b.ents.iter().find(|y| same_id(x, y)) {
            None => {
                let mut w = x.clone();
                w.obsolete = true;
                ensure!(
                    bare(g) == bare(&w),
                    "message missing in the reference became {g:?} instead of {w:?}"
                );
            }
            Some(y) if bare(g) == bare(y) => {}
            Some(y) => {
                ensure!(
                    bare(g) == bare(x),
                    "message in both became {g:?}, neither {y:?} nor {x:?}"
                );
                unchanged = Some((g.clone(), y.clone()));
            }
        }
    }
    ensure!(
        got.header == a.header
            && got.meta == a.meta
            && got.fuzzy == a.fuzzy,
        "header or metadata changed: {:?} {:?} {:?}",
        got.header,
        got.meta,
        got.fuzzy
    );
    ensure!(f.options.wrapwidth == 40, "options changed");
    // merging the same reference again changes nothing
    f.merge(b.po(99));
    let again = Fil::of(&f);
    ensure!(
        again == got,
        "merging again changes the file: {}",
        diff(&got, &again)
    );
    if let Some((g, y)) = unchanged {
        return Err(Fail::Sig(
            "merge-common-unchanged",
            format!(
                "a message in both files keeps its own fields: {g:?} instead of {y:?}"
            ),
        ));
    }
    Ok(())
}

/// All ordered lists of up to `n` of `ids` identities in all variants.
fn lists(ids: usize, variants: usize, n: usize, side: &str) -> Vec<Vec<Ent>> {
    let mut out = vec![];
    for sel in selections(ids, n) {
        let count = (variants as u64).pow(sel.len() as u32);
        for i in 0..count {
            let d = digits(i, &vec![variants; sel.len()]);
            out.push(
                sel.iter()
                    .zip(d)
                    .map(|(k, v)| ent(*k, v, side))
                    .collect(),
            );
        }
    }
    out
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let (ids, var) = if quick { (4, 3) } else { (5, 4) };
    let a = lists(ids, var, 3, "own");
    let b = lists(ids, var, 3, "ref");
    let (na, nb) = (a.len(), b.len());
    v.push(space(
        "pairs",
        &format!("every pair of files with up to 3 of {ids} identities in every order, each message in {var} variants ({na} x {nb})"),
        (na * nb) as u64,
        move |i, rec| {
            let d = digits(i, &[na, nb]);
            judge(
                &fil(a[d[0]].clone(), "own"),
                &fil(b[d[1]].clone(), "ref"),
                rec,
            )
        },
    ));
    let n = if quick { 4 } else { 5 };
    let sel = selections(IDS.len(), n);
    let m = sel.len();
    v.push(space(
        "identities",
        &format!("every pair of files with up to {n} of 7 identities in every order"),
        (m * m) as u64,
        move |i, rec| {
            let d = digits(i, &[m, m]);
            let mk = |k: usize, side: &str| {
                fil(
                    sel[k]
                        .iter()
                        .enumerate()
                        .map(|(p, x)| ent(*x, (p + k) % 4, side))
                        .collect(),
                    side,
                )
            };
            judge(&mk(d[0], "own"), &mk(d[1], "ref"), rec)
        },
    ));
    let max = if quick { 24usize } else { 48 };
    v.push(space(
        "many",
        &format!("files of n and m messages overlapping in k, n, m <= {max}, in two orders"),
        ((max + 1) * (max + 1) * (max + 1) * 2) as u64,
        move |i, rec| {
            let d = digits(i, &[max + 1, max + 1, max + 1, 2]);
            let (n, m, k) = (d[0], d[1], d[2]);
            if k > n || k > m {
                return Ok(());
            }
            let mk = |j: usize, side: &str| {
                let mut e = ent(0, j % 4, side);
                e.id = format!("id{j}");
                e
            };
            let own = (0..n).map(|j| mk(j, "own")).collect();
            let mut other: Vec<Ent> =
                (n - k..n - k + m).map(|j| mk(j, "ref")).collect();
            if d[3] == 1 {
                other.reverse();
            }
            judge(&fil(own, "own"), &fil(other, "ref"), rec)
        },
    ));
    // sequences of references
    let seqs = lists(3, 2, 2, "ref");
    let ns = seqs.len();
    v.push(space(
        "sequences",
        &format!("two different references merged one after the other into every small file ({ns}^3)"),
        (ns * ns * ns) as u64,
        move |i, rec| {
            let d = digits(i, &[ns, ns, ns]);
            let mut own = fil(seqs[d[0]].clone(), "own");
            for k in [d[1], d[2]] {
                let r = fil(seqs[k].clone(), "ref");
                let mut f = own.po(40);
                match judge(&own, &r, rec) {
                    Ok(()) | Err(Fail::Sig(..)) => {}
                    e => return e,
                }
                f.merge(r.po(40));
                own = Fil::of(&f);
            }
            Ok(())
        },
    ));
    // single messages
    v.push(space(
        "messages",
        "merging every pair of 7 identities x 4 variants as single PO and MO messages",
        (28 * 28) as u64,
        move |i, rec| {
            let d = digits(i, &[7, 4, 7, 4]);
            let (a, b) = (ent(d[0], d[1], "own"), ent(d[2], d[3], "ref"));
            rec.case(format!("{a:?} <- {b:?}").as_bytes());
            rec.trace(2);
            let mut e = a.po();
            e.merge(b.po());
            ensure!(Ent::of(&e) == b, "{a:?} merged with {b:?} is {e:?}");
            let mut m = MOEntry::from(&a.po());
            m.merge(MOEntry::from(&b.po()));
            ensure!(
                m == MOEntry::from(&b.po()),
                "{a:?} merged with {b:?} is {m:?}"
            );
            Ok(())
        },
    ));
    // relations between the fields of one message and between messages
    v.push(space(
        "twins",
        "every ordered pair of 144 small messages that may share source, context, plural or translation, obsolete or fuzzy, as file of one message merged with a reference of one, and beside a further message on either side",
        (TWINS * TWINS) as u64,
        move |i, rec| {
            let d = digits(i, &[TWINS, TWINS]);
            let (a, b) = (twin(d[0]), twin(d[1]));
            let x = Ent { id: s("x"), s: Some(s("a")), ..Default::default() };
            let mut known = Ok(());
            for (own, other) in [
                (vec![a.clone()], vec![b.clone()]),
                (vec![x.clone(), a.clone()], vec![b.clone()]),
                (vec![a.clone()], vec![x.clone(), b.clone()]),
                (vec![a.clone(), x.clone()], vec![b.clone(), x.clone()]),
            ] {
                match judge(&fil(own, "own"), &fil(other, "ref"), rec) {
                    Err(e @ Fail::Sig(..)) => known = Err(e),
                    e => e?,
                }
            }
            let mut e = a.po();
            e.merge(b.po());
            ensure!(Ent::of(&e) == b, "{a:?} merged with {b:?} is {e:?}");
            known
        },
    ));
    // previous strings identify nothing
    const PR: [usize; 5] = [3, 2, 5, 2, 2];
    let np = PR.iter().product::<usize>();
    v.push(space(
        "previous",
        "every pair of an own and a reference message with one of 3 sources, with or without context, with no previous strings or those of one of the 3 or another context, fuzzy or not, obsolete or not, beside a further own or reference message or none",
        (np * np * 3) as u64,
        move |i, rec| {
            let d = digits(i, &[np, np, 3]);
            let mk = |k: usize, side: &str| {
                let d = digits(k as u64, &PR);
                let t = |k: usize| s(["a", "b", "c"][k]);
                let mut e = Ent {
                    id: t(d[0]),
                    ctxt: (d[1] == 1).then(|| s("b")),
                    s: Some(format!("{side}{}", d[0])),
                    obsolete: d[4] == 1,
                    ..Default::default()
                };
                match d[2] {
                    0 => {}
                    4 => {
                        e.pid = Some(t(d[0]));
                        e.pctxt = Some(s("b"));
                    }
                    k => {
                        e.pid = Some(t(k - 1));
                        e.pplural = Some(t(k - 1));
                    }
                }
                if d[3] == 1 {
                    e.flags = vec![s("fuzzy")];
                }
                e
            };
            let (mut own, mut other) =
                (vec![mk(d[0], "own")], vec![mk(d[1], "ref")]);
            let x = Ent {
                id: s("c"),
                ctxt: Some(s("x")),
                s: Some(s("x")),
                ..Default::default()
            };
            match d[2] {
                0 => {}
                1 => own.push(x),
                _ => other.insert(0, x),
            }
            judge(&fil(own, "own"), &fil(other, "ref"), rec)
        },
    ));
    let r = crate::shapes::related_radices();
    v.push(space(
        "related",
        "one message whose context, source, plural source, up to 3 translations, references, comments and previous strings are drawn from the same three texts (absent, empty, equal, differing in a final newline) x flags x obsolete, added, kept and retired",
        product(&r),
        move |i, rec| {
            let e = match crate::shapes::related(&digits(i, &r)) {
                Some(e) => e,
                None => return Ok(()),
            };
            let x = Ent { id: s("x"), s: Some(s("a")), ..Default::default() };
            let both = || vec![x.clone(), e.clone()];
            judge(&fil(both(), "own"), &fil(vec![x.clone()], "ref"), rec)?;
            judge(&fil(vec![x.clone()], "own"), &fil(both(), "ref"), rec)?;
            judge(&fil(both(), "own"), &fil(both(), "ref"), rec)
        },
    ));
    // which texts identify a message
    const L: [&str; 8] = ["a", "A", " ", "\n", "é", "e\u{301}", "\u{4}", "\0"];
    let w = words_upto(8, 2) as usize;
    v.push(space(
        "texts",
        "every pair of texts of up to 2 of 8 pieces (case, blanks, newline, composed and decomposed, EOT, NUL) as source, as context and as both of own and reference message, and split between context and source",
        (w * w * 4) as u64,
        move |i, rec| {
            let d = digits(i, &[w, w, 4]);
            let (x, y) =
                (word_string(d[0] as u64, &L), word_string(d[1] as u64, &L));
            let mk = |t: &str, other: &str, side: &str| {
                let (id, ctxt) = match d[2] {
                    0 => (s(t), None),
                    1 => (s("k"), Some(s(t))),
                    2 => (s(t), Some(s(t))),
                    // the same letters divided otherwise
                    _ => (s(t), Some(s(other))),
                };
                Ent { id, ctxt, s: Some(format!("{side} tr")), ..Default::default() }
            };
            judge(
                &fil(vec![mk(&x, &y, "own")], "own"),
                &fil(vec![mk(&y, &x, "ref")], "ref"),
                rec,
            )
        },
    ));
    let mk = |t: &str, how: usize, side: &str| Ent {
        id: s(if how == 1 { "k" } else { t }),
        ctxt: (how > 0).then(|| s(if how == 1 { t } else { "c" })),
        s: Some(format!("{side} tr")),
        ..Default::default()
    };
    v.push(space(
        "similar",
        "every ordered pair of 62 similar texts as source, as context, and as source beside an equal context of own and reference message",
        (SIMILAR.len() * SIMILAR.len() * 3) as u64,
        move |i, rec| {
            let d = digits(i, &[SIMILAR.len(), SIMILAR.len(), 3]);
            judge(
                &fil(vec![mk(SIMILAR[d[0]], d[2], "own")], "own"),
                &fil(vec![mk(SIMILAR[d[1]], d[2], "ref")], "ref"),
                rec,
            )
        },
    ));
    let sizes = counts(if quick { 300 } else { 1500 }, 1 << 17);
    v.push(space(
        "prefixes",
        "texts with a common beginning of each length up to 300 (thorough 1500) and at the neighbours of the powers of two and ten up to 2^17, that then differ or end, as source and context of own and reference message",
        (sizes.len() * 3) as u64,
        move |i, rec| {
            let t = late(sizes[i as usize / 3]);
            for x in &t {
                for y in &t {
                    judge(
                        &fil(vec![mk(x, i as usize % 3, "own")], "own"),
                        &fil(vec![mk(y, i as usize % 3, "ref")], "ref"),
                        rec,
                    )?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "scalars",
        "every Unicode scalar value as source and as context of an own message, merged with a reference holding its neighbour, its case variants and its low byte, with and without itself",
        SCALARS,
        move |i, rec| {
            let c = scalar(i);
            let t = c.to_string();
            let mut o = vec![
                scalar((i + 1) % SCALARS).to_string(),
                c.to_lowercase().to_string(),
                c.to_uppercase().to_string(),
                (c as u32 as u8 as char).to_string(),
                format!("{c}{c}"),
                format!("{c} "),
            ];
            o.sort();
            o.dedup();
            o.retain(|x| *x != t);
            if i % 2 == 0 {
                o.push(t.clone());
            }
            let mk = |id: &str, ctxt: Option<&str>, side: &str| Ent {
                id: s(id),
                ctxt: ctxt.map(s),
                s: Some(format!("{side} tr")),
                ..Default::default()
            };
            let own = vec![mk(&t, None, "own"), mk("k", Some(&t), "own")];
            let mut other = vec![];
            for x in &o {
                other.push(mk(x, None, "ref"));
                other.push(mk("k", Some(x), "ref"));
            }
            other.dedup_by(|a, b| same_id(a, b));
            judge(&fil(own, "own"), &fil(other, "ref"), rec)
        },
    ));
    let sizes = counts(if quick { 4 } else { 100 }, if quick { 1100 } else { 2100 });
    let n = sizes.len();
    v.push(space(
        "sizes",
        "own and reference files of each number of messages at the neighbours of the powers of two and ten up to 1025 (thorough 2049), half overlapping",
        (n * n) as u64,
        move |i, rec| {
            let d = digits(i, &[n, n]);
            if quick && sizes[d[0]].max(1) * sizes[d[1]].max(1) > 300_000 {
                return Ok(());
            }
            let mk = |j: usize, side: &str| {
                let mut e = ent(0, j % 4, side);
                e.id = format!("id{}", j / 2);
                e.ctxt = (j % 2 == 1).then(|| format!("c{}", j % 10));
                e
            };
            let own = (0..sizes[d[0]]).map(|j| mk(j, "own")).collect();
            let at = sizes[d[0]] / 2;
            let other = (at..at + sizes[d[1]]).map(|j| mk(j, "ref")).collect();
            judge(&fil(own, "own"), &fil(other, "ref"), rec)
        },
    ));
    let sizes = counts(if quick { 20 } else { 100 }, 4097);
    let n = sizes.len();
    v.push(space(
        "fields",
        "a message with each number of plural forms, flags, references and comment lines, and texts of each length, up to 4097, added, kept and retired",
        (DIMENSIONS * n) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, n]);
            let f = match sized(d[0], sizes[d[1]]) {
                Some(f) if d[0] > 2 && d[0] < 22 => f,
                _ => return Ok(()),
            };
            let x = Ent { id: s("other"), s: Some(s("a")), ..Default::default() };
            let with = |x: &Ent| {
                let mut f = f.clone();
                f.ents.push(x.clone());
                f
            };
            judge(&with(&x), &fil(vec![x.clone()], "ref"), rec)?;
            judge(&fil(vec![x.clone()], "own"), &with(&x), rec)?;
            judge(&with(&x), &with(&x), rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "model_checking",
        rule: "every enumerated pair of files is merged by the real code and compared with a reference merge, twice in a row; states are distinct results",
        assumptions: &[
            "messages of one file have distinct (source, context) identities",
        ],
        spaces,
    }
}
