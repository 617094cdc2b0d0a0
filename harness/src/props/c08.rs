//! C08: compiled MO bytes parse back to the same messages.
//! C09: compiled MO bytes follow the GNU MO layout.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::{o, s};
use crate::mo;
use crate::model::*;
use crate::shapes::{
    counts, related, related_radices, scalar, scalar_file, sized, twin, SCALARS,
    SIMILAR, TWINS,
};
use std::collections::HashSet;
use rspolib::{mofile, AsBytes, MsgidEotMsgctxt, POEntry, MAGIC, MAGIC_SWAPPED};
use std::collections::BTreeMap;

pub type Meta = BTreeMap<String, String>;
type Judge = fn(&[Msg], &Meta, bool, u32, &mut Rec) -> Res;

pub fn compile(
    msgs: &[Msg],
    meta: &Meta,
    be: bool,
    rev: u32,
) -> Vec<u8> {
    mo_file(msgs, meta)
        .as_bytes_with(if be { MAGIC_SWAPPED } else { MAGIC }, rev)
        .into_owned()
}

pub fn describe(msgs: &[Msg], meta: &Meta, be: bool, rev: u32) -> String {
    format!("be={be} rev={rev} metadata={meta:?} messages={msgs:?}")
}

/// Metadata values carry no outer blanks.
pub fn clean_metas() -> Vec<Meta> {
    crate::menu::metas()
        .into_iter()
        .map(|m| {
            m.into_iter().map(|(k, v)| (k, s(v.trim()))).collect()
        })
        .collect()
}

fn sorted(msgs: &[Msg]) -> Vec<Msg> {
    let mut v = msgs.to_vec();
    v.sort_by_key(|m| m.key());
    v
}

fn back(
    msgs: &[Msg],
    meta: &Meta,
    be: bool,
    rev: u32,
    rec: &mut Rec,
) -> Res {
    rec.case(describe(msgs, meta, be, rev).as_bytes());
    rec.trace(3);
    let b = compile(msgs, meta, be, rev);
    rec.state(&b);
    let f = match mofile(b.clone()) {
        Ok(f) => f,
        Err(e) => return bad(format!("compiled bytes rejected: {e}")),
    };
    let got: Vec<Msg> = f.entries.iter().map(Msg::of).collect();
    let want = sorted(msgs);
    ensure!(
        sorted(&got) == want,
        "messages come back as {got:?} instead of {want:?}"
    );
    ensure!(
        meta_of(&f.metadata) == *meta,
        "metadata comes back as {:?} instead of {meta:?}",
        f.metadata
    );
    ensure!(
        f.magic_number == Some(if be { MAGIC_SWAPPED } else { MAGIC }),
        "byte order reported as {:?}",
        f.magic_number
    );
    ensure!(
        f.version == Some(rev),
        "revision reported as {:?} instead of {rev}",
        f.version
    );
    for e in &f.entries {
        ensure!(
            e.msgid_plural.is_none() || e.msgstr_plural.len() > 0,
            "plural message without plural translations: {e:?}"
        );
        mo::plural_msgstr(e, rec)?;
    }
    let again = f
        .as_bytes_with(f.magic_number.unwrap(), f.version.unwrap())
        .into_owned();
    ensure!(again == b, "compiling the parsed file gives other bytes");
    Ok(())
}

fn gnu(
    msgs: &[Msg],
    meta: &Meta,
    be: bool,
    rev: u32,
    rec: &mut Rec,
) -> Res {
    rec.case(describe(msgs, meta, be, rev).as_bytes());
    rec.trace(2 + msgs.len() as u64);
    let b = compile(msgs, meta, be, rev);
    rec.state(&b);
    let r = match mo::conforms(&b, be, rev) {
        Ok(r) => r,
        Err(e) => return bad(e),
    };
    ensure!(
        r.n as usize == msgs.len() + 1,
        "{} strings for {} messages and the metadata",
        r.n,
        msgs.len()
    );
    for m in msgs {
        let got = mo::lookup(&b, &r, &m.key());
        ensure!(
            got == Some(&m.trans()[..]),
            "looking up {:?} finds {:?}",
            m.key(),
            got
        );
    }
    let stored: HashSet<&[u8]> =
        r.pairs(&b).into_iter().map(|p| p.0).collect();
    for m in msgs {
        ensure!(
            stored.contains(&m.orig()[..]),
            "{:?} is not stored",
            m.orig()
        );
    }
    for m in msgs {
        let e = m.mo();
        ensure!(
            e.msgid_eot_msgctxt().as_bytes() == m.key()
                && POEntry::from(&e).msgid_eot_msgctxt().as_bytes() == m.key(),
            "lookup key of {m:?} is {:?}",
            e.msgid_eot_msgctxt()
        );
    }
    let mt = mo::lookup(&b, &r, b"")
        .ok_or_else(|| Fail::Bad("no metadata string".into()))?;
    let mt = String::from_utf8_lossy(mt).into_owned();
    ensure!(
        mo::metadata(&mt).as_ref() == Some(meta),
        "metadata string {mt:?} instead of {meta:?}"
    );
    if rev == 0 {
        let f = mo_file(msgs, meta);
        let direct = if be { f.as_bytes_be() } else { f.as_bytes_le() };
        ensure!(
            direct.as_ref() == &b[..],
            "byte order method gives other bytes"
        );
        if !be {
            ensure!(
                f.as_bytes().as_ref() == &b[..],
                "default method gives other bytes"
            );
        }
    }
    Ok(())
}

pub fn as_msg(e: &Ent) -> Msg {
    Msg {
        ctxt: e.ctxt.clone(),
        id: e.id.clone(),
        plural: e.plural.clone(),
        tr: if e.plural.is_some() {
            e.sp.clone()
        } else {
            vec![e.s.clone().unwrap_or_default()]
        },
    }
}

fn four(
    msgs: &[Msg],
    meta: &Meta,
    judge: Judge,
    rec: &mut Rec,
) -> Res {
    for be in [false, true] {
        for rev in [0, 1] {
            judge(msgs, meta, be, rev, rec)?;
        }
    }
    Ok(())
}

fn build(t: Tier, judge: Judge) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let n = 4;
    let cat = mo::catalogue();
    let sel = selections(cat.len(), n);
    let size = sel.len() as u64;
    v.push(space(
        "selections",
        &format!("all ordered selections of up to {n} of 24 messages, without and with metadata, both byte orders and revisions"),
        size,
        move |i, rec| {
            let msgs: Vec<Msg> =
                sel[i as usize].iter().map(|&k| cat[k].clone()).collect();
            let metas = clean_metas();
            four(&msgs, &metas[(i % 5) as usize], judge, rec)?;
            judge(&msgs, &metas[((i + 1) % 5) as usize], i % 2 == 0, 0, rec)
        },
    ));
    let cat = mo::catalogue();
    let sub: Vec<Vec<usize>> = subsets(cat.len(), if quick { 6 } else { 8 });
    let size = sub.len() as u64;
    v.push(space(
        "subsets",
        &format!("all subsets of up to {} of 24 messages, in catalogue order, reversed and rotated", if quick { 6 } else { 8 }),
        size,
        move |i, rec| {
            let mut msgs: Vec<Msg> =
                sub[i as usize].iter().map(|&k| cat[k].clone()).collect();
            let meta = clean_metas()[(i % 5) as usize].clone();
            judge(&msgs, &meta, false, 0, rec)?;
            msgs.reverse();
            judge(&msgs, &meta, true, 1, rec)?;
            if msgs.len() > 2 {
                msgs.rotate_left(1);
                judge(&msgs, &meta, true, 0, rec)?;
            }
            Ok(())
        },
    ));
    // string contents in every position
    const L: [&str; 11] = [
        "a", "\n", "é", "中", " ", "\u{1}", "\u{3}", "\u{5}", "\u{10ffff}",
        ":", "\\",
    ];
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "strings",
        &format!("all strings of length <= {n} over 11 letters as context, source, plural source, translation and plural translation, beside fixed neighbours"),
        words_upto(L.len(), n),
        move |i, rec| {
            let x = word_string(i, &L);
            let fixed = Msg {
                ctxt: None,
                id: s("m"),
                plural: None,
                tr: vec![s("M")],
            };
            let p = |c: Option<&str>, id: &str, pl: Option<&str>, tr: &[&str]| Msg {
                ctxt: c.map(String::from),
                id: s(id),
                plural: pl.map(String::from),
                tr: tr.iter().map(|t| s(t)).collect(),
            };
            let empty = Meta::new();
            for m in [
                p(Some(&x), "id", None, &["t"]),
                p(Some(&x), "m", Some("ms"), &["t", "u"]),
                p(Some("c"), &x, None, &["t"]),
                p(None, &format!("{x}m"), Some("z"), &["t", "u"]),
                p(None, &format!("m{x}"), None, &["t"]),
                p(None, "id", Some(&x), &["t", "u"]),
                p(None, "id", None, &[&x]),
                p(None, "id", Some("p"), &[&x, "u"]),
                p(None, "id", Some("p"), &["t", &x]),
                p(Some("c"), "id", Some("p"), &["t", &x, ""]),
                p(None, "id", Some("p"), &[&x]),
            ] {
                let mut msgs = vec![m, fixed.clone()];
                if msgs[0].key() == msgs[1].key() {
                    msgs.pop();
                }
                four(&msgs, &empty, judge, rec)?;
            }
            Ok(())
        },
    ));
    // pairs of sources: every relative order
    let n = 2;
    let words: u64 = words_upto(L.len(), n);
    v.push(space(
        "pairs",
        "all pairs of sources of length <= 2 over 11 letters, with and without contexts and plurals",
        words * words * 6,
        move |i, rec| {
            let d = digits(i, &[words as usize, words as usize, 6]);
            let (a, b) =
                (word_string(d[0] as u64, &L), word_string(d[1] as u64, &L));
            let c = |on: bool, x: &str| if on { o(x) } else { None };
            let mk = |id: &str, ctxt: Option<String>, pl: bool| Msg {
                ctxt,
                id: s(id),
                plural: c(pl, "pl"),
                tr: if pl { vec![s(id), s("2")] } else { vec![format!("T{id}")] },
            };
            let msgs = match d[2] {
                0 => vec![mk(&a, None, false), mk(&b, None, false)],
                1 => vec![mk(&a, o("c"), false), mk(&b, None, true)],
                2 => vec![mk(&a, None, true), mk(&b, None, false)],
                3 => vec![mk("x", Some(a), false), mk("x", Some(b), true)],
                4 => vec![mk("x", Some(a), false), mk(&b, None, false)],
                _ => vec![mk(&a, Some(b.clone()), false), mk(&b, Some(a.clone()), false)],
            };
            if msgs[0].key() == msgs[1].key()
                || msgs.iter().any(|m| m.key().is_empty())
            {
                return Ok(());
            }
            judge(&msgs, &Meta::new(), i % 2 == 0, (i / 2 % 2) as u32, rec)
        },
    ));
    // numbers of messages and of plural forms
    let max = if quick { 300 } else { 1500 };
    let many = counts(max as usize, 1 << 17);
    v.push(space(
        "many",
        &format!("files of 0..={max} messages, and at the neighbours of the powers of two and ten up to 2^17, in 5 orders"),
        (many.len() * 5) as u64,
        move |i, rec| {
            let d = digits(i, &[5, many.len()]);
            let n = many[d[1]];
            if n > max as usize && d[0] != 1 {
                return Ok(());
            }
            let mut msgs: Vec<Msg> = (0..n)
                .map(|k| Msg {
                    ctxt: (k % 3 == 0).then(|| format!("c{}", k % 7)),
                    id: format!("id {k}"),
                    plural: (k % 4 == 1).then(|| format!("ids {k}")),
                    tr: if k % 4 == 1 {
                        (0..1 + k % 5).map(|j| format!("t{k}.{j}")).collect()
                    } else {
                        vec![format!("tr {k} {}", "x".repeat(k % 40))]
                    },
                })
                .collect();
            match d[0] {
                0 => {}
                1 => msgs.reverse(),
                2 => msgs.rotate_left(n / 2),
                3 => msgs.sort_by_key(|m| m.key()),
                _ => {
                    // perfect shuffle
                    let half = n / 2;
                    let (a, b) = msgs.split_at(half);
                    let mut w = vec![];
                    for k in 0..b.len() {
                        w.push(b[k].clone());
                        if k < half {
                            w.push(a[k].clone());
                        }
                    }
                    msgs = w;
                }
            }
            judge(&msgs, &clean_metas()[n % 5], n % 2 == 1, (n / 2 % 2) as u32, rec)
        },
    ));
    // lengths of strings
    v.push(space(
        "lengths",
        "string lengths 0..=300 and around every power of two up to 2^17, in every position",
        (301 + 27) * 5,
        move |i, rec| {
            let d = digits(i, &[328, 5]);
            let n = if d[0] < 301 {
                d[0]
            } else {
                (1usize << (9 + (d[0] - 301) / 3)) + (d[0] - 301) % 3 - 1
            };
            let x = "0123456789".repeat(n / 10 + 1)[..n].to_string();
            let mut msgs = mo::catalogue()[..4].to_vec();
            match d[1] {
                0 => msgs[0].id = format!("{x}a"),
                1 => msgs[1].tr = vec![x],
                2 => msgs[2].tr[1] = x,
                3 => msgs[2].plural = Some(x),
                _ => msgs[3].ctxt = Some(format!("{x}c")),
            }
            judge(&msgs, &Meta::new(), n % 2 == 1, (n / 2 % 2) as u32, rec)
        },
    ));
    let max = 40usize;
    v.push(space(
        "plurals",
        "1..=40 plural translations, every pattern of empty ones up to 10 forms",
        (max as u64) + 2046,
        move |i, rec| {
            let forms: Vec<String> = if i < max as u64 {
                (0..=i).map(|k| format!("f{k}")).collect()
            } else {
                let w = word(i - max as u64 + 1, 2);
                w.iter().map(|x| s(["", "x"][*x])).collect()
            };
            let msgs = vec![
                Msg { ctxt: None, id: s("one"), plural: o("many"), tr: forms.clone() },
                Msg { ctxt: o("c"), id: s("one"), plural: o(""), tr: forms },
            ];
            four(&msgs, &Meta::new(), judge, rec)
        },
    ));
    // empty forms far in the list
    let ns: Vec<usize> = counts(if quick { 40 } else { 130 }, 1000);
    let nl = ns.len();
    v.push(space(
        "sparse-plurals",
        "lists of up to 40 (thorough 130) plural translations, and at the neighbours of the powers of two and ten up to 1000, of which one or all but one are empty, at each of up to 130 places",
        (nl * 131 * 2) as u64,
        move |i, rec| {
            let d = digits(i, &[nl, 131, 2]);
            let n = ns[d[0]];
            // the last places of long lists
            let at = if d[1] < 66 { d[1] } else { n.wrapping_sub(d[1] - 65) };
            if n == 0 || at >= n || d[1] >= 66 && at < 66 {
                return Ok(());
            }
            let tr: Vec<String> = (0..n)
                .map(|k| if (k == at) == (d[2] == 0) { s("") } else { format!("f{k}") })
                .collect();
            let m = |c: Option<String>| Msg { ctxt: c, id: s("one"), plural: o("many"), tr: tr.clone() };
            judge(&[m(None), m(o("c"))], &Meta::new(), i % 3 == 0, (i % 2) as u32, rec)
        },
    ));
    // keys and values of metadata
    const ML: [&str; 8] = ["a", ":", " ", "=", ";", "\\", "é", "#"];
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "metadata-words",
        &format!("all texts of up to {n} of 8 letters as a metadata value, and those without a colon as its key, after and before another item, beside a message; key and value the same"),
        words_upto(8, n),
        move |i, rec| {
            let t = word_string(i, &ML);
            if t.trim() != t {
                return Ok(());
            }
            let cat = mo::catalogue();
            let (be, rev) = (i % 2 == 1, (i / 2 % 2) as u32);
            let meta = |k: &str, v: &str| -> Meta {
                [(s("Language"), s("es")), (s(k), s(v))].into_iter().collect()
            };
            judge(&cat[6..7], &meta("X-V", &t), be, rev, rec)?;
            judge(&cat[6..7], &meta("A", &t), be, rev, rec)?;
            if !t.is_empty() && !t.contains(':') {
                judge(&cat[6..7], &meta(&t, "v"), be, rev, rec)?;
                judge(&cat[6..7], &meta(&t, ""), be, rev, rec)?;
                judge(&cat[6..7], &meta(&t, &t), be, rev, rec)?;
            }
            Ok(())
        },
    ));
    // metadata items beside messages
    let keys = [
        ("Language", "es"),
        ("Project-Id-Version", ""),
        ("X-A", "a: b"),
        ("X-é", "中"),
        ("Plural-Forms", "nplurals=2; plural=(n != 1);"),
        ("Content-Type", "text/plain; charset=UTF-8"),
        ("x", "\\n"),
    ];
    v.push(space(
        "metadata",
        "all 128 subsets of 7 metadata items beside 0..=2 messages",
        128 * 3,
        move |i, rec| {
            let d = digits(i, &[128, 3]);
            let meta: Meta = keys
                .iter()
                .enumerate()
                .filter(|(k, _)| d[0] >> k & 1 == 1)
                .map(|(_, (a, b))| (s(a), s(b)))
                .collect();
            let cat = mo::catalogue();
            four(&cat[7 - d[1]..7], &meta, judge, rec)
        },
    ));
    // relations between the fields of one message and between messages
    let r = related_radices();
    v.push(space(
        "related",
        "one message whose context, source, plural source and up to 3 translations are drawn from the same three texts, alone and beside a neighbour",
        product(&r[..3]),
        move |i, rec| {
            let d = digits(i, &r[..3]);
            let e = match related(&[d[0], d[1], d[2], 0, 0, 0]) {
                Some(e) if e.plural.is_none() || !e.sp.is_empty() => e,
                _ => return Ok(()),
            };
            let m = as_msg(&e);
            for k in [0, 2, 8] {
                let other = as_msg(&twin(k * TWINS / 9));
                let metas = clean_metas();
                let meta = &metas[(i % 5) as usize];
                four(&[m.clone()], meta, judge, rec)?;
                if other.key() != m.key() {
                    four(&[m.clone(), other.clone()], meta, judge, rec)?;
                    four(&[other, m.clone()], meta, judge, rec)?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "twins",
        "every ordered triple of 36 small messages that may share source, context, plural or translation",
        36 * 36 * 36,
        move |i, rec| {
            let d = digits(i, &[36, 36, 36]);
            let msgs: Vec<Msg> = d.iter().map(|k| as_msg(&twin(*k))).collect();
            if (0..3).any(|k| msgs[k].key() == msgs[(k + 1) % 3].key()) {
                return Ok(());
            }
            judge(&msgs, &Meta::new(), i % 2 == 1, (i / 2 % 2) as u32, rec)
        },
    ));
    v.push(space(
        "similar",
        "every ordered pair of 62 similar texts as sources, as contexts, and as context of one and source of the other message",
        (SIMILAR.len() * SIMILAR.len() * 3) as u64,
        move |i, rec| {
            let d = digits(i, &[SIMILAR.len(), SIMILAR.len(), 3]);
            let mk = |k: usize, c: bool| Msg {
                ctxt: c.then(|| s(SIMILAR[k])),
                id: s(if c { "k" } else { SIMILAR[k] }),
                plural: None,
                tr: vec![format!("t{k}{c}")],
            };
            let msgs = [mk(d[0], d[2] > 0), mk(d[1], d[2] == 1)];
            if msgs[0].key() == msgs[1].key() {
                return Ok(());
            }
            judge(&msgs, &Meta::new(), i % 2 == 0, (i / 2 % 2) as u32, rec)
        },
    ));
    // every character in every field
    v.push(space(
        "scalars",
        "every Unicode scalar value except NUL and EOT in context, source, plural source, translations and metadata of three messages, beside its successor and case variants",
        SCALARS,
        move |i, rec| {
            let c = scalar(i);
            if c == '\0' || c == '\u{4}' {
                return Ok(());
            }
            let f = scalar_file(c);
            let mut msgs: Vec<Msg> = f.ents.iter().map(as_msg).collect();
            // its neighbours in order
            for t in [
                scalar((i + 1) % SCALARS).to_string(),
                c.to_lowercase().to_string(),
                c.to_uppercase().to_string(),
            ] {
                let m = Msg { ctxt: None, id: t, plural: None, tr: vec![s("n")] };
                if !msgs.iter().any(|x| x.key() == m.key())
                    && !m.id.contains(['\0', '\u{4}'])
                {
                    msgs.push(m);
                }
            }
            judge(&msgs, &f.meta, i % 2 == 0, (i / 2 % 2) as u32, rec)
        },
    ));
    // far more of everything
    let dims = [0, 1, 3, 8, 9, 10, 11, 12, 18, 20, 21];
    let sizes = counts(if quick { 20 } else { 300 }, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "sizes",
        "numbers of messages, plural forms, metadata items, and lengths of every text and of the common beginning of four, at the neighbours of the powers of two and ten up to 2^17; 62 similar texts in many orders",
        (dims.len() * n) as u64,
        move |i, rec| {
            let d = digits(i, &[dims.len(), n]);
            let f = match sized(dims[d[0]], sizes[d[1]]) {
                Some(f) => f,
                None => return Ok(()),
            };
            let msgs: Vec<Msg> = f.ents.iter().map(as_msg).collect();
            if msgs.iter().any(|m| m.key().is_empty()) {
                return Ok(());
            }
            judge(&msgs, &f.meta, i % 2 == 0, (i / 2 % 2) as u32, rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "model_checking",
        rule: "every enumerated message list is compiled by the real code, parsed by the real code and compared with the list; states are distinct byte images",
        assumptions: &[
            "messages of a file have distinct (context, source) pairs and none is the context-free empty source, which is the metadata; contexts and sources hold no EOT or NUL, plural parts no NUL: the format cannot carry those",
            "metadata keys hold no colon or newline and values no newline or outer blanks",
        ],
        spaces: |t| build(t, back),
    }
}

pub fn prop9() -> Prop {
    Prop {
        id: "C09",
        level: "model_checking",
        rule: "every enumerated message list is compiled by the real code and the bytes are judged by an independent reader of the GNU format with binary search; states are distinct byte images",
        assumptions: &[
            "same message domain as C08",
        ],
        spaces: |t| build(t, gnu),
    }
}
