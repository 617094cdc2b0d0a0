//! C20: conversions between PO and MO keep the shared fields.

use super::c08::{as_msg, clean_metas, Meta};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::*;
use crate::mo;
use crate::model::*;
use crate::shapes::{
    counts, related, related_radices, scalar, scalar_file, sized, some_scalar,
    twin, DIMENSIONS, SCALARS, SOME_SCALARS,
};
use rspolib::{
    mofile, pofile, AsBytes, MOEntry, MOFile, POEntry, POFile, SaveAsPOFile,
};

fn entries(e: &Ent, rec: &mut Rec) -> Res {
    rec.case(format!("{e:?}").as_bytes());
    rec.state(format!("{e:?}").as_bytes());
    rec.trace(3);
    let p = e.po();
    let m = MOEntry::from(&p);
    ensure!(
        m.msgid == e.id
            && m.msgstr == e.s
            && m.msgid_plural == e.plural
            && m.msgstr_plural == e.sp
            && m.msgctxt == e.ctxt,
        "{e:?} converted to {m:?}"
    );
    let back = Ent::of(&POEntry::from(&m));
    let want = Ent {
        id: e.id.clone(),
        s: e.s.clone(),
        plural: e.plural.clone(),
        sp: e.sp.clone(),
        ctxt: e.ctxt.clone(),
        ..Default::default()
    };
    ensure!(back == want, "{m:?} converted to {back:?}");
    ensure!(
        MOEntry::from(&POEntry::from(&m)) == m,
        "{m:?} does not survive both conversions"
    );
    ensure!(Ent::of(&p) == *e, "conversion changed the message");
    Ok(())
}

fn file(msgs: &[Msg], meta: &Meta, width: usize, rec: &mut Rec) -> Res {
    let mut f = mo_file(msgs, meta);
    f.options.wrapwidth = width;
    rec.case(format!("{width} {meta:?} {msgs:?}").as_bytes());
    text(&f, msgs, meta, rec)?;
    // the same file as read from its bytes
    let mut f = match mofile(f.as_bytes().into_owned()) {
        Ok(f) => f,
        Err(e) => return bad(format!("own bytes rejected: {e}")),
    };
    f.options.wrapwidth = width;
    let mut sorted = msgs.to_vec();
    sorted.sort_by_key(|m| m.key());
    text(&f, &sorted, meta, rec)
}

fn text(f: &MOFile, msgs: &[Msg], meta: &Meta, rec: &mut Rec) -> Res {
    let text = f.to_string();
    rec.state(text.as_bytes());
    rec.trace(3);
    let p = match pofile(text.as_str()) {
        Ok(p) => p,
        Err(e) => return bad(format!("own text rejected: {e}: {text:?}")),
    };
    let got: Vec<Msg> = p
        .entries
        .iter()
        .map(|e| Msg::of(&MOEntry::from(e)))
        .collect();
    ensure!(
        got == msgs,
        "text holds messages {got:?} instead of {msgs:?}"
    );
    for e in &p.entries {
        let x = Ent::of(e);
        ensure!(
            !x.obsolete
                && x.flags.is_empty()
                && x.occ.is_empty()
                && x.comment.is_none()
                && x.tcomment.is_none(),
            "text invents fields: {x:?}"
        );
    }
    ensure!(
        meta_of(&p.metadata) == *meta,
        "text holds metadata {:?} instead of {meta:?}",
        p.metadata
    );
    // compiling gives the MO content of the translated messages
    let b = p.as_bytes().into_owned();
    let r = match mo::conforms(&b, false, 0) {
        Ok(r) => r,
        Err(e) => return bad(e),
    };
    let back = mo::read(&b, &r);
    let mut want: Vec<Msg> = msgs
        .iter()
        .filter(|m| {
            !m.tr.is_empty() && m.tr.iter().all(|t| !t.is_empty())
        })
        .cloned()
        .collect();
    want.sort_by_key(|m| m.key());
    ensure!(
        back.msgs == want,
        "compiled again: {:?} instead of {want:?}",
        back.msgs
    );
    ensure!(
        back.meta.as_ref() == Some(meta),
        "compiled again: metadata {:?}",
        back.meta
    );
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let m = menus(quick);
    let dev = Deviations::new(&m.radices(), if quick { 3 } else { 4 });
    v.push(space(
        "messages",
        &format!("every message differing from the plain one in up to {} fields, converted both ways", if quick { 3 } else { 4 }),
        dev.total,
        move |i, rec| entries(&m.ent(&dev.get(i)), rec),
    ));
    let cat: Vec<Msg> = mo::catalogue()
        .into_iter()
        .filter(|m| !m.trans().contains(&0) || m.plural.is_some())
        .collect();
    let n = if quick { 3 } else { 4 };
    let sel = selections(cat.len(), n);
    let size = sel.len() as u64;
    let c1 = cat.clone();
    v.push(space(
        "files",
        &format!("every ordered selection of up to {n} of {} messages, written as PO text at 4 widths and compiled again", cat.len()),
        size,
        move |i, rec| {
            let msgs: Vec<Msg> =
                sel[i as usize].iter().map(|k| c1[*k].clone()).collect();
            let meta = &clean_metas()[(i % 5) as usize];
            for w in [1, 20, 78, 1000] {
                file(&msgs, meta, w, rec)?;
            }
            Ok(())
        },
    ));
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "strings",
        &format!("every string of length <= {n} over 18 letters in every text position of a message"),
        words_upto(LETTERS.len(), n),
        move |i, rec| {
            let x = word_string(i, &LETTERS);
            let p = |c: Option<&str>, id: &str, pl: Option<&str>, tr: &[&str]| Msg {
                ctxt: c.map(String::from),
                id: s(id),
                plural: pl.map(String::from),
                tr: tr.iter().map(|t| s(t)).collect(),
            };
            let msgs = vec![
                p(Some(&x), "1", None, &["t"]),
                p(Some("c"), &format!("2{x}"), None, &[&x]),
                p(Some("d"), &x, Some(&x), &["t", &x]),
                p(None, &format!("{x}3"), Some("p"), &[&x, &x, "u"]),
            ];
            file(&msgs, &Meta::new(), 78, rec)
        },
    ));
    // texts at every width
    let tx = texts();
    let nt = tx.len();
    let max = if quick { 250 } else { 1000 };
    v.push(space(
        "widths",
        &format!("{nt} texts in every position at every width 0..={max}"),
        (nt * (max + 1)) as u64,
        move |i, rec| {
            let d = digits(i, &[nt, max + 1]);
            let x = &tx[d[0]];
            // NUL separates plural forms
            let x = &x.replace('\0', "0");
            let msgs = vec![
                Msg { ctxt: Some(x.clone()), id: format!("1{x}"), plural: None, tr: vec![x.clone()] },
                Msg { ctxt: None, id: s("2"), plural: Some(x.clone()), tr: vec![x.clone(), s("z")] },
            ];
            file(&msgs, &Meta::new(), d[1], rec)
        },
    ));
    let texts = [None, Some(""), Some("a"), Some("b")];
    let n = if quick { 3 } else { 4 };
    v.push(space(
        "both",
        &format!("messages with every combination of source, context, translation, plural source and up to {n} plural translations over 3 texts, kinds of translation that exclude each other included"),
        4 * 4 * 4 * 4 * words_upto(3, n),
        move |i, rec| {
            let d = digits(i % 256, &[4, 4, 4, 4]);
            let opt = |k: usize| texts[k].map(String::from);
            entries(
                &Ent {
                    id: opt(d[0]).unwrap_or("c".into()),
                    ctxt: opt(d[1]),
                    s: opt(d[2]),
                    plural: opt(d[3]),
                    sp: word(i / 256, 3)
                        .into_iter()
                        .map(|k| opt(k + 1).unwrap())
                        .collect(),
                    ..Default::default()
                },
                rec,
            )
        },
    ));
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "lists",
        &format!("files built from every list of up to {n} of 16 archetypal messages"),
        words_upto(ARCHETYPES, n),
        move |i, rec| {
            let ents: Vec<Ent> = word(i, ARCHETYPES)
                .into_iter()
                .enumerate()
                .map(|(at, k)| Ent {
                    line: 7 * at + 1,
                    ..archetype(k, k)
                })
                .collect();
            rec.trace(2);
            let po: Vec<POEntry> = ents.iter().map(|e| e.po()).collect();
            let f = POFile::from(po.iter().collect::<Vec<_>>());
            ensure!(
                f.entries == po
                    && f.entries.iter().map(Ent::of).eq(ents.iter().cloned())
                    && f.metadata.is_empty() && f.header.is_none(),
                "PO file of {ents:?} holds {:?}",
                f.entries
            );
            let mo: Vec<MOEntry> = po.iter().map(MOEntry::from).collect();
            let g = MOFile::from(mo.iter().collect::<Vec<_>>());
            ensure!(
                g.entries == mo && g.metadata.is_empty(),
                "MO file of {ents:?} holds {:?}",
                g.entries
            );
            rec.state(f.to_string().as_bytes());
            Ok(())
        },
    ));
    v.push(space(
        "saved",
        "every pair of messages saved as a PO file",
        (cat.len() * cat.len()) as u64,
        move |i, rec| {
            let d = digits(i, &[cat.len(), cat.len()]);
            let mut msgs = vec![cat[d[0]].clone(), cat[d[1]].clone()];
            if d[0] == d[1] {
                msgs.pop();
            }
            let f = mo_file(&msgs, &clean_metas()[2]);
            rec.trace(1);
            let t = hash_bytes(format!("{:?}", std::thread::current().id()).as_bytes());
            let p = scratch().join(format!("c20-{t:x}.po"));
            f.save_as_pofile(p.to_str().unwrap());
            let got = std::fs::read(&p).unwrap();
            std::fs::remove_file(&p).ok();
            ensure!(
                got == f.to_string().into_bytes(),
                "saved text differs from the rendered one"
            );
            Ok(())
        },
    ));
    // relations between the fields of one message and between messages
    let r = related_radices();
    v.push(space(
        "related",
        "one message whose context, source, plural source, up to 3 translations, references, comments and previous strings are drawn from the same three texts (absent, empty, equal, differing in a final newline) x flags x obsolete, converted, and written as text and compiled again",
        product(&r),
        move |i, rec| {
            let d = digits(i, &r);
            let e = match related(&d) {
                Some(e) => e,
                None => return Ok(()),
            };
            entries(&e, rec)?;
            if d[3..] == [0, 0, 0] && (e.plural.is_none() || !e.sp.is_empty()) {
                let m = as_msg(&e);
                let meta = &clean_metas()[(i % 5) as usize];
                file(&[m.clone()], meta, 78, rec)?;
                let x = Msg { id: s("x"), tr: vec![s("a")], ..Default::default() };
                file(&[x, m], meta, 5, rec)?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "twins",
        "every ordered pair of 36 small messages that may share source, context, plural or translation",
        36 * 36,
        move |i, rec| {
            let d = digits(i, &[36, 36]);
            let msgs = [as_msg(&twin(d[0])), as_msg(&twin(d[1]))];
            if msgs[0].key() == msgs[1].key() {
                return Ok(());
            }
            file(&msgs, &Meta::new(), 78, rec)
        },
    ));
    // every character in every field
    let n = if quick { SOME_SCALARS } else { SCALARS };
    v.push(space(
        "scalars",
        &format!("{n} Unicode scalar values in every field of three messages, converted, and written as text and compiled again"),
        n,
        move |i, rec| {
            let c = if quick { some_scalar(i) } else { scalar(i) };
            let f = scalar_file(c);
            for e in &f.ents {
                entries(e, rec)?;
            }
            if c == '\0' || c == '\u{4}' {
                return Ok(());
            }
            let msgs: Vec<Msg> = f.ents.iter().map(as_msg).collect();
            file(&msgs, &f.meta, [78, 3][i as usize % 2], rec)
        },
    ));
    let sizes = counts(if quick { 20 } else { 100 }, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "sizes",
        "numbers of messages, plural forms, flags, references, comment lines and metadata items, and lengths of every text, at the neighbours of the powers of two and ten up to 2^17",
        (DIMENSIONS * n) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, n]);
            let f = match sized(d[0], sizes[d[1]]) {
                Some(f) => f,
                None => return Ok(()),
            };
            for e in &f.ents {
                entries(e, rec)?;
            }
            let po: Vec<POEntry> = f.ents.iter().map(|e| e.po()).collect();
            let g = POFile::from(po.iter().collect::<Vec<_>>());
            ensure!(
                g.entries == po,
                "PO file of {} messages holds {}",
                po.len(),
                g.entries.len()
            );
            let mo: Vec<MOEntry> = po.iter().map(MOEntry::from).collect();
            let g = MOFile::from(mo.iter().collect::<Vec<_>>());
            ensure!(
                g.entries == mo,
                "MO file of {} messages holds {}",
                mo.len(),
                g.entries.len()
            );
            let msgs: Vec<Msg> = f.ents.iter().map(as_msg).collect();
            if [0, 1, 3, 8, 9, 10, 11, 12, 18].contains(&d[0])
                && msgs.iter().all(|m| !m.key().is_empty())
                && (!quick || sizes[d[1]] < 20_000)
            {
                file(&msgs, &f.meta, 78, rec)?;
            }
            Ok(())
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "model_checking",
        rule: "every enumerated message and file is converted by the real code and compared field by field; texts are parsed and compiled again and judged by an independent MO reader; states are distinct texts and messages",
        assumptions: &[
            "messages of a file have distinct (context, source) pairs, none is the context-free empty source, and texts hold no NUL and sources no EOT",
        ],
        spaces,
    }
}
