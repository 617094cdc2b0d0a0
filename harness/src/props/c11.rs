//! C11: compiling PO to MO contains exactly the translated messages.

use super::c08::{as_msg, clean_metas, Meta};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::mo;
use crate::model::*;
use crate::shapes::*;
use rspolib::{mofile, pofile, AsBytes, MOFile, POFile, SaveAsMOFile};

fn content(b: &[u8], be: bool, want: &[Msg], meta: &Meta, how: &str) -> Res {
    let r = match mo::conforms(b, be, 0) {
        Ok(r) => r,
        Err(e) => return bad(format!("{how}: {e}")),
    };
    let got = mo::read(b, &r);
    let mut w = want.to_vec();
    w.sort_by_key(|m| m.key());
    ensure!(
        got.msgs == w,
        "{how}: messages {:?} instead of {w:?}",
        got.msgs
    );
    ensure!(
        got.meta.as_ref() == Some(meta),
        "{how}: metadata {:?} instead of {meta:?}",
        got.meta
    );
    Ok(())
}

fn whole(f: &POFile, ents: &[Ent], meta: &Meta, disk: bool, rec: &mut Rec) -> Res {
    let want: Vec<Msg> =
        ents.iter().filter(|e| translated(e)).map(as_msg).collect();
    rec.trace(4);
    let before = Fil::of(f);
    let m = MOFile::from(f);
    let got: Vec<Msg> = m.entries.iter().map(Msg::of).collect();
    ensure!(
        got == want,
        "converted messages {got:?} instead of {want:?}"
    );
    ensure!(
        meta_of(&m.metadata) == *meta,
        "converted metadata {:?} instead of {meta:?}",
        m.metadata
    );
    let b = f.as_bytes().into_owned();
    rec.state(&b);
    content(&b, false, &want, meta, "bytes")?;
    content(&f.as_bytes_le(), false, &want, meta, "little endian bytes")?;
    content(&f.as_bytes_be(), true, &want, meta, "big endian bytes")?;
    if disk {
        let p = scratch().join(format!("c11-{:x}.mo", hash_bytes(&b)
            ^ std::thread::current().id().as_u64_ish()));
        f.save_as_mofile(p.to_str().unwrap());
        let disk = std::fs::read(&p).unwrap();
        let back = mofile(p.to_str().unwrap());
        std::fs::remove_file(&p).ok();
        content(&disk, false, &want, meta, "saved file")?;
        ensure!(
            back.is_ok_and(|x| x.entries.len() == want.len()),
            "saved file does not open with {} messages",
            want.len()
        );
    }
    ensure!(Fil::of(f) == before, "compiling changed the file");
    Ok(())
}

trait Ish {
    fn as_u64_ish(&self) -> u64;
}
impl Ish for std::thread::ThreadId {
    fn as_u64_ish(&self) -> u64 {
        hash_bytes(format!("{self:?}").as_bytes())
    }
}

fn both(ents: &[Ent], meta: &Meta, disk: bool, rec: &mut Rec) -> Res {
    let f = Fil {
        header: None,
        meta: meta.clone(),
        fuzzy: ents.len() % 2 == 1,
        ents: ents.to_vec(),
    };
    rec.case(format!("{f:?}").as_bytes());
    let po = f.po(78);
    whole(&po, ents, meta, disk, rec)?;
    // and of the file read back from text: obsolete messages move last,
    // which keeps the order of the translated ones
    let p = match pofile(po.to_string().as_str()) {
        Ok(p) => p,
        Err(e) => return bad(format!("own text rejected: {e}")),
    };
    whole(&p, ents, meta, false, rec)
}

/// Two translated messages of the same identity: none is left out, the order
/// in the compiled form is open.
fn repeated(ents: &[Ent], rec: &mut Rec) -> Res {
    let f = Fil { ents: ents.to_vec(), ..Default::default() };
    rec.case(format!("{f:?}").as_bytes());
    rec.trace(2);
    let po = f.po(78);
    let want: Vec<Msg> = ents.iter().map(as_msg).collect();
    let got: Vec<Msg> =
        MOFile::from(&po).entries.iter().map(Msg::of).collect();
    ensure!(
        got == want,
        "converted messages {got:?} instead of {want:?}"
    );
    for b in [po.as_bytes(), po.as_bytes_be()] {
        let n = match mofile(b.to_vec()) {
            Ok(m) => m.entries.len(),
            Err(e) => return bad(format!("own bytes rejected: {e}")),
        };
        ensure!(n == want.len(), "{n} messages instead of {}", want.len());
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let r = radices();
    v.push(space(
        "shapes",
        "every shape of one message: flags x translations with all patterns of empty plural forms x obsolete x context x other fields, alone and beside a translated and an untranslated message",
        product(&r),
        move |i, rec| {
            let e = shape(&digits(i, &r));
            let metas = clean_metas();
            let meta = &metas[(i % 5) as usize];
            both(&[e.clone()], meta, i % 8 == 0, rec)?;
            both(&[class(5, 1), e.clone(), class(1, 2)], meta, false, rec)?;
            // an obsolete or fuzzy message with the identity of another
            let mut twin = e.clone();
            twin.flags = vec!["fuzzy".into()];
            let mut old = e.clone();
            old.obsolete = true;
            both(&[twin, e, old], meta, false, rec)
        },
    ));
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "lists",
        &format!("all lists of up to {n} of 12 classes of messages"),
        words_upto(CLASSES, n),
        move |i, rec| {
            let ents: Vec<Ent> = word(i, CLASSES)
                .into_iter()
                .enumerate()
                .map(|(n, k)| class(k, n))
                .collect();
            both(&ents, &clean_metas()[(i % 5) as usize], i % 64 == 0, rec)
        },
    ));
    let max = if quick { 200 } else { 1000 };
    v.push(space(
        "many",
        &format!("files of 0..={max} messages of rotating classes"),
        (max + 1) * 3,
        move |i, rec| {
            let n = (i / 3) as usize;
            let ents: Vec<Ent> = (0..n)
                .map(|k| class((k * (1 + i as usize % 3)) % CLASSES, k))
                .collect();
            both(&ents, &clean_metas()[(i % 5) as usize], false, rec)
        },
    ));
    // relations between the fields of one message and between messages
    let r = related_radices();
    v.push(space(
        "related",
        "one message whose context, source, plural source, up to 3 translations, references, comments and previous strings are drawn from the same three texts (absent, empty, equal, differing in a final newline) x flags x obsolete",
        product(&r),
        move |i, rec| match related(&digits(i, &r)) {
            Some(e) => both(
                &[class(5, 1), e],
                &clean_metas()[(i % 5) as usize],
                i % 64 == 0,
                rec,
            ),
            None => Ok(()),
        },
    ));
    v.push(space(
        "twins",
        "every ordered pair of 144 small messages that may share source, context, plural or translation, obsolete or fuzzy; if both are translated with the same source and context, only that both are there is judged",
        (TWINS * TWINS) as u64,
        move |i, rec| {
            let d = digits(i, &[TWINS, TWINS]);
            let ents = [twin(d[0]), twin(d[1])];
            if ents.iter().all(translated)
                && ents[0].id == ents[1].id
                && ents[0].ctxt == ents[1].ctxt
            {
                return repeated(&ents, rec);
            }
            both(&ents, &Meta::new(), false, rec)
        },
    ));
    // every character in every field
    let n = if quick { SOME_SCALARS } else { SCALARS };
    v.push(space(
        "scalars",
        &format!("{n} Unicode scalar values in every text field of a plural, a singular and an obsolete message, and alone as translation and as plural translations"),
        n,
        move |i, rec| {
            let c = if quick { some_scalar(i) } else { scalar(i) };
            if c == '\0' || c == '\u{4}' {
                return Ok(());
            }
            let f = scalar_file(c);
            let mut ents = f.ents;
            let t = Some(c.to_string());
            ents.push(Ent { id: "k1".into(), s: t.clone(), ..Default::default() });
            ents.push(Ent {
                id: "l1".into(),
                plural: Some("ls".into()),
                sp: vec![c.to_string(), c.to_string()],
                ..Default::default()
            });
            ents.push(Ent { id: "m1".into(), tcomment: t, ..Default::default() });
            both(&ents, &f.meta, i % 256 == 0, rec)
        },
    ));
    // one flag or one plural form that decides, at every place among many
    let ns: Vec<usize> = counts(if quick { 40 } else { 150 }, 1 << 12);
    let places: Vec<(usize, usize)> = ns
        .iter()
        .flat_map(|n| {
            let all = if *n <= if quick { 40 } else { 150 } {
                (0..*n).collect()
            } else {
                vec![0, 1, *n / 2, *n - 2, *n - 1]
            };
            all.into_iter().map(move |p| (*n, p))
        })
        .collect();
    let np = places.len();
    v.push(space(
        "places",
        "the flag fuzzy among n flags and an empty form among n plural forms (up to 40 all places, neighbours of the powers of two and ten up to 2^12 some), singular and plural messages",
        (np * 3) as u64,
        move |i, rec| {
            let (n, p) = places[i as usize / 3];
            if i % 3 == 1 && n > 1000 {
                return Ok(());
            }
            let mut e = class(5, 0);
            e.plural = None;
            e.sp = vec![];
            e.s = Some("t".into());
            e.flags = vec![];
            if i % 3 > 0 {
                e.s = None;
                e.plural = Some("ps".into());
                e.sp = vec!["t".into(); if i % 3 == 1 { n } else { 2 }];
            }
            if i % 3 == 1 {
                e.sp[p] = String::new();
            } else {
                e.flags = (0..n).map(|j| format!("f{j}")).collect();
                e.flags[p] = "fuzzy".into();
            }
            both(&[e], &Meta::new(), false, rec)
        },
    ));
    let dims = [0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 15, 19, 20, 21];
    let sizes = counts(if quick { 20 } else { 100 }, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "sizes",
        "numbers of messages, plural forms, flags, metadata items, and lengths of every text and of the common beginning of four, at the neighbours of the powers of two and ten up to 2^17; 62 similar texts in many orders",
        (dims.len() * n) as u64,
        move |i, rec| {
            let d = digits(i, &[dims.len(), n]);
            match sized(dims[d[0]], sizes[d[1]]) {
                Some(f) => both(&f.ents, &f.meta, true, rec),
                None => Ok(()),
            }
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "model_checking",
        rule: "every enumerated PO file is converted, compiled in both byte orders and saved by the real code; an independent MO reader compares the content with the reference classification; states are distinct byte images",
        assumptions: &[
            "the order of translated messages with the same context and source is open; translated messages are not the context-free empty source",
            "a message has either a translation or a plural source with plural translations",
        ],
        spaces,
    }
}
