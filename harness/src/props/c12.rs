//! C12: message classification and statistics are consistent.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::mo;
use crate::model::*;
use crate::shapes::*;
use rspolib::{mofile, pofile, MOEntry, POEntry, POFile, TranslatedEntry};

fn ptrs(v: &[&POEntry]) -> Vec<*const POEntry> {
    v.iter().map(|e| *e as *const POEntry).collect()
}

fn judge(f: &POFile, rec: &mut Rec) -> Res {
    rec.trace(5);
    let ents: Vec<Ent> = f.entries.iter().map(Ent::of).collect();
    let pick = |p: &dyn Fn(&Ent) -> bool| -> Vec<*const POEntry> {
        f.entries
            .iter()
            .zip(&ents)
            .filter(|(_, e)| p(e))
            .map(|(x, _)| x as *const POEntry)
            .collect()
    };
    let fuzzy = |e: &Ent| e.flags.iter().any(|x| x == "fuzzy");
    let lists: [(&str, Vec<*const POEntry>, Vec<*const POEntry>); 4] = [
        (
            "translated",
            ptrs(&f.translated_entries()),
            pick(&|e| translated(e)),
        ),
        (
            "untranslated",
            ptrs(&f.untranslated_entries()),
            pick(&|e| !translated(e)),
        ),
        (
            "fuzzy",
            ptrs(&f.fuzzy_entries()),
            pick(&|e| fuzzy(e) && !e.obsolete),
        ),
        (
            "obsolete",
            ptrs(&f.obsolete_entries()),
            pick(&|e| e.obsolete),
        ),
    ];
    let at = |v: &[*const POEntry]| -> Vec<usize> {
        v.iter()
            .map(|p| {
                f.entries
                    .iter()
                    .position(|e| std::ptr::eq(e, *p))
                    .unwrap_or(usize::MAX)
            })
            .collect()
    };
    for (name, got, want) in &lists {
        ensure!(
            got == want,
            "{name} messages {:?} instead of {:?}",
            at(got),
            at(want)
        );
    }
    for (e, m) in f.entries.iter().zip(&ents) {
        ensure!(
            e.translated() == translated(m),
            "translated() of {m:?} is {}",
            e.translated()
        );
        ensure!(e.fuzzy() == fuzzy(m), "fuzzy() of {m:?}");
        // an MO message has neither of the marks
        let plain = Ent { obsolete: false, flags: vec![], ..m.clone() };
        let mo = MOEntry::from(e);
        ensure!(
            mo.translated() == translated(&plain),
            "translated() of the MO form of {m:?} is {}",
            mo.translated()
        );
    }
    let (t, n) = (lists[0].2.len(), ents.len());
    let p = f.percent_translated();
    let want = if n == 0 { 0.0 } else { 100.0 * t as f64 / n as f64 };
    ensure!(
        (0.0..=100.0).contains(&p) && (p as f64 - want).abs() < 1e-3,
        "{t} of {n} translated reported as {p} %"
    );
    ensure!((t == 0) == (p == 0.0), "{t} of {n} reported as {p} %");
    ensure!(
        (t == n && n > 0) == (p == 100.0),
        "{t} of {n} reported as {p} %"
    );
    Ok(())
}

fn both(ents: &[Ent], rec: &mut Rec) -> Res {
    let f = Fil { ents: ents.to_vec(), ..Default::default() };
    rec.case(format!("{ents:?}").as_bytes());
    rec.state(format!("{ents:?}").as_bytes());
    let po = f.po(78);
    judge(&po, rec)?;
    match pofile(po.to_string().as_str()) {
        Ok(p) => judge(&p, rec),
        Err(e) => bad(format!("own text rejected: {e}")),
    }
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let r = radices();
    v.push(space(
        "shapes",
        "every shape of one message: flags x translations with all patterns of empty plural forms x obsolete x context x other fields, alone and between two others",
        product(&r),
        move |i, rec| {
            let e = shape(&digits(i, &r));
            both(&[e.clone()], rec)?;
            both(&[class(0, 1), e.clone(), class(1, 2)], rec)
        },
    ));
    // flags: fuzzy at every position among other flags
    const F: [&str; 6] =
        ["fuzzy", "c-format", "FUZZY", "fuzzyx", "no-fuzzy", "fuzz"];
    v.push(space(
        "flags",
        "all lists of up to 5 of 6 flags on a translated, untranslated, obsolete and plural message",
        words_upto(6, 5) * 4,
        move |i, rec| {
            let w = word(i / 4, 6);
            let mut e = class([0, 1, 3, 5][(i % 4) as usize], 0);
            e.flags = w.into_iter().map(|k| F[k].to_string()).collect();
            both(&[e], rec)
        },
    ));
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "lists",
        &format!("all lists of up to {n} of 12 classes of messages"),
        words_upto(CLASSES, n),
        move |i, rec| {
            let ents: Vec<Ent> = word(i, CLASSES)
                .into_iter()
                .enumerate()
                .map(|(n, k)| class(k, n))
                .collect();
            both(&ents, rec)
        },
    ));
    let max = if quick { 60u64 } else { 160 };
    v.push(space(
        "percent",
        &format!("every number of translated, untranslated and obsolete messages up to {max} in all"),
        (max + 1) * (max + 1) * 3,
        move |i, rec| {
            let m = max as usize + 1;
            let d = digits(i, &[m, m, 3]);
            let (n, t) = (d[0], d[1]);
            if t > n {
                return Ok(());
            }
            let ents: Vec<Ent> = (0..n)
                .map(|k| {
                    let tr = match d[2] {
                        0 => k < t,
                        1 => k >= n - t,
                        _ => (k * 7) % n.max(1) < t && n % 7 != 0 || (n % 7 == 0 && k < t),
                    };
                    class(if tr { 0 } else { [1, 3, 2][(k + d[2]) % 3] }, k)
                })
                .collect();
            let f = Fil { ents, ..Default::default() }.po(78);
            rec.state(format!("{d:?}").as_bytes());
            judge(&f, rec)
        },
    ));
    v.push(space(
        "large",
        "files of 2^k-1, 2^k and 2^k+1 messages up to 2^12 with none, one, all but one and all translated",
        12 * 3 * 4,
        move |i, rec| {
            let d = digits(i, &[4, 3, 12]);
            let n = (1usize << (d[2] + 1)) + d[1] - 1;
            let ents: Vec<Ent> = (0..n)
                .map(|k| {
                    let tr = match d[0] {
                        0 => false,
                        1 => k == n / 2,
                        2 => k != n / 2,
                        _ => true,
                    };
                    class(if tr { 0 } else { 1 }, k)
                })
                .collect();
            rec.state(format!("{d:?}").as_bytes());
            judge(&Fil { ents, ..Default::default() }.po(78), rec)
        },
    ));
    // relations between the fields of one message and between messages
    let r = related_radices();
    // messages as they come out of MO files
    const P: [&str; 4] = ["", "x", " ", "\u{4}"];
    let n = if quick { 5 } else { 8 };
    let w = words_upto(4, n) - 1;
    v.push(space(
        "read",
        &format!("one message of an MO file: up to {n} plural translations (each empty, a letter, a blank or EOT), or one translation, with and without context, both byte orders"),
        w * 8,
        move |i, rec| {
            let d = digits(i, &[w as usize, 2, 2, 2]);
            let tr: Vec<String> =
                word(d[0] as u64 + 1, 4).iter().map(|k| P[*k].into()).collect();
            if d[1] == 0 && tr.len() > 1 {
                return Ok(());
            }
            let m = Msg {
                ctxt: (d[2] == 1).then(|| "c".into()),
                id: "a".into(),
                plural: (d[1] == 1).then(|| "b".into()),
                tr,
            };
            let pairs = [(vec![], b"K: v\n".to_vec()), (m.orig(), m.trans())];
            let b = mo::write(&pairs, &mo::Layout::plain(d[3] == 1, 0));
            rec.case(format!("{m:?}").as_bytes());
            rec.state(&b);
            rec.trace(3);
            let f = match mofile(b) {
                Ok(f) => f,
                Err(e) => return bad(format!("{m:?} is rejected: {e}")),
            };
            let e = &f.entries[0];
            let want = m.tr.iter().all(|x| !x.is_empty());
            ensure!(
                e.translated() == want,
                "{m:?} read from an MO file: translated() is {}",
                e.translated()
            );
            let p = POEntry::from(e);
            ensure!(
                p.translated() == want,
                "{m:?} read from an MO file, as PO message: translated() is {}",
                p.translated()
            );
            judge(&POFile::from(vec![&p]), rec)
        },
    ));
    v.push(space(
        "related",
        "one message whose context, source, plural source, up to 3 translations, references, comments and previous strings are drawn from the same three texts (absent, empty, equal, differing in a final newline) x flags x obsolete",
        product(&r),
        move |i, rec| match related(&digits(i, &r)) {
            Some(e) => both(&[class(5, 1), e], rec),
            None => Ok(()),
        },
    ));
    v.push(space(
        "twins",
        "every ordered pair of 144 small messages that may share source, context, plural or translation, obsolete or fuzzy",
        (TWINS * TWINS) as u64,
        move |i, rec| {
            let d = digits(i, &[TWINS, TWINS]);
            both(&[twin(d[0]), twin(d[1])], rec)
        },
    ));
    // every character in every field
    v.push(space(
        "scalars",
        "every Unicode scalar value alone as translation and as plural translations, in comments and beside the flag fuzzy",
        SCALARS,
        move |i, rec| {
            let c = scalar(i);
            let t = Some(c.to_string());
            let e = |id: &str| Ent { id: id.into(), ..Default::default() };
            let ents = [
                Ent { s: t.clone(), ..e("k") },
                Ent {
                    plural: Some("ls".into()),
                    sp: vec![c.to_string(), c.to_string()],
                    ..e("l")
                },
                Ent {
                    tcomment: t.clone(),
                    comment: t.clone(),
                    pid: t.clone(),
                    ctxt: t.clone(),
                    ..e("m")
                },
                Ent { s: t, obsolete: true, ..e("n") },
                Ent {
                    s: Some("x".into()),
                    flags: vec![
                        c.to_string(),
                        format!("fuzzy{c}"),
                        format!("{c}fuzzy"),
                    ],
                    ..e("o")
                },
            ];
            rec.state(&i.to_le_bytes());
            judge(&Fil { ents: ents.to_vec(), ..Default::default() }.po(78), rec)?;
            if i < if quick { 0x3000 } else { SCALARS }
                && c != '\r'
                && c != '\n'
            {
                both(&ents[..4], rec)?;
            }
            Ok(())
        },
    ));
    // one flag or one plural form that decides, at every place among many
    let ns: Vec<usize> = counts(if quick { 40 } else { 150 }, 1 << 12);
    let places: Vec<(usize, usize)> = ns
        .iter()
        .flat_map(|n| {
            let all = if *n <= if quick { 40 } else { 150 } {
                (0..*n).collect()
            } else {
                vec![0, 1, *n / 2, *n - 2, *n - 1]
            };
            all.into_iter().map(move |p| (*n, p))
        })
        .collect();
    let np = places.len();
    v.push(space(
        "places",
        "the flag fuzzy among n flags and an empty form among n plural forms (up to 40 all places, neighbours of the powers of two and ten up to 2^12 some), singular and plural messages",
        (np * 3) as u64,
        move |i, rec| {
            let (n, p) = places[i as usize / 3];
            if i % 3 == 1 && n > 1000 {
                return Ok(());
            }
            let mut e = class(5, 0);
            e.plural = None;
            e.sp = vec![];
            e.s = Some("t".into());
            e.flags = vec![];
            if i % 3 > 0 {
                e.s = None;
                e.plural = Some("ps".into());
                e.sp = vec!["t".into(); if i % 3 == 1 { n } else { 2 }];
            }
            if i % 3 == 1 {
                e.sp[p] = String::new();
            } else {
                e.flags = (0..n).map(|j| format!("f{j}")).collect();
                e.flags[p] = "fuzzy".into();
            }
            both(&[e], rec)
        },
    ));
    let r = vec![4, 2, 124, 2, 5, 9];
    v.push(space(
        "empty-source",
        "messages in memory with an empty source and no or an empty context, every shape, alone and between two others",
        product(&r),
        move |i, rec| {
            let d = digits(i, &r);
            // the context is dropped again, or left empty
            let mut e = related(&[0, 1, d[2], d[3], d[4], d[5]]).unwrap();
            if d[1] == 0 {
                e.ctxt = None;
            }
            let mut f = Fil::default();
            if d[0] & 1 > 0 {
                f.ents.push(class(1, 0));
            }
            f.ents.push(e);
            if d[0] & 2 > 0 {
                f.ents.push(class(3, 1));
            }
            judge(&f.po(78), rec)
        },
    ));
    let sizes = counts(if quick { 20 } else { 100 }, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "sizes",
        "numbers of messages, plural forms, flags, references, comment lines, and lengths of every text, at the neighbours of the powers of two and ten up to 2^17",
        (DIMENSIONS * n) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, n]);
            let f = match sized(d[0], sizes[d[1]]) {
                Some(f) => f,
                None => return Ok(()),
            };
            judge(&f.po(78), rec)?;
            let mut f = f;
            for e in &mut f.ents {
                e.flags.push("fuzzy".into());
            }
            judge(&f.po(78), rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "every enumerated file is classified by the real code and compared with the reference classification, built in memory and read back from its text; states are distinct files",
        assumptions: &[
            "a message has either a translation or a plural source with plural translations",
        ],
        spaces,
    }
}
