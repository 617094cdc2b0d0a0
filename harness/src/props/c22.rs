//! C22: any valid MO file is read faithfully whatever its layout.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::mo;
use crate::model::*;
use crate::shapes::{counts, scalar, scalar_file, SCALARS};
use rspolib::{mofile, MAGIC, MAGIC_SWAPPED};

type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

fn faithful(pairs: &Pairs, l: &mo::Layout, rec: &mut Rec) -> Res {
    let b = mo::write(pairs, l);
    rec.case(format!("{l:?} {pairs:?}").as_bytes());
    rec.state(&b);
    rec.trace(1 + pairs.len() as u64);
    // the generated file is sound, judged by the independent reader
    let r = mo::raw(&b).unwrap();
    let want = mo::read(&b, &r);
    let direct: Vec<_> = r
        .pairs(&b)
        .iter()
        .map(|(o, t)| (o.to_vec(), t.to_vec()))
        .collect();
    assert!(direct == *pairs, "generator does not hold its pairs");
    let f = match mofile(b) {
        Ok(f) => f,
        Err(e) => return bad(format!("valid file rejected: {e}")),
    };
    let got: Vec<Msg> = f.entries.iter().map(Msg::of).collect();
    ensure!(
        got == want.msgs,
        "messages {got:?} instead of {:?}",
        want.msgs
    );
    for (e, m) in f.entries.iter().zip(&want.msgs) {
        mo::plural_msgstr(e, rec)?;
        if m.plural.is_none() {
            ensure!(
                e.msgstr.as_deref() == Some(&m.tr[0]),
                "translation {:?} instead of {:?}",
                e.msgstr,
                m.tr[0]
            );
        }
    }
    if let Some(meta) = &want.meta {
        ensure!(
            meta_of(&f.metadata) == *meta,
            "metadata {:?} instead of {meta:?}",
            f.metadata
        );
    }
    let magic = if l.be { MAGIC_SWAPPED } else { MAGIC };
    ensure!(
        f.magic_number == Some(magic) && f.version == Some(l.rev),
        "byte order {:?} or revision {:?} misreported",
        f.magic_number,
        f.version
    );
    Ok(())
}

fn catalogs() -> Vec<Pairs> {
    let cat = mo::catalogue();
    let meta = |t: &str| (vec![], t.as_bytes().to_vec());
    let m = |k: usize| (cat[k].orig(), cat[k].trans());
    vec![
        vec![],
        vec![meta("Language: es\nX-A: b\n")],
        vec![m(0)],
        vec![meta("Language: es\n"), m(0), m(4), m(2)],
        // unsorted, metadata not first: an ordinary empty message
        vec![m(7), meta("Language: es\n"), m(0)],
        // equal and suffix strings
        vec![
            meta("xab"),
            (b"ab".to_vec(), b"b".to_vec()),
            (b"b".to_vec(), b"ab".to_vec()),
            (b"xab".to_vec(), b"xab".to_vec()),
            (b"c\x04ab".to_vec(), vec![]),
        ],
        vec![meta(""), m(8), m(16), m(6), m(21), m(23)],
        // separators in odd places
        vec![
            (b"c\x04i\x04d".to_vec(), b"t".to_vec()),
            (b"i\0p\x04q".to_vec(), b"t\0u".to_vec()),
            (b"\x04".to_vec(), b"\0".to_vec()),
            (b"\0".to_vec(), b"\0".to_vec()),
            (b"s".to_vec(), b"a\0b\0c".to_vec()),
        ],
    ]
}

fn layout(d: &[usize], order: Vec<usize>) -> mo::Layout {
    mo::Layout {
        be: d[0] == 1,
        rev: d[1] as u32,
        order,
        gaps: [0; 5],
        fill: [0u8, 0xff, b'x'][d[2]],
        hash: [0u32, 7, 3][d[3]],
        share: d[4] % 2 == 1,
        tails: d[4] / 2 == 1,
        reverse: d[5] == 1,
        junk: d[6] == 1,
    }
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let perms = permutations(5);
    let r = [2, 2, 3, 3, 4, 2, 2, 120, 8, 6];
    v.push(space(
        "layouts",
        "8 catalogs x 120 orders of the regions x 6 gap patterns x sharing, tails, reversal, hash table sizes, filler, byte order and revision",
        product(&r),
        {
            let cats = catalogs();
            move |i, rec| {
                let d = digits(i, &r);
                let mut l = layout(&d, perms[d[7]].clone());
                l.gaps = [
                    [0, 0, 0, 0, 0],
                    [1, 0, 0, 0, 0],
                    [0, 3, 0, 0, 2],
                    [4, 4, 4, 4, 4],
                    [0, 1, 7, 2, 0],
                    [100, 0, 0, 300, 0],
                ][d[9]];
                if quick && (d[2] == 2 || d[9] == 4) {
                    return Ok(());
                }
                faithful(&cats[d[8]], &l, rec)
            }
        },
    ));
    let n = if quick { 4 } else { 7 };
    v.push(space(
        "gaps",
        &format!("every combination of gaps 0..={n} before the five regions, in 4 orders"),
        ((n + 1) as u64).pow(5) * 4,
        {
            let cats = catalogs();
            move |i, rec| {
                let m = n + 1;
                let d = digits(i, &[m, m, m, m, m, 4]);
                let mut l = mo::Layout::plain(i % 2 == 1, (i / 2 % 2) as u32);
                l.order = [
                    vec![0, 1, 4, 2, 3],
                    vec![2, 3, 0, 1, 4],
                    vec![1, 0, 3, 2, 4],
                    vec![4, 3, 1, 2, 0],
                ][d[5]]
                    .clone();
                l.gaps = [d[0], d[1], d[2], d[3], d[4]];
                l.fill = 0xee;
                l.hash = 7;
                faithful(&cats[3], &l, rec)
            }
        },
    ));
    // all orders of messages, with the empty string anywhere
    let cat = mo::catalogue();
    let n = if quick { 3 } else { 4 };
    let sel = selections(cat.len() + 1, n);
    let size = sel.len() as u64;
    v.push(space(
        "messages",
        &format!("all ordered selections of up to {n} of 24 messages and the metadata, in table order as given"),
        size,
        move |i, rec| {
            let pairs: Pairs = sel[i as usize]
                .iter()
                .map(|&k| match cat.get(k) {
                    Some(m) => (m.orig(), m.trans()),
                    None => (vec![], b"Language: es\nX: y".to_vec()),
                })
                .collect();
            for be in [false, true] {
                let mut l = mo::Layout::plain(be, i as u32 % 2);
                faithful(&pairs, &l, rec)?;
                l.order = vec![3, 2, 1, 0, 4];
                l.share = true;
                l.hash = 7;
                faithful(&pairs, &l, rec)?;
            }
            Ok(())
        },
    ));
    // the same texts again, stored once or several times
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "repeated",
        &format!("every list of up to {n} of 12 pairs of the same few texts, repeated originals and translations included, with and without metadata, stored apart and shared"),
        words_upto(12, n) * 2,
        move |i, rec| {
            let mut pairs: Pairs = vec![];
            if i % 2 == 1 {
                pairs.push((vec![], b"Language: es\n".to_vec()));
            }
            for k in word(i / 2, 12) {
                let d = digits(k as u64, &[3, 4]);
                pairs.push((
                    [&b"a"[..], b"c\x04a", b"a\0x"][d[0]].to_vec(),
                    [&b"a"[..], b"x", b"", b"a\0x"][d[1]].to_vec(),
                ));
            }
            for share in [false, true] {
                let mut l = mo::Layout::plain(i / 2 % 2 == 1, 0);
                l.share = share;
                l.tails = share;
                faithful(&pairs, &l, rec)?;
            }
            Ok(())
        },
    ));
    // all contents of one pair over letters with separators
    const L: [u8; 6] = [b'a', 0, 4, b'\n', 0xc3, 0xa9];
    let n = if quick { 4 } else { 5 };
    let w = words_upto(6, n) as usize;
    let w2 = words_upto(6, if quick { 3 } else { 4 }) as usize;
    v.push(space(
        "contents",
        &format!("one pair with every original of length <= {n} and every translation of length <= {} over a, NUL, EOT, newline and the bytes of é", n - 1),
        (w * w2) as u64,
        move |i, rec| {
            let d = digits(i, &[w, w2]);
            let mk = |k: usize| -> Vec<u8> {
                word(k as u64, 6).into_iter().map(|x| L[x]).collect()
            };
            let (a, b) = (mk(d[0]), mk(d[1]));
            // text is UTF-8 and at most one NUL separates a plural
            if std::str::from_utf8(&a).is_err()
                || std::str::from_utf8(&b).is_err()
                || a.iter().filter(|c| **c == 0).count() > 1
            {
                return Ok(());
            }
            let l = mo::Layout::plain(i % 2 == 1, (i / 2 % 2) as u32);
            faithful(&vec![(a.clone(), b.clone())], &l, rec)?;
            faithful(&vec![(b"0".to_vec(), b"1".to_vec()), (a, b)], &l, rec)
        },
    ));
    // metadata texts
    const M: [&str; 8] = ["A", ":", " ", "\n", "b", "é", "\t", "A: b\n"];
    let n = if quick { 6 } else { 7 };
    v.push(space(
        "metadata",
        &format!("every leading metadata text of up to {n} of 8 pieces"),
        words_upto(M.len(), n),
        move |i, rec| {
            let x = word_string(i, &M);
            let l = mo::Layout::plain(i % 2 == 1, 0);
            faithful(
                &vec![
                    (vec![], x.into_bytes()),
                    (b"id".to_vec(), b"tr".to_vec()),
                ],
                &l,
                rec,
            )
        },
    ));
    let max = if quick { 300u64 } else { 2000 };
    let many = counts(max as usize, 1 << 17);
    v.push(space(
        "many",
        &format!("files of 0..={max} messages, and at the neighbours of the powers of two and ten up to 2^17, with a hash table, in 3 layouts, without metadata, with it and with it last"),
        (many.len() * 9) as u64,
        move |i, rec| {
            let mut d = digits(i, &[3, 3, many.len()]);
            d[2] = many[d[2]];
            if d[2] > max as usize && d[0] > 0 {
                return Ok(());
            }
            let mut pairs: Pairs = (0..d[2])
                .map(|k| {
                    (
                        format!("id{:06}", (k * 7919) % 1000003).into_bytes(),
                        vec![b'x'; k % 300],
                    )
                })
                .collect();
            let meta = (vec![], b"Language: es\n".to_vec());
            match d[1] {
                0 => {}
                1 => pairs.insert(0, meta),
                _ => pairs.push(meta),
            }
            let mut l = mo::Layout::plain(i % 2 == 1, (i / 2 % 2) as u32);
            l.hash = 2 * d[2] as u32 + 3;
            l.order = [
                vec![0, 1, 4, 2, 3],
                vec![4, 3, 2, 1, 0],
                vec![2, 0, 3, 1, 4],
            ][d[0]]
                .clone();
            l.tails = d[0] == 1 && d[2] < 50;
            faithful(&pairs, &l, rec)
        },
    ));
    // every character in every string
    v.push(space(
        "scalars",
        "every Unicode scalar value except NUL and EOT in context, source, plural source, translations and metadata",
        SCALARS,
        move |i, rec| {
            let c = scalar(i);
            if c == '\0' || c == '\u{4}' {
                return Ok(());
            }
            let f = scalar_file(c);
            let mut pairs: Pairs = f
                .ents
                .iter()
                .map(|e| {
                    let m = super::c08::as_msg(e);
                    (m.orig(), m.trans())
                })
                .collect();
            pairs.insert(0, (vec![], format!("X-K: x{c}x\n").into_bytes()));
            faithful(
                &pairs,
                &mo::Layout::plain(i % 2 == 1, (i / 2 % 2) as u32),
                rec,
            )
        },
    ));
    let sizes = counts(if quick { 20 } else { 300 }, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "sizes",
        "texts, plural forms, gaps, hash tables and metadata of each size at the neighbours of the powers of two and ten up to 2^17",
        (n * 7) as u64,
        move |i, rec| {
            let d = digits(i, &[7, n]);
            let n = sizes[d[1]];
            let mut l = mo::Layout::plain(i % 2 == 1, (i / 2 % 2) as u32);
            let x = "x".repeat(n);
            let mut pairs: Pairs = vec![
                (vec![], b"Language: es\n".to_vec()),
                (b"id".to_vec(), b"tr".to_vec()),
                (b"ids\0p".to_vec(), b"a\0b".to_vec()),
            ];
            match d[0] {
                0 => pairs[1].0 = format!("c\u{4}i{x}").into_bytes(),
                1 => pairs[1].1 = x.into_bytes(),
                2 => pairs[2].1 = vec!["f"; n.clamp(1, 5000)].join("\0").into_bytes(),
                3 => l.gaps[i as usize % 5] = n,
                4 => l.hash = n as u32,
                5 => pairs[0].1 = format!("X: {x}\n").into_bytes(),
                _ => pairs[2].0 = format!("c{x}\u{4}i\0{x}").into_bytes(),
            }
            faithful(&pairs, &l, rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "model_checking",
        rule: "every enumerated arrangement is written by an independent writer of the GNU format, read by the real code and compared message by message; states are distinct byte images",
        assumptions: &[
            "strings are UTF-8 text; an original holds at most one NUL",
            "metadata is compared when its lines are distinct keys without outer blanks, each with a colon",
        ],
        spaces,
    }
}
