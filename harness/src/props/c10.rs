//! C10: reading MO input never crashes and never invents content.

use crate::alloc;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::mo;
use crate::model::*;
use rspolib::mofile;

fn allowance(len: usize, total: u64) -> u64 {
    (8 << 20) + 4096 * len as u64 + 16 * total
}

/// Opens the bytes and compares with the independent reader.
pub fn judge(b: &[u8], rec: &mut Rec) -> Res {
    rec.case(b);
    rec.state(b);
    rec.trace(1);
    let want = mo::raw(b);
    let total = want.as_ref().map(|r| r.total).unwrap_or(0);
    let copy = b.to_vec();
    let (got, peak) = alloc::measure(move || mofile(copy));
    ensure!(
        peak <= allowance(b.len(), total),
        "opening {} bytes used {peak} bytes of memory",
        b.len()
    );
    let f = match got {
        Err(e) => {
            // an error is acceptable for whatever is not fully valid
            if let Ok(r) = &want {
                let full = mo::read(b, r);
                let valid = !r.empty_outside
                    && !full.odd
                    && !full.binary
                    && b.len() >= 28
                    && terminated(b, r);
                ensure!(!valid, "a valid file is rejected: {e}");
            }
            return Ok(());
        }
        Ok(f) => f,
    };
    rec.nontrivial += 1;
    let r = match want {
        Ok(r) => r,
        Err(e) => {
            return bad(format!(
                "accepted although {e}: {:?}",
                f.entries
            ))
        }
    };
    let full = mo::read(b, &r);
    ensure!(
        f.version == Some(r.rev),
        "revision {:?} instead of {}",
        f.version,
        r.rev
    );
    if full.odd {
        // more than one NUL in an original: only the count is settled
        ensure!(
            f.entries.len() == full.msgs.len(),
            "{} messages instead of {}",
            f.entries.len(),
            full.msgs.len()
        );
        return Ok(());
    }
    let got: Vec<Msg> = f.entries.iter().map(Msg::of).collect();
    ensure!(
        got == full.msgs,
        "messages {got:?} instead of {:?}",
        full.msgs
    );
    if let Some(meta) = &full.meta {
        ensure!(
            meta_of(&f.metadata) == *meta,
            "metadata {:?} instead of {meta:?}",
            f.metadata
        );
    }
    Ok(())
}

fn terminated(b: &[u8], r: &mo::Raw) -> bool {
    r.orig
        .iter()
        .chain(&r.trans)
        .all(|(o, l)| b.get((*o as u64 + *l as u64) as usize) == Some(&0))
}

pub fn bases() -> Vec<Vec<u8>> {
    let cat = mo::catalogue();
    let pick = |v: &[usize]| -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut p: Vec<_> =
            v.iter().map(|&k| (cat[k].orig(), cat[k].trans())).collect();
        p.push((vec![], b"Language: es\n".to_vec()));
        p.sort();
        p
    };
    let mut out = vec![];
    for be in [false, true] {
        let mut l = mo::Layout::plain(be, 0);
        out.push(mo::write(&[], &l));
        out.push(mo::write(&pick(&[]), &l));
        out.push(mo::write(&pick(&[0, 4]), &l));
        l.rev = 1;
        l.hash = 5;
        l.order = vec![0, 1, 4, 2, 3];
        out.push(mo::write(&pick(&[3, 7, 8]), &l));
        l.order = vec![3, 1, 2, 0, 4];
        l.share = true;
        out.push(mo::write(&pick(&[0, 2]), &l));
    }
    out
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    // short inputs
    const B: [u8; 9] = [0xde, 0x12, 0x04, 0x95, 0, 1, 2, 0xff, b'a'];
    let n = if quick { 6 } else { 8 };
    v.push(space(
        "short",
        &format!("all byte strings of length <= {n} over 9 bytes"),
        words_upto(B.len(), n),
        move |i, rec| {
            let b: Vec<u8> =
                word(i, B.len()).into_iter().map(|k| B[k]).collect();
            judge(&b, rec)
        },
    ));
    v.push(space(
        "magic",
        "all byte strings of length <= 2, and every single byte of the magic number replaced by every value in a valid file",
        1 + 256 + 65536 + 10 * 4 * 256,
        move |i, rec| {
            if i < 1 + 256 + 65536 {
                let b: Vec<u8> =
                    word(i, 256).into_iter().map(|k| k as u8).collect();
                return judge(&b, rec);
            }
            let d = digits(i - 65793, &[256, 4, 10]);
            let mut b = bases()[d[2]].clone();
            b[d[1]] = d[0] as u8;
            judge(&b, rec)
        },
    ));
    // headers made of words
    let words: [u32; 12] = [
        0, 1, 2, 3, 8, 20, 28, 36, 44, 0x7fff_ffff, 0xffff_fff8, 0xffff_ffff,
    ];
    let n = if quick { 5 } else { 7 };
    v.push(space(
        "headers",
        &format!("both magic numbers followed by all sequences of up to {n} of 12 words, cut 0..=3 bytes short, and with a zero tail"),
        words_upto(12, n) * 2,
        move |i, rec| {
            let be = i % 2 == 1;
            let mut b = if be { mo::BE.to_vec() } else { mo::LE.to_vec() };
            for k in word(i / 2, 12) {
                b.extend(mo::bytes(words[k], be));
            }
            judge(&b, rec)?;
            for cut in 1..4 {
                if b.len() > cut + 3 {
                    judge(&b[..b.len() - cut], rec)?;
                }
            }
            b.extend([0; 16]);
            judge(&b, rec)
        },
    ));
    let base = bases();
    let maxlen = base.iter().map(|b| b.len()).max().unwrap();
    v.push(space(
        "cut",
        "every prefix and every suffix of 10 valid files, and every prefix followed by 1..=3 zero or 0xff bytes",
        (base.len() * (maxlen + 1)) as u64,
        move |i, rec| {
            let d = digits(i, &[base.len(), maxlen + 1]);
            let b = &base[d[0]];
            if d[1] > b.len() {
                return Ok(());
            }
            judge(&b[..d[1]], rec)?;
            judge(&b[d[1]..], rec)?;
            for k in 1..4 {
                for c in [0u8, 0xff] {
                    let mut x = b[..d[1]].to_vec();
                    x.extend(std::iter::repeat(c).take(k));
                    judge(&x, rec)?;
                }
            }
            Ok(())
        },
    ));
    let base = bases();
    v.push(space(
        "bytes",
        "every byte of 10 valid files replaced by every value, deleted, and doubled",
        (base.len() * maxlen * 256) as u64,
        move |i, rec| {
            let d = digits(i, &[256, base.len(), maxlen]);
            let b = &base[d[1]];
            if d[2] >= b.len() {
                return Ok(());
            }
            let mut x = b.clone();
            x[d[2]] = d[0] as u8;
            judge(&x, rec)?;
            if d[0] == 0 {
                let mut x = b.clone();
                x.remove(d[2]);
                judge(&x, rec)?;
                let mut x = b.clone();
                x.insert(d[2], b[d[2]]);
                judge(&x, rec)?;
            }
            Ok(())
        },
    ));
    // words: every value up to the length and the extremes
    let base = bases();
    let maxw = maxlen / 4;
    let vals = maxlen + 24;
    v.push(space(
        "words",
        "every 32-bit word of 10 valid files replaced by every value from 0 to the length + 4, and by values around 2^16, 2^24, 2^31 and 2^32",
        (base.len() * maxw * vals) as u64,
        move |i, rec| {
            let d = digits(i, &[vals, maxw, base.len()]);
            let b = &base[d[2]];
            if (d[1] + 1) * 4 > b.len() {
                return Ok(());
            }
            let val = match d[0].checked_sub(b.len() + 5) {
                None => d[0] as u32,
                Some(k) => match EXTREMES.get(k) {
                    Some(x) => *x,
                    None => return Ok(()),
                },
            };
            judge(&with(b, d[1], val), rec)
        },
    ));
    let base = bases();
    let few = if quick { 20 } else { 30 };
    let nb = base.len();
    v.push(space(
        "word-pairs",
        &format!("every pair of header and table words of 10 valid files replaced by every pair of {few} values around 0, the length and 2^31, 2^32"),
        (nb * 31 * 31 * few * few) as u64,
        move |i, rec| {
            let d = digits(i, &[few, few, 31, 31, nb]);
            let b = &base[d[4]];
            // structure words: header and both tables
            let r = mo::raw(b).unwrap();
            let mut at: Vec<usize> = (1..7).collect();
            for t in [r.otab, r.ttab] {
                at.extend(
                    (0..2 * r.n as usize).map(|k| t as usize / 4 + k),
                );
            }
            // tables are word-aligned only in some layouts
            if (r.otab | r.ttab) % 4 != 0 {
                at.truncate(6);
            }
            at.sort();
            if d[2] >= d[3] || d[3] >= at.len() {
                return Ok(());
            }
            let vals = values(b.len(), few);
            let x = with(b, at[d[2]], vals[d[0]]);
            judge(&with(&x, at[d[3]], vals[d[1]]), rec)
        },
    ));
    // headers that name many strings in small and large inputs
    let sizes = [28usize, 64, 1000, 65536];
    v.push(space(
        "counts",
        "string counts 0..=64 and 2^k-1..=2^k+1 in inputs of 28, 64, 1000 and 65536 zero bytes, tables at 12 offsets",
        2 * (65 + 3 * 32) * 4 * 12,
        move |i, rec| {
            let d = digits(i, &[2, 65 + 96, 4, 12]);
            let be = d[0] == 1;
            let n = if d[1] < 65 {
                d[1] as u32
            } else {
                let k = (d[1] - 65) / 3;
                (1u32 << k).wrapping_add((d[1] - 65) as u32 % 3).wrapping_sub(1)
            };
            let len = sizes[d[2]];
            let mut b = vec![0u8; len];
            b[..4].copy_from_slice(if be { &mo::BE } else { &mo::LE });
            let off = [
                0u32, 4, 20, 28, 36, 64, 992, 1000, 65528, 65536,
                0xffff_fff8, 0xffff_ffff,
            ][d[3]];
            for (p, w) in [(8, n), (12, off), (16, off)] {
                b[p..p + 4].copy_from_slice(&mo::bytes(w, be));
            }
            judge(&b, rec)
        },
    ));
    // through a file
    v.push(space(
        "path",
        "every prefix of 10 valid files read from a path",
        (bases().len() * (maxlen + 1)) as u64,
        move |i, rec| {
            let base = bases();
            let d = digits(i, &[base.len(), maxlen + 1]);
            if d[1] > base[d[0]].len() {
                return Ok(());
            }
            let b = &base[d[0]][..d[1]];
            rec.case(b);
            rec.trace(1);
            let p = scratch().join(format!("c10-{i}.mo"));
            std::fs::write(&p, b).unwrap();
            let got = mofile(p.to_str().unwrap());
            std::fs::remove_file(&p).unwrap();
            let bytes = mofile(b.to_vec());
            match (got, bytes) {
                (Ok(x), Ok(y)) => ensure!(
                    x.entries == y.entries && x.metadata == y.metadata,
                    "file and bytes differ"
                ),
                (Err(_), Err(_)) => {}
                (x, y) => {
                    return bad(format!(
                        "file {:?}, bytes {:?}",
                        x.is_ok(),
                        y.is_ok()
                    ))
                }
            }
            Ok(())
        },
    ));
    // binary strings: every byte pair as original and translation
    v.push(space(
        "binary",
        "every pair of bytes as an original and as a translation, with and without a following letter",
        65536 * 2,
        move |i, rec| {
            let d = digits(i, &[256, 256, 2]);
            let x = [d[0] as u8, d[1] as u8];
            let l = mo::Layout::plain(d[2] == 1, 0);
            let y = [d[0] as u8, b'a', d[1] as u8];
            judge(&mo::write(&[(x.to_vec(), b"t".to_vec())], &l), rec)?;
            judge(&mo::write(&[(b"o".to_vec(), x.to_vec()), (y.to_vec(), y.to_vec())], &l), rec)?;
            judge(&mo::write(&[(vec![], x.to_vec())], &l), rec)
        },
    ));
    v
}

const EXTREMES: [u32; 19] = [
    0xfff, 0xffff, 0x1_0000, 0x1_0001, 0xff_ffff, 0x100_0000, 0x7fff_fff0,
    0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xde12_0495, 0x9504_12de,
    0xffff_ff00, 0xffff_fff0, 0xffff_fff8, 0xffff_fffc, 0xffff_fffd,
    0xffff_fffe, 0xffff_ffff,
];

fn values(len: usize, n: usize) -> Vec<u32> {
    let l = len as u32;
    let v = [
        0, 1, 2, l, l - 1, 0xffff_ffff, 28, 0x8000_0000, 0xffff_fff8, l - 8,
        3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 24, 36, l + 1, l - 2, l - 4, l / 2,
        0xffff, 0x7fff_ffff, 0xffff_fffc, 0xffff_ffff - l,
    ];
    v[..n].to_vec()
}

fn with(b: &[u8], word: usize, val: u32) -> Vec<u8> {
    let be = b[..4] == mo::BE;
    let mut x = b.to_vec();
    if let Some(s) = x.get_mut(4 * word..4 * word + 4) {
        s.copy_from_slice(&mo::bytes(val, be));
    }
    x
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "model_checking",
        rule: "every enumerated byte string is opened by the real reader and the outcome compared with an independent reader of the format; states are distinct byte strings",
        assumptions: &[
            "strings that are not UTF-8 may be rejected or read with replacement characters; a zero-length string named outside the input, a header cut in its unused hash words and originals with more than one NUL may be accepted or rejected",
            "memory is bounded by 8 MiB + 4096 bytes per input byte + 16 bytes per byte of the strings the tables name (tables may legally share one string many times)",
        ],
        spaces,
    }
}
