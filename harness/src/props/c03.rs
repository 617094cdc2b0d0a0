//! C03: opening any input as PO never crashes, hangs or exhausts memory.

use super::c02::FRAGS;
use super::c05::BAD;
use crate::alloc;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::shapes::{some_scalar, SOME_SCALARS};
use rspolib::pofile;

pub const RICH: &str = "# Header line\n#\n#, fuzzy\nmsgid \"\"\nmsgstr \"\"\n\"Language: es\\n\"\n\"X-A:b\\n\"\n\n# tc\n#. gc é\n#: a.c:1 b.c\n#, c-format\n#| msgctxt \"pc\"\n#| msgid \"p\\\"m\"\n#| msgid_plural \"pp\"\n#| \"more\"\nmsgctxt \"ctx\"\nmsgid \"id\\n\"\n\"id2\"\nmsgid_plural \"ids\"\nmsgstr[0] \"s\\\\0\"\nmsgstr[1] \"\"\n\"s1 中\"\n\n#~ # old\n#~ msgid \"obs\"\n#~ msgstr \"tr\"\n#~| msgid \"x\"\n";

/// Memory allowed for an input of `len` bytes.
fn allowance(len: usize) -> u64 {
    (8 << 20) + 4096 * len as u64
}

pub fn survives(bytes: &[u8], rec: &mut Rec) -> Res {
    rec.case(bytes);
    rec.state(bytes);
    rec.trace(1);
    let text = std::str::from_utf8(bytes);
    let (ok, peak) = alloc::measure(|| match text {
        Ok(t) => pofile(t).is_ok(),
        Err(_) => pofile(bytes.to_vec()).is_ok(),
    });
    rec.nontrivial += ok as u64;
    ensure!(
        peak <= allowance(bytes.len()),
        "opening {} bytes used {peak} bytes of memory",
        bytes.len()
    );
    Ok(())
}

/// Invalid UTF-8 given as bytes must be an error unless ignored entirely.
fn by_bytes(bytes: &[u8], rec: &mut Rec) -> Res {
    rec.case(bytes);
    rec.state(bytes);
    rec.trace(1);
    let (r, peak) =
        alloc::measure(|| pofile(bytes.to_vec()).map(|f| f.to_string()));
    ensure!(
        peak <= allowance(bytes.len()),
        "opening {} bytes used {peak} bytes of memory",
        bytes.len()
    );
    if std::str::from_utf8(bytes).is_err() {
        ensure!(
            r.is_err(),
            "bytes that are not UTF-8 accepted as {:?}",
            r.unwrap()
        );
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    // lexical pieces, including torn ones
    const P: [&str; 26] = [
        "\n", " ", "\"", "\\", "#", "~", "|", ",", ":", ".", "msgid",
        "msgid_plural", "msgctxt", "msgstr", "[", "]", "0", "9999999999",
        "-", "é", "中", "\u{feff}", "\t", "\r", "\u{a0}", "a",
    ];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "pieces",
        &format!("all sequences of up to {n} of 26 lexical pieces"),
        words_upto(P.len(), n),
        move |i, rec| survives(word_string(i, &P).as_bytes(), rec),
    ));
    // the same pieces after each context
    let ctx = [
        "msgid \"a\"\nmsgstr ",
        "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[",
        "msgid \"a\"\nmsgstr \"b\"\n",
        "#| ",
        "#~ ",
        "#, ",
        "#: ",
        "#. ",
        "msgctxt \"",
        "msgid \"",
        "#| msgid \"x\"\n#| ",
        "msgid \"\"\nmsgstr \"\"\n\"",
        "#~ msgid \"a\"\n#~ msgstr[",
    ];
    let n = if quick { 4 } else { 5 };
    let per = words_upto(P.len(), n);
    v.push(space(
        "torn",
        &format!("13 unfinished contexts x all sequences of up to {n} pieces, alone and followed by a message"),
        per * ctx.len() as u64,
        move |i, rec| {
            let t = format!(
                "{}{}",
                ctx[(i / per) as usize],
                word_string(i % per, &P)
            );
            survives(t.as_bytes(), rec)?;
            survives(
                format!("{t}\nmsgid \"z\"\nmsgstr \"y\"\n").as_bytes(),
                rec,
            )
        },
    ));
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "fragments",
        &format!("all sequences of up to {n} of 36 line fragments, any order"),
        words_upto(FRAGS.len(), n),
        move |i, rec| survives(word_string(i, &FRAGS).as_bytes(), rec),
    ));
    let nb = BAD.len() as u64;
    let nf = FRAGS.len() as u64 + 1;
    v.push(space(
        "malformed",
        "every pair of malformed lines after up to two fragments",
        nb * nb * nf * nf,
        move |i, rec| {
            let d = digits(i, &[69, 69, 37, 37]);
            let fr = |k: usize| if k == 0 { "" } else { FRAGS[k - 1] };
            survives(
                format!(
                    "{}{}{}\n{}\n",
                    fr(d[2]),
                    fr(d[3]),
                    BAD[d[0]],
                    BAD[d[1]]
                )
                .as_bytes(),
                rec,
            )
        },
    ));
    // raw bytes
    const B: [u8; 14] = [
        b'"', b'\\', b'#', b'\n', b' ', b'm', 0, 0x80, 0xc3, 0xa9, 0xe4,
        0xff, 0xf0, b'~',
    ];
    let n = if quick { 6 } else { 7 };
    v.push(space(
        "bytes",
        &format!("all byte strings of length <= {n} over 14 bytes, given as bytes, alone; and length <= 3 inside a message; every single and every pair of bytes"),
        words_upto(B.len(), n) + 65536 + 256,
        move |i, rec| {
            let nw = words_upto(B.len(), n);
            if i >= nw {
                let j = i - nw;
                let b = if j < 256 {
                    vec![j as u8]
                } else {
                    let j = j - 256;
                    vec![(j >> 8) as u8, j as u8]
                };
                by_bytes(&b, rec)?;
                let mut c = b"msgid \"".to_vec();
                c.extend(&b);
                c.extend(b"\"\nmsgstr \"x\"\n");
                return by_bytes(&c, rec);
            }
            let b: Vec<u8> =
                word(i, B.len()).into_iter().map(|k| B[k]).collect();
            by_bytes(&b, rec)?;
            if i < words_upto(B.len(), 3) {
                for (pre, post) in [
                    ("msgid \"", "\"\nmsgstr \"x\"\n"),
                    ("# ", "\nmsgid \"a\"\nmsgstr \"x\"\n"),
                    ("msgid \"a\"\nmsgstr \"x\"\n", "\n"),
                    ("#, ", "\nmsgid \"a\"\nmsgstr \"x\"\n"),
                ] {
                    let mut c = pre.as_bytes().to_vec();
                    c.extend(&b);
                    c.extend(post.as_bytes());
                    by_bytes(&c, rec)?;
                }
            }
            Ok(())
        },
    ));
    // edits of a rich file, byte by byte
    let len = RICH.len() as u64;
    v.push(space(
        "edits",
        "every truncation of a rich file, and every replacement and insertion of each byte value at each position (as text and through a file for a part)",
        (len + 1) * 257,
        move |i, rec| {
            let p = (i / 257) as usize;
            let k = i % 257;
            let b = RICH.as_bytes();
            if k == 256 {
                survives(&b[..p], rec)?;
                return survives(&b[p..], rec);
            }
            let mut x = b.to_vec();
            x.insert(p, k as u8);
            by_bytes(&x, rec)?;
            let mut x = b.to_vec();
            if p < x.len() {
                x[p] = k as u8;
                by_bytes(&x, rec)?;
                survives(&x, rec)?;
            }
            Ok(())
        },
    ));
    let pairs = if quick { 1 } else { 6 };
    v.push(space(
        "two-edits",
        &format!("every pair of positions of a rich file overwritten by one of {pairs} pairs of characters"),
        len * len * pairs,
        move |i, rec| {
            let sub = [
                (b'"', b'\\'),
                (b'\n', b'"'),
                (b'#', b'\n'),
                (b'\\', b'\\'),
                (b' ', b' '),
                (b'\n', b'\n'),
            ][(i / (len * len)) as usize];
            let i = i % (len * len);
            let (p, q) = ((i / len) as usize, (i % len) as usize);
            let mut x = RICH.as_bytes().to_vec();
            x[p] = sub.0;
            x[q] = sub.1;
            survives(&x, rec)
        },
    ));
    // plural indexes: memory must not follow the number
    v.push(space(
        "plural-index",
        "every plural index 0..=70000 and every power of two and ten with neighbours up to 2^70, one message and 20 messages",
        70001 + 71 * 3 + 23 * 3,
        move |i, rec| {
            let idx: i128 = if i <= 70000 {
                i as i128
            } else if i <= 70000 + 71 * 3 {
                let j = i - 70001;
                (1i128 << (j / 3)) + (j % 3) as i128 - 1
            } else {
                let j = i - 70001 - 71 * 3;
                10i128.pow((j / 3) as u32) + (j % 3) as i128 - 1
            };
            let one = format!(
                "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[{idx}] \"c\"\n"
            );
            survives(one.as_bytes(), rec)?;
            if i % 64 == 0 || i > 70000 {
                survives(one.repeat(20).as_bytes(), rec)?;
            }
            Ok(())
        },
    ));
    // growth: time and memory in proportion
    let units: [&str; 16] = [
        "\"", "\\", "#", "a", "\n", "msgid \"a\"\nmsgstr \"b\"\n", "# c\n",
        "#: a:1 b:2\n", "#, x\n", "\"k: v\\n\"\n", "msgstr[0] \"a\"\n",
        "中", " ", "\"\"\n", "#| msgid \"a\"\n", "msgstr[999] \"\"\n",
    ];
    let heads = ["", "msgid \"", "msgid \"\"\nmsgstr \"\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"", "# "];
    let max = if quick { 16 } else { 18 };
    v.push(space(
        "growth",
        &format!("16 units repeated 2^0..2^{max} times after 5 heads"),
        16 * 5 * (max + 1),
        move |i, rec| {
            let d = digits(i, &[16, 5, max as usize + 1]);
            let n = 1usize << d[2];
            // quadratic handling of one growing field is tolerated, so the
            // longest repetitions are only used for short units
            let u = units[d[0]];
            let n = if u.len() > 2 { n.min(1 << 13) } else { n };
            let mut t = heads[d[1]].to_string();
            t.push_str(&u.repeat(n));
            survives(t.as_bytes(), rec)?;
            t.push_str("\"\nmsgstr \"x\"\n");
            survives(t.as_bytes(), rec)
        },
    ));
    const AT: [&str; 24] = [
        "_", "#_", "#~_", "#~ _", "#|_", "#| _", "#._", "#. _", "#,_",
        "#:_", "#: a_:_1", "msgid_ \"a\"", "msgid _", "msgid \"_",
        "msgid \"_\"", "msgid \"\\_\"", "msgid \"a\"_", "_\"a\"", "\"_",
        "msgstr[_] \"\"", "msgstr[_", "#~ msgid _", "#| msgid _",
        "#~| _",
    ];
    v.push(space(
        "scalars",
        "every Unicode scalar value of the basic plane, and the first and last 128 of the others, at 24 places of a line, alone, after a started message and inside a file",
        SOME_SCALARS,
        move |i, rec| {
            let c = some_scalar(i).to_string();
            for at in AT {
                let l = at.replace('_', &c);
                survives(l.as_bytes(), rec)?;
                survives(
                    format!("msgid \"a\"\n{l}\nmsgstr \"b\"\n").as_bytes(),
                    rec,
                )?;
                survives(
                    format!("msgid \"a\"\nmsgstr \"b\"\n{l}\n{l}\n").as_bytes(),
                    rec,
                )?;
            }
            Ok(())
        },
    ));
    // through files
    let n = if quick { 2 } else { 3 };
    let nf = words_upto(FRAGS.len(), n);
    v.push(space(
        "files",
        "file contents: fragment sequences, malformed lines, truncations and byte edits of a rich file, and odd paths",
        nf + 69 + len * 4 + 8,
        move |i, rec| {
            let mut bytes = vec![];
            if i < nf {
                bytes.extend(word_string(i, &FRAGS).bytes());
            } else if i < nf + 69 {
                bytes.extend(BAD[(i - nf) as usize].bytes());
            } else if i < nf + 69 + len * 4 {
                let j = i - nf - 69;
                let p = (j / 4) as usize;
                bytes.extend(RICH.as_bytes());
                match j % 4 {
                    0 => bytes.truncate(p),
                    1 => bytes[p] = 0xff,
                    2 => bytes[p] = 0,
                    _ => bytes[p] = 0x80,
                }
            } else {
                let j = i - nf - 69 - len * 4;
                let t = scratch().join("missing");
                let p = match j {
                    0 => "/".to_string(),
                    1 => scratch().to_str().unwrap().to_string(),
                    2 => "/dev/null".into(),
                    3 => t.to_str().unwrap().into(),
                    4 => "a\0b".into(),
                    5 => "x".repeat(5000),
                    6 => ".".into(),
                    _ => "".into(),
                };
                rec.case(p.as_bytes());
                rec.trace(1);
                let _ = pofile(p.as_str());
                return Ok(());
            }
            let path = scratch().join(format!("c03-{i}.po"));
            std::fs::write(&path, &bytes).unwrap();
            rec.case(&bytes);
            rec.trace(1);
            let (r, peak) = alloc::measure(|| {
                pofile(path.to_str().unwrap()).map(|f| f.to_string())
            });
            std::fs::remove_file(&path).ok();
            ensure!(
                peak <= allowance(bytes.len()),
                "opening a file of {} bytes used {peak} bytes of memory",
                bytes.len()
            );
            if std::str::from_utf8(&bytes).is_err() {
                ensure!(
                    r.is_err(),
                    "a file that is not UTF-8 accepted as {:?}",
                    r.unwrap()
                );
            }
            Ok(())
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "model_checking",
        rule: "every enumerated input is opened by the real library inside a watched process with a counting allocator: panic, abort, a case over 60 s, or memory above 8 MiB + 4096 x length is a violation",
        assumptions: &["memory proportionality constant 4096, fixed part 8 MiB"],
        spaces,
    }
}
