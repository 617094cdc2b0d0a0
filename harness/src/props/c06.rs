//! C06: string escaping is lossless, single-line and strict.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use rspolib::escaping::{escape, unescape};

fn both(text: &str, rec: &mut Rec) -> Res {
    rec.case(text.as_bytes());
    rec.trace(3);
    let e = escape(text).into_owned();
    rec.state(e.as_bytes());
    ensure!(
        e == ref_escape(text),
        "escape({text:?}) = {e:?}, expected {:?}",
        ref_escape(text)
    );
    ensure!(
        !e.contains(['\n', '\r', '\t', '\u{8}']),
        "escape({text:?}) = {e:?} holds a raw control character"
    );
    // no unescaped quote, no incomplete escape
    let mut esc = false;
    for c in e.chars() {
        if esc {
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else {
            ensure!(c != '"', "escape({text:?}) = {e:?}: bare quote");
        }
    }
    ensure!(!esc, "escape({text:?}) = {e:?}: incomplete escape");
    match unescape(&e) {
        Ok(b) => {
            ensure!(b == text, "{text:?} comes back as {b:?} via {e:?}")
        }
        Err(x) => return bad(format!("unescape({e:?}) fails: {x}")),
    }
    // the text itself taken as escaped
    let got = unescape(text).ok().map(|x| x.into_owned());
    let want = ref_unescape(text);
    ensure!(
        got == want,
        "unescape({text:?}) = {got:?}, expected {want:?}"
    );
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    const A: [&str; 12] = [
        "\\", "\"", "n", "\n", "a", "\r", "\t", "é", "t", "\u{8}", "b",
        "\u{11}",
    ];
    let n = if quick { 6 } else { 7 };
    v.push(space(
        "strings",
        &format!("all strings of length <= {n} over 12 letters, escaped and back, and taken as escaped text"),
        words_upto(A.len(), n),
        move |i, rec| both(&word_string(i, &A), rec),
    ));
    const B: [&str; 13] = [
        "\\", "\"", "n", "r", "t", "b", "v", "f", "x", "中", " ", "0",
        "\u{12}",
    ];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "escapes",
        &format!("all strings of length <= {n} over 13 letters of escape sequences"),
        words_upto(B.len(), n),
        move |i, rec| both(&word_string(i, &B), rec),
    ));
    v.push(space(
        "scalars",
        "every Unicode scalar value c: c, \\c, \\\\c, c\\, \"c, c\\n, xc\\\"c, \\nc\\t",
        0x110000,
        move |i, rec| {
            let c = match char::from_u32(i as u32) {
                Some(c) => c,
                None => return Ok(()),
            };
            for t in [
                format!("{c}"),
                format!("\\{c}"),
                format!("\\\\{c}"),
                format!("{c}\\"),
                format!("\"{c}"),
                format!("{c}\\n"),
                format!("x{c}\\\"{c}"),
                format!("\\n{c}\\t"),
            ] {
                both(&t, rec)?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "ascii",
        "every text of 3 ASCII characters, alone and after a backslash",
        1 << 21,
        move |i, rec| {
            let t: String = [i >> 14, i >> 7 & 127, i & 127]
                .iter()
                .map(|c| *c as u8 as char)
                .collect();
            both(&t, rec)?;
            both(&format!("\\{t}"), rec)
        },
    ));
    const N: [&str; 8] = ["\\", "\"", "n", "a", " ", "\n", "7", "é"];
    let words = words_upto(8, 2);
    v.push(space(
        "around",
        "each of 256 characters, with and without a backslash, between all texts of up to 2 of 8 letters",
        256 * words * words,
        move |i, rec| {
            let c = char::from_u32((i % 256) as u32).unwrap();
            let a = word_string(i / 256 % words, &N);
            let b = word_string(i / 256 / words, &N);
            both(&format!("{a}{c}{b}"), rec)?;
            both(&format!("{a}\\{c}{b}"), rec)
        },
    ));
    let max = if quick { 300 } else { 3000 };
    v.push(space(
        "runs",
        &format!("runs of 0..={max} of each of 25 pieces, alone and around every other piece"),
        (max + 1) * 25 * 25,
        move |i, rec| {
            let all: Vec<&str> = A.iter().chain(B.iter()).copied().collect();
            let d = digits(i, &[25, 25, max as usize + 1]);
            let run = all[d[0]].repeat(d[2]);
            both(&format!("{run}{}", all[d[1]]), rec)?;
            if d[2] <= 40 {
                both(&format!("{}{run}{}", all[d[1]], all[d[1]]), rec)?;
            }
            Ok(())
        },
    ));
    // in PO files, as in C, \v is a vertical tab and \f a form feed
    v.push(space(
        "c-escapes",
        "the escapes \\v and \\f as the PO format defines them",
        2,
        move |i, rec| {
            let (e, sig, want) = [
                ("\\v", "vertical-tab", "\u{b}"),
                ("\\f", "form-feed", "\u{c}"),
            ][i as usize];
            rec.case(e.as_bytes());
            rec.trace(1);
            match unescape(e).map(|x| x.into_owned()) {
                Ok(x) if x == want => Ok(()),
                Ok(x) if ref_unescape(e).as_deref() == Some(&x) => {
                    Err(Fail::Sig(
                        sig,
                        format!("unescape({e:?}) = {x:?} instead of {want:?}"),
                    ))
                }
                x => bad(format!("unescape({e:?}) = {x:?} instead of {want:?}")),
            }
        },
    ));
    let sizes = crate::shapes::counts(0, 1 << 17);
    let n = sizes.len();
    v.push(space(
        "far-runs",
        "runs of each of 25 pieces around each power of two and ten up to 2^17, before and after each of 4 pieces",
        (n * 25 * 4) as u64,
        move |i, rec| {
            let all: Vec<&str> = A.iter().chain(B.iter()).copied().collect();
            let d = digits(i, &[25, 4, n]);
            let run = all[d[0]].repeat(sizes[d[2]]);
            let x = ["\\", "\"", "a", "\n"][d[1]];
            both(&format!("{run}{x}"), rec)?;
            both(&format!("{x}{run}"), rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "model_checking",
        rule: "every enumerated string goes through the real escape and unescape and is compared with a reference transducer; states are distinct escaped strings",
        assumptions: &[],
        spaces,
    }
}
