//! C07: line wrapping preserves text, respects the width and breaks legally.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::*;
use crate::model::*;
use crate::shapes::{
    counts, scalar, sized, some_scalar, DIMENSIONS, SCALARS, SOME_SCALARS,
};
use unicode_width::UnicodeWidthChar;

/// Width, lower and upper bound: summing characters and measuring the string
/// differ for emoji sequences and control characters.
fn widths(s: &str) -> (usize, usize) {
    let a = width(s);
    let b = s.chars().map(|c| c.width().unwrap_or(0)).sum();
    (a.min(b), a.max(b))
}

/// The lines of one string field, without marker and keyword.
fn pieces(
    lines: &mut std::iter::Peekable<std::vec::IntoIter<String>>,
    mark: &str,
    kw: &str,
) -> Result<Vec<String>, Fail> {
    let mut out = vec![];
    let first = lines.next();
    let body = first
        .as_deref()
        .and_then(|l| l.strip_prefix(mark))
        .and_then(|l| l.strip_prefix(kw))
        .and_then(|l| l.strip_prefix(" \""))
        .and_then(|l| l.strip_suffix('"'));
    match body {
        Some(b) => out.push(b.to_string()),
        None => {
            return bad(format!("expected a {mark}{kw} line, got {first:?}"))
        }
    }
    while let Some(l) = lines.peek() {
        match l
            .strip_prefix(mark)
            .and_then(|l| l.strip_prefix('"'))
            .and_then(|l| l.strip_suffix('"'))
        {
            Some(b) => out.push(b.to_string()),
            None => break,
        }
        lines.next();
    }
    Ok(out)
}

pub fn field(segs: &[String], kw: &str, text: &str, w: usize) -> Res {
    let esc = ref_escape(text);
    ensure!(
        segs.concat() == esc,
        "lines {segs:?} do not join to {esc:?}"
    );
    let name = kw.split('[').next().unwrap().len();
    let (lo, hi) = widths(&esc);
    if segs.len() == 1 {
        ensure!(
            lo + name + 1 <= w || legal_breaks(&esc).is_empty(),
            "{kw} {esc:?} on one line at width {w}"
        );
        return Ok(());
    }
    ensure!(
        hi + name + 1 > w,
        "{kw} {esc:?} fits width {w} but is split as {segs:?}"
    );
    ensure!(
        segs[0].is_empty(),
        "{kw} split over lines does not start with an empty one: {segs:?}"
    );
    let legal = legal_breaks(&esc);
    let mut at = 0;
    let body = &segs[1..];
    for (i, s) in body.iter().enumerate() {
        let (a, b) = (at, at + s.len());
        if widths(s).0 > w {
            let inner: Vec<&usize> =
                legal.iter().filter(|p| **p > a && **p < b).collect();
            ensure!(
                inner.is_empty(),
                "line {s:?} is wider than {w} and could be broken"
            );
        }
        if i + 1 < body.len() {
            ensure!(
                legal.contains(&b),
                "illegal break between {s:?} and {:?}",
                body[i + 1]
            );
            let next =
                legal.iter().copied().find(|p| *p > b).unwrap_or(esc.len());
            ensure!(
                widths(&esc[a..b]).1 + widths(&esc[b..next]).1 >= w,
                "break after {s:?} although {:?} fits width {w}",
                &esc[b..next]
            );
        }
        at = b;
    }
    Ok(())
}

fn comment(
    lines: &mut std::iter::Peekable<std::vec::IntoIter<String>>,
    mark: &str,
    text: &str,
    w: usize,
) -> Res {
    for src in text.split('\n') {
        let src = src.trim_end();
        let full = width(src) + mark.len();
        if src.is_empty() {
            // blank comment lines may go
            while lines
                .peek()
                .map(|l| l.trim_end() == mark.trim_end())
                .unwrap_or(false)
            {
                lines.next();
            }
            continue;
        }
        let legal = legal_breaks(src);
        let mut pos = 0;
        let mut n = 0;
        while src[pos..].trim() != "" {
            let l = lines.next();
            let body = match l.as_deref().and_then(|l| l.strip_prefix(mark)) {
                Some(b) => b.to_string(),
                None => {
                    return bad(format!(
                        "comment {src:?}: rest {:?} missing, got {l:?}",
                        &src[pos..]
                    ))
                }
            };
            if body.trim().is_empty() {
                continue;
            }
            n += 1;
            let rest = &src[pos..];
            let skip = rest.len() - rest.trim_start().len();
            let lead = body.len() - body.trim_start().len();
            // blanks before the body are those of the source
            ensure!(
                rest[skip..].starts_with(body.trim()),
                "comment {src:?}: line {body:?} where {rest:?} is left"
            );
            if n == 1 && full <= w {
                ensure!(
                    body.trim_end() == src,
                    "comment line {src:?} fits {w} but is written {body:?}"
                );
            }
            let _ = lead;
            let start = pos + skip;
            let end = start + body.trim().len();
            if pos > 0 {
                ensure!(
                    legal.iter().any(|b| *b >= pos && *b <= start),
                    "comment {src:?} broken illegally before {body:?}"
                );
            }
            if widths(body.trim_end()).0 + mark.len() > w {
                ensure!(
                    !legal.iter().any(|b| {
                        *b > start && !src[*b..end.max(*b)].trim().is_empty()
                    }),
                    "comment line {body:?} is wider than {w} and could be broken"
                );
            }
            if end < src.len() {
                // broken only when the next piece did not fit
                let b = legal.iter().copied().find(|b| *b >= end);
                if let Some(b) = b {
                    let next = legal
                        .iter()
                        .copied()
                        .find(|p| *p > b)
                        .unwrap_or(src.len());
                    ensure!(
                        widths(&src[pos..next]).1 + mark.len() >= w,
                        "comment {src:?} broken after {body:?} although more fits {w}"
                    );
                }
            }
            pos = end;
        }
    }
    Ok(())
}

fn refs(
    lines: &mut std::iter::Peekable<std::vec::IntoIter<String>>,
    occ: &[(String, String)],
    w: usize,
) -> Res {
    let mut want: Vec<String> = occ
        .iter()
        .map(|(a, b)| {
            if b.is_empty() {
                a.clone()
            } else {
                format!("{a}:{b}")
            }
        })
        .collect();
    want.reverse();
    while !want.is_empty() {
        let l = lines.next();
        let line = match l.as_deref() {
            Some(x) => x,
            None => return bad(format!("references {want:?} missing")),
        };
        let body = match line.strip_prefix("#: ") {
            Some(b) => b,
            None => {
                return bad(format!("references {want:?} missing at {line:?}"))
            }
        };
        let items: Vec<&str> = body.split(' ').collect();
        for i in &items {
            let x = want.pop();
            ensure!(
                x.as_deref() == Some(*i),
                "reference {i:?} written where {x:?} was due"
            );
        }
        ensure!(
            widths(line).0 <= w || items.len() == 1,
            "reference line {line:?} is wider than {w}"
        );
        if let Some(next) = want.last() {
            ensure!(
                widths(line).1 + 1 + widths(next).1 > w,
                "reference {next:?} fits after {line:?} at {w}"
            );
        }
    }
    Ok(())
}

/// Checks every line of one rendered message.
pub fn layout(e: &Ent, w: usize, rec: &mut Rec) -> Res {
    let text = e.po().to_string_with_wrapwidth(w);
    rec.case(text.as_bytes());
    rec.state(text.as_bytes());
    rec.trace(text.len() as u64);
    layout_of(&text, e, w).map_err(|x| match x {
        Fail::Bad(m) => {
            Fail::Bad(format!("width {w}: {m}\nmessage {e:?}\n{text}"))
        }
        x => x,
    })
}

fn layout_of(text: &str, e: &Ent, w: usize) -> Res {
    let all: Vec<String> = text
        .strip_suffix('\n')
        .unwrap_or(text)
        .split('\n')
        .map(String::from)
        .collect();
    let mut l = all.into_iter().peekable();
    if let Some(c) = &e.tcomment {
        comment(&mut l, "# ", c, w)?;
    }
    if let Some(c) = &e.comment {
        comment(&mut l, "#. ", c, w)?;
    }
    if !e.obsolete {
        refs(&mut l, &e.occ, w)?;
    }
    if !e.flags.is_empty() {
        let x = l.next();
        ensure!(
            x == Some(format!("#, {}", e.flags.join(", "))),
            "flags line {x:?}"
        );
    }
    let pm = if e.obsolete { "#~| " } else { "#| " };
    let om = if e.obsolete { "#~ " } else { "" };
    let mut todo: Vec<(&str, String, &str)> = vec![];
    for (k, v) in [
        ("msgctxt", &e.pctxt),
        ("msgid", &e.pid),
        ("msgid_plural", &e.pplural),
    ] {
        if let Some(v) = v {
            todo.push((pm, k.into(), v));
        }
    }
    if let Some(c) = &e.ctxt {
        todo.push((om, "msgctxt".into(), c));
    }
    todo.push((om, "msgid".into(), &e.id));
    if let Some(c) = &e.plural {
        todo.push((om, "msgid_plural".into(), c));
    }
    if e.sp.is_empty() {
        todo.push((om, "msgstr".into(), e.s.as_deref().unwrap_or("")));
    } else {
        for (i, x) in e.sp.iter().enumerate() {
            todo.push((om, format!("msgstr[{i}]"), x));
        }
    }
    for (mark, kw, v) in todo {
        let segs = pieces(&mut l, mark, &kw)?;
        field(&segs, &kw, v, w)?;
    }
    let rest: Vec<String> = l.filter(|x| !x.is_empty()).collect();
    ensure!(rest.is_empty(), "unexpected lines {rest:?}");
    Ok(())
}

fn spread(text: &str, obsolete: bool) -> Ent {
    let t = text.to_string();
    Ent {
        ctxt: Some(t.clone()),
        id: t.clone(),
        plural: Some(t.clone()),
        sp: vec![t.clone(), t.clone()],
        pctxt: Some(t.clone()),
        pid: Some(t.clone()),
        pplural: Some(t),
        obsolete,
        ..Default::default()
    }
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    const A: [&str; 10] =
        ["a", " ", "-", "\"", "\\", "\n", "é", "中", "\u{301}", "ab "];
    let n = if quick { 5 } else { 6 };
    let ws: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 17, 18, 20];
    v.push(space(
        "strings",
        &format!("all strings of up to {n} of 10 pieces (blanks, hyphens, escapes, wide and combining characters) in the string fields x widths {ws:?}"),
        words_upto(A.len(), n),
        move |i, rec| {
            let t = word_string(i, &A);
            let e = Ent {
                id: t.clone(),
                s: Some(t.clone()),
                ..Default::default()
            };
            for &w in &ws {
                layout(&e, w, rec)?;
            }
            if i < 12_000 {
                for w in [3, 6, 9, 14, 16] {
                    layout(&spread(&t, false), w, rec)?;
                    layout(&spread(&t, true), w, rec)?;
                }
            }
            Ok(())
        },
    ));
    // sequences of words with lengths
    let unit: [&str; 8] = [
        "w ", "wo ", "wor ", "longword ", "中 ", "\\ ", "é-", "x\n",
    ];
    let n = if quick { 6 } else { 7 };
    v.push(space(
        "words",
        &format!("all sequences of up to {n} of 8 words x widths 4..=24 step by index"),
        words_upto(8, n) * 7,
        move |i, rec| {
            let t = word_string(i / 7, &unit);
            let w = 4 + (i % 7) as usize * 3 + (i as usize / 7) % 3;
            let e = Ent {
                id: t.clone(),
                s: Some(t),
                ..Default::default()
            };
            layout(&e, w, rec)
        },
    ));
    const C: [&str; 9] =
        ["a", " ", "-", "bb", "é", "中", "\n", "\\", "cc "];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "comments",
        &format!("all translator and extracted comments of up to {n} of 9 pieces x widths 2..=12, those of up to 4 in obsolete messages too"),
        words_upto(9, n),
        move |i, rec| {
            let t = word_string(i, &C);
            for w in 2..=12 {
                let mut e = Ent {
                    id: "k".into(),
                    s: Some("v".into()),
                    tcomment: Some(t.clone()),
                    ..Default::default()
                };
                layout(&e, w, rec)?;
                e.comment = e.tcomment.take();
                layout(&e, w, rec)?;
                if i < 8_000 {
                    e.obsolete = true;
                    layout(&e, w, rec)?;
                    e.tcomment = e.comment.take();
                    layout(&e, w, rec)?;
                }
            }
            Ok(())
        },
    ));
    let items: [(&str, &str); 6] = [
        ("a", ""),
        ("b", "1"),
        ("cc.c", "22"),
        ("long/path/file.c", "333"),
        ("é.c", "4"),
        ("文.c", "5"),
    ];
    let n = if quick { 6 } else { 7 };
    v.push(space(
        "references",
        &format!("all lists of up to {n} of 6 references x widths 2..=40"),
        words_upto(6, n),
        move |i, rec| {
            let occ: Vec<(String, String)> = word(i, 6)
                .into_iter()
                .map(|k| (s(items[k].0), s(items[k].1)))
                .collect();
            for w in 2..=40 {
                let e = Ent {
                    id: "k".into(),
                    s: Some("v".into()),
                    occ: occ.clone(),
                    ..Default::default()
                };
                layout(&e, w, rec)?;
            }
            Ok(())
        },
    ));
    let mut ts = texts();
    ts.extend((0..40).map(|n| "x ".repeat(n) + &"y".repeat(40 - n)));
    ts.extend((0..20).map(|n| "中".repeat(n) + " " + &"e\u{301}".repeat(20 - n)));
    ts.extend(["\\", "\"", "\n", "\\\"", "\t", "-", "\\n"].iter().map(|u| u.repeat(60)));
    let maxw = if quick { 150 } else { 700 };
    let nt = ts.len() as u64;
    v.push(space(
        "widths",
        &format!("{nt} boundary texts in all string fields x every width 0..={maxw} x obsolete"),
        nt * (maxw + 1) * 2,
        move |i, rec| {
            let t = &ts[(i % nt) as usize];
            layout(&spread(t, i / nt % 2 == 1), (i / nt / 2) as usize, rec)
        },
    ));
    let mut cs = comments();
    cs.extend((1..40).map(|n| "x ".repeat(n) + &"y".repeat(40 - n)));
    let os = occs();
    let nc = cs.len() as u64;
    v.push(space(
        "mixed",
        &format!("{nc} boundary comments x 12 reference lists x every width 3..={maxw}"),
        nc * 12 * (maxw - 2),
        move |i, rec| {
            let c = &cs[(i % nc) as usize];
            let e = Ent {
                id: "k".into(),
                s: Some("v".into()),
                tcomment: Some(c.clone()),
                comment: Some(c.clone()),
                occ: os[(i / nc % 12) as usize].clone(),
                flags: vec![s("fuzzy"), s("c-format")],
                ..Default::default()
            };
            layout(&e, 3 + (i / nc / 12) as usize, rec)
        },
    ));
    // every scalar near a break
    v.push(space(
        "scalars",
        "every Unicode scalar value inside a text that must be wrapped",
        0x110000,
        move |i, rec| {
            let c = match char::from_u32(i as u32) {
                Some(c) => c,
                None => return Ok(()),
            };
            let t = format!("aa{c} b{c}b {c}{c} \\{c}\"");
            let e = Ent { id: t.clone(), s: Some(t), ..Default::default() };
            for w in [2, 5, 7] {
                layout(&e, w, rec)?;
            }
            Ok(())
        },
    ));
    let n = if quick { SOME_SCALARS } else { SCALARS };
    v.push(space(
        "comment-scalars",
        &format!("{n} Unicode scalar values except line ends inside comments that must be wrapped, and in references and flags"),
        n,
        move |i, rec| {
            let c = if quick { some_scalar(i) } else { scalar(i) };
            if c == '\n' || c == '\r' {
                return Ok(());
            }
            let t = format!("aa{c}bb b{c}b x");
            let mut e = Ent {
                id: "k".into(),
                s: Some("v".into()),
                tcomment: Some(t.clone()),
                comment: Some(t),
                ..Default::default()
            };
            if !c.is_whitespace() {
                e.occ = vec![
                    (format!("a{c}"), s("1")),
                    (format!("{c}b"), s("2")),
                    (format!("{c}"), s("")),
                ];
                e.flags = vec![format!("a{c}"), format!("{c}b")];
            }
            for w in [4, 7, 11] {
                layout(&e, w, rec)?;
            }
            Ok(())
        },
    ));
    let far = counts(0, usize::MAX);
    let n = far.len();
    v.push(space(
        "far-widths",
        &format!("texts, comments and references of 10 lengths up to 1000 at {n} widths around each power of two and ten up to 2^64-1"),
        (n * 10) as u64,
        move |i, rec| {
            let d = digits(i, &[10, n]);
            let n = [0, 1, 5, 20, 64, 100, 127, 128, 255, 500][d[0]];
            let t = "x ".repeat(n) + "y";
            let mut e = spread(&t, false);
            e.tcomment = Some(t.clone());
            e.comment = Some(t);
            e.occ = (0..n).map(|k| (format!("f{k}"), s("1"))).collect();
            e.flags = (0..n).map(|k| format!("f{k}")).collect();
            layout(&e, far[d[1]], rec)
        },
    ));
    // the index of a plural form takes no part in the width
    v.push(space(
        "plural-index",
        "messages of 1, 2, 10, 11, 12, 100, 101 and 102 plural forms of every length up to 24, without and with a break, at every width up to 40",
        8 * 25 * 2 * 41,
        |i, rec| {
            let d = digits(i, &[8, 25, 2, 41]);
            let n = [1, 2, 10, 11, 12, 100, 101, 102][d[0]];
            let mut t = "x".repeat(d[1]);
            if d[2] == 1 && d[1] > 2 {
                t.replace_range(d[1] / 2..d[1] / 2 + 1, " ");
            }
            let e = Ent {
                id: s("a"),
                plural: o("b"),
                sp: vec![t; n],
                ..Default::default()
            };
            layout(&e, d[3], rec)
        },
    ));
    // one very long piece among short ones
    let far = counts(0, 1 << 17);
    let n = far.len();
    v.push(space(
        "long-pieces",
        "a piece of each length at the neighbours of the powers of two and ten up to 2^17 before, between and after short ones, in texts, comments and references, at 4 widths",
        (n * 4 * 4) as u64,
        move |i, rec| {
            let d = digits(i, &[4, 4, n]);
            let x = "x".repeat(far[d[2]]);
            let t = [
                format!("aa {x} bb cc"),
                format!("{x} aa bb"),
                format!("aa bb {x}"),
                format!("aa {x} {x} bb"),
            ][d[1]]
                .clone();
            let e = Ent {
                id: t.clone(),
                s: Some("v".into()),
                tcomment: Some(t.clone()),
                comment: Some(t.clone()),
                occ: t
                    .split(' ')
                    .filter(|x| !x.is_empty())
                    .map(|x| (s(x), s("1")))
                    .collect(),
                ..Default::default()
            };
            layout(&e, [3, 10, 78, 1000][d[0]], rec)
        },
    ));
    // short beginnings repeated into long texts
    const P: [&str; 9] = ["a", "/", "b ", "cc ", "ddd ", "é-", "中", "\"", "\n"];
    v.push(space(
        "periodic",
        "every sequence of 1 to 3 of 9 pieces repeated to 120 and to 400 characters, in texts and comments of current and obsolete messages, at every width 2..=40",
        (words_upto(9, 3) - 1) * 4,
        move |i, rec| {
            let t = word_string(i / 4 + 1, &P);
            let n = [120, 400][(i % 2) as usize] / t.chars().count();
            let t = t.repeat(n);
            let e = Ent {
                id: t.clone(),
                s: Some("v".into()),
                tcomment: Some(t.clone()),
                comment: Some(t),
                obsolete: i / 2 % 2 == 1,
                ..Default::default()
            };
            for w in 2..=40 {
                layout(&e, w, rec)?;
            }
            Ok(())
        },
    ));
    let sizes = counts(if quick { 20 } else { 200 }, 1025);
    let n = sizes.len();
    v.push(space(
        "sizes",
        "messages with each number of plural forms, flags, references and comment lines, and texts of each length, up to 1025, at 4 widths",
        (DIMENSIONS * n * 4) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, n, 4]);
            let f = match sized(d[0], sizes[d[1]]) {
                Some(f) if d[0] > 2 => f,
                _ => return Ok(()),
            };
            layout(&f.ents[0], [10, 40, 78, 300][d[2]], rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "model_checking",
        rule: "every enumerated message is rendered by the real library at every enumerated width and each line is judged against the break opportunities of the Unicode line breaking algorithm; states are distinct rendered messages",
        assumptions: &[
            "width of a line is that of its text between the quotes; on the first line the keyword (without a plural index) and a blank count too",
            "line break opportunities and widths as given by the unicode-linebreak and unicode-width crates",
        ],
        spaces,
    }
}
