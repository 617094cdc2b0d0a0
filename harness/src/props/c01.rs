//! C01: saving a PO file and loading it again loses nothing.

use crate::engine::*;
use crate::gen::*;
use crate::menu::*;
use crate::model::*;
use crate::shapes::*;
use crate::{ensure, engine::Res};
use rspolib::pofile;

/// Whether a comment came back, its lines broken only where they exceed the
/// width. Blanks at the ends of lines may go.
fn same_comment(
    want: &Option<String>,
    got: &Option<String>,
    prefix: usize,
    w: usize,
) -> bool {
    let lines = |c: &Option<String>| -> Vec<String> {
        let mut v: Vec<String> = c
            .iter()
            .flat_map(|c| c.lines())
            .map(|l| l.trim_end().to_string())
            .collect();
        while v.last().is_some_and(|l| l.is_empty()) {
            v.pop();
        }
        v
    };
    let got = lines(got);
    let mut rest = got.iter();
    for l in lines(want) {
        if width(&l) + prefix <= w {
            if rest.next() != Some(&l) {
                return false;
            }
            continue;
        }
        let mut left = l.as_str();
        while !left.is_empty() {
            let g = match rest.next() {
                Some(g) if !g.is_empty() => g,
                _ => return false,
            };
            // blanks may go where the line was broken
            loop {
                if let Some(x) = left.strip_prefix(g.as_str()) {
                    left = x;
                    break;
                }
                left = match left.strip_prefix(char::is_whitespace) {
                    Some(x) => x,
                    None => return false,
                };
            }
        }
    }
    rest.next().is_none()
}

fn norm_header(h: &Option<String>) -> Vec<String> {
    let mut v: Vec<String> = h
        .iter()
        .flat_map(|h| h.split('\n'))
        .map(|l| l.trim_end().to_string())
        .collect();
    while v.last().map(|l| l.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}

/// What must come back for `f`: obsolete messages last, without references
/// and previous-message strings.
pub fn expected(f: &Fil) -> Fil {
    let mut g = f.clone();
    let (mut a, b): (Vec<Ent>, Vec<Ent>) =
        g.ents.drain(..).partition(|e| !e.obsolete);
    a.extend(b.into_iter().map(|mut e| {
        e.occ.clear();
        e.pctxt = None;
        e.pid = None;
        e.pplural = None;
        e
    }));
    g.ents = a;
    g
}

/// Compares a file with its reloaded form, allowing only the listed
/// normalisations.
pub fn same_file(want: &Fil, got: &Fil, w: usize) -> Result<(), Fail> {
    ensure!(
        norm_header(&want.header) == norm_header(&got.header),
        "header {:?} came back as {:?}",
        want.header,
        got.header
    );
    let trim = |m: &std::collections::BTreeMap<String, String>| {
        m.iter()
            .map(|(k, v)| (k.clone(), v.trim().to_string()))
            .collect::<Vec<_>>()
    };
    ensure!(
        trim(&want.meta) == trim(&got.meta),
        "metadata {:?} came back as {:?}",
        want.meta,
        got.meta
    );
    ensure!(
        want.fuzzy == got.fuzzy,
        "metadata fuzzy mark {} came back as {}",
        want.fuzzy,
        got.fuzzy
    );
    let ex = expected(want);
    ensure!(
        ex.ents.len() == got.ents.len(),
        "{} messages came back as {}: {:?}",
        ex.ents.len(),
        got.ents.len(),
        got.ents
    );
    for (a, b) in ex.ents.iter().zip(&got.ents) {
        let msgstr = |e: &Ent| {
            if e.sp.is_empty() {
                e.s.clone().unwrap_or_default()
            } else {
                String::new()
            }
        };
        ensure!(a.ctxt == b.ctxt, "context {:?} came back as {:?}", a.ctxt, b.ctxt);
        ensure!(a.id == b.id, "source {:?} came back as {:?}", a.id, b.id);
        ensure!(
            a.plural == b.plural,
            "plural source {:?} came back as {:?}",
            a.plural,
            b.plural
        );
        ensure!(
            a.sp == b.sp,
            "plural translations {:?} came back as {:?}",
            a.sp,
            b.sp
        );
        ensure!(
            msgstr(a) == msgstr(b),
            "translation {:?} came back as {:?}",
            a.s,
            b.s
        );
        ensure!(a.obsolete == b.obsolete, "obsolete mark of {:?} changed", a.id);
        ensure!(a.flags == b.flags, "flags {:?} came back as {:?}", a.flags, b.flags);
        ensure!(a.occ == b.occ, "references {:?} came back as {:?}", a.occ, b.occ);
        ensure!(
            a.pctxt == b.pctxt && a.pid == b.pid && a.pplural == b.pplural,
            "previous strings {:?} came back as {:?}",
            (&a.pctxt, &a.pid, &a.pplural),
            (&b.pctxt, &b.pid, &b.pplural)
        );
        ensure!(
            same_comment(&a.comment, &b.comment, 3, w),
            "extracted comment {:?} came back as {:?}",
            a.comment,
            b.comment
        );
        ensure!(
            same_comment(&a.tcomment, &b.tcomment, 2, w),
            "translator comment {:?} came back as {:?}",
            a.tcomment,
            b.tcomment
        );
    }
    Ok(())
}

pub fn round(f: &Fil, w: usize, rec: &mut Rec) -> Res {
    let text = f.po(w).to_string();
    rec.case(text.as_bytes());
    rec.state(text.as_bytes());
    rec.trace(f.ents.len() as u64 + 2);
    match pofile(text.as_str()) {
        Ok(g) => same_file(f, &Fil::of(&g), w).map_err(|e| match e {
            Fail::Bad(m) => {
                Fail::Bad(format!("width {w}: {m}\nfile: {f:?}\ntext:\n{text}"))
            }
            e => e,
        }),
        Err(e) => bad(format!(
            "width {w}: the rendered file is rejected: {e}\nfile: {f:?}\ntext:\n{text}"
        )),
    }
}

fn one(e: Ent) -> Fil {
    Fil { ents: vec![e], ..Default::default() }
}

/// A reference alone and between two others.
fn reference(name: &str, line: &str, rec: &mut Rec) -> Res {
    let after = name.split_once(':').map_or("", |x| x.1);
    let number = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    // not expressible: nothing at all, and a name that reads as name and line
    if name.is_empty() && line.is_empty() || line.is_empty() && number(after) {
        return Ok(());
    }
    let r = (s(name), s(line));
    let x = (s("x.c"), s("7"));
    let mut e = Ent { id: s("i"), s: o("t"), occ: vec![r.clone()], ..Default::default() };
    if name.contains(':') && !line.is_empty() {
        let text = one(e).po(78).to_string();
        rec.case(text.as_bytes());
        let got = match pofile(text.as_str()) {
            Ok(f) if f.entries.len() == 1 => f.entries[0].occurrences.clone(),
            _ => return bad(format!("the rendered file is rejected:\n{text}")),
        };
        if got == [(format!("{name}:{line}"), s(""))] {
            return Err(Fail::Sig(
                "reference-colon",
                format!("reference {r:?} came back as {got:?}"),
            ));
        }
        ensure!(got == [r.clone()], "reference {r:?} came back as {got:?}");
        return Ok(());
    }
    round(&one(e.clone()), 78, rec)?;
    e.occ = vec![x.clone(), r, x];
    round(&one(e.clone()), 78, rec)?;
    round(&one(e), 3, rec)
}

/// Archetypal messages and messages with boundary texts, comments and
/// references.
fn boundary(k: usize) -> Ent {
    if k < ARCHETYPES {
        return archetype(k, 0);
    }
    let k = k - ARCHETYPES;
    let (ts, cs) = (texts(), comments());
    let mut e = Ent { id: s("k"), s: o("v"), ..Default::default() };
    if k < ts.len() {
        let t = ts[k].clone();
        e = Ent {
            id: t.clone(),
            plural: Some(t.clone()),
            sp: vec![t.clone(), t.clone()],
            ctxt: Some(t.clone()),
            pid: Some(t.clone()),
            pctxt: Some(t.clone()),
            pplural: Some(t),
            ..Default::default()
        };
    } else if k < ts.len() + cs.len() {
        e.tcomment = Some(cs[k - ts.len()].clone());
        e.comment = e.tcomment.clone();
    } else {
        e.occ = occs()[k - ts.len() - cs.len()].clone();
    }
    e
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];

    // every short string in every string field
    let n = if quick { 4 } else { 5 };
    let ws = [0usize, 1, 6, 9, 12, 78];
    let nw = words_upto(LETTERS.len(), n);
    v.push(space(
        "strings",
        &format!("all strings of length <= {n} over 18 letters in each of 9 string fields x widths {ws:?} (length < {n}: all widths; length {n}: one width per string)"),
        nw * 9,
        move |i, rec| {
            let text = word_string(i / 9, &LETTERS);
            let mut e = Ent { id: s("k"), s: o("v"), ..Default::default() };
            match i % 9 {
                0 => e.id = text,
                1 => e.s = Some(text),
                2 => e.ctxt = Some(text),
                3 => {
                    e.plural = Some(text);
                    e.s = None;
                    e.sp = vec![s("a"), s("b")]
                }
                4 => {
                    e.plural = o("p");
                    e.s = None;
                    e.sp = vec![text, s("b")]
                }
                5 => {
                    e.plural = o("p");
                    e.s = None;
                    e.sp = vec![s("a"), text]
                }
                6 => e.pctxt = Some(text),
                7 => e.pid = Some(text),
                _ => e.pplural = Some(text),
            }
            let f = one(e);
            if i / 9 < words_upto(LETTERS.len(), n - 1) {
                for w in ws {
                    round(&f, w, rec)?;
                }
            } else {
                round(&f, ws[(i / 9 % 6) as usize], rec)?;
            }
            Ok(())
        },
    ));

    // every short comment
    let nc = if quick { 4 } else { 5 };
    v.push(space(
        "comments",
        &format!("all translator and extracted comments of length <= {nc} over 18 letters x widths 1,4,7,78 x obsolete"),
        words_upto(LETTERS.len(), nc) * 2,
        move |i, rec| {
            let text = word_string(i / 2, &LETTERS);
            let mut e = Ent { id: s("k"), s: o("v"), ..Default::default() };
            if i % 2 == 0 {
                e.tcomment = Some(text);
            } else {
                e.comment = Some(text);
            }
            let w = [1usize, 4, 7, 78];
            if i / 2 < words_upto(LETTERS.len(), nc - 1) {
                for w in w {
                    for ob in [false, true] {
                        e.obsolete = ob;
                        round(&one(e.clone()), w, rec)?;
                    }
                }
            } else {
                round(&one(e), w[(i / 2 % 4) as usize], rec)?;
            }
            Ok(())
        },
    ));

    // combinations of fields
    let m = menus(quick);
    let k = 3;
    let dev = Deviations::new(&m.radices(), k);
    let ws2: Vec<usize> = if quick { vec![20, 78] } else { vec![1, 20, 50, 78, 200] };
    v.push(space(
        "fields",
        &format!("all messages with at most {k} of 12 fields away from default over boundary-value menus x widths {ws2:?}"),
        dev.total,
        move |i, rec| {
            let e = m.ent(&dev.get(i));
            for &w in &ws2 {
                round(&one(e.clone()), w, rec)?;
            }
            Ok(())
        },
    ));

    // sequences of messages
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "sequences",
        &format!("all sequences of up to {n} messages over {ARCHETYPES} archetypes (widths 30, 78)"),
        words_upto(ARCHETYPES, n),
        move |i, rec| {
            let f = Fil {
                ents: word(i, ARCHETYPES)
                    .into_iter()
                    .enumerate()
                    .map(|(n, k)| archetype(k, n))
                    .collect(),
                ..Default::default()
            };
            for w in [30, 78] {
                round(&f, w, rec)?;
            }
            Ok(())
        },
    ));

    // header x metadata x mark x first messages
    let (hs, ms) = (headers(), metas());
    let r = [hs.len(), ms.len(), 2, ARCHETYPES + 1, ARCHETYPES + 1];
    v.push(space(
        "head",
        "all headers x metadata x fuzzy mark x up to two archetypal messages",
        product(&r),
        move |i, rec| {
            let d = digits(i, &r);
            let mut ents = vec![];
            for (n, k) in d[3..].iter().enumerate() {
                if *k > 0 {
                    ents.push(archetype(k - 1, n));
                }
            }
            let f = Fil {
                header: hs[d[0]].clone(),
                meta: ms[d[1]].clone(),
                fuzzy: d[2] == 1,
                ents,
            };
            round(&f, 78, rec)
        },
    ));

    // every width for every boundary text
    let nt = texts().len() + comments().len() + occs().len();
    let maxw = if quick { 130 } else { 420 };
    v.push(space(
        "widths",
        &format!("every boundary text, comment and reference list x every width 0..={maxw}"),
        (nt * (maxw + 1)) as u64,
        move |i, rec| {
            let w = i as usize % (maxw + 1);
            let mut e = boundary(ARCHETYPES + i as usize / (maxw + 1));
            round(&one(e.clone()), w, rec)?;
            e.obsolete = true;
            round(&one(e), w, rec)
        },
    ));

    // the first line of the file
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "first-line",
        &format!("all texts of up to {n} of 6 letters, the byte order mark among them, on the first line of the file: header, comments, flag, context, source"),
        words_upto(6, n) * 6,
        move |i, rec| {
            let t = word_string(i / 6, &["a", " ", "\u{feff}", "é", "#", "\u{a0}"]);
            let f = match opening(i as usize % 6, &t) {
                Some(f) => f,
                None => return Ok(()),
            };
            round(&f, 78, rec)
        },
    ));
    // references and flags
    let rl = ["a", ":", "1", "0", "/", "é", "\\", "\"", "#", "½", "\u{663}", "\u{ff12}"];
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "references",
        &format!("all file names of length <= {n} over 12 letters (also digits of other scripts), without and with a line number, alone and between two others"),
        words_upto(12, n) * 4,
        move |i, rec| {
            let name = word_string(i / 4, &rl);
            let line = ["", "1", "0", "0012"][i as usize % 4];
            reference(&name, line, rec)
        },
    ));
    // every character around the colon and the line number
    let nr = if quick { 0x3100 } else { SCALARS };
    v.push(space(
        "reference-shapes",
        &format!("{nr} Unicode scalar values at each of 8 places of a reference with and without a colon and digits"),
        nr * 8,
        move |i, rec| {
            let c = scalar(i / 8);
            if c.is_whitespace() {
                return Ok(());
            }
            let t = match i % 8 {
                0 => format!("a:1{c}"),
                1 => format!("a:{c}1"),
                2 => format!("a:1{c}2"),
                3 => format!("a{c}:1"),
                4 => format!("{c}:1"),
                5 => format!("a{c}1"),
                6 => format!("a:{c}"),
                _ => format!("{c}a:1{c}"),
            };
            reference(&t, "", rec)
        },
    ));
    let fl = ["a", "A", " ", ":", "#", "é", "~", "|", "\"", "[", "msgid", "fuzzy"];
    let n = if quick { 3 } else { 4 };
    v.push(space(
        "flags",
        &format!("all flags of length <= {n} over 12 letters, alone, between two others and twice, on a plain and an obsolete message"),
        words_upto(12, n),
        move |i, rec| {
            let f = word_string(i, &fl);
            // not expressible
            if f.trim() != f || f.is_empty() {
                return Ok(());
            }
            let mut e = Ent { id: s("i"), s: o("t"), ..Default::default() };
            for flags in [vec![f.clone()], vec![s("x"), f.clone(), s("y"), f.clone()]] {
                e.flags = flags;
                e.obsolete = !e.obsolete;
                round(&one(e.clone()), 78, rec)?;
            }
            Ok(())
        },
    ));

    // sizes
    let ns = counts(if quick { 300 } else { 1000 }, 1 << 16);
    v.push(space(
        "sizes",
        "every number up to 300 (thorough 1000), and the neighbours of the powers of two and ten up to 2^12 or 2^16, of messages, plural forms, flags, references, lines of comments and header, metadata items and letters in every kind of text, x 3 widths",
        (ns.len() * DIMENSIONS) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, ns.len()]);
            if let Some(f) = sized(d[0], ns[d[1]]) {
                for w in [10, 40, 78] {
                    round(&f, w, rec)?;
                }
            }
            Ok(())
        },
    ));
    let ws3 = counts(0, usize::MAX);
    v.push(space(
        "far-widths",
        "every archetypal and boundary message x the neighbours of all powers of two and ten as width",
        (ws3.len() * (ARCHETYPES + texts().len() + comments().len() + occs().len())) as u64,
        move |i, rec| {
            let w = ws3[i as usize % ws3.len()];
            round(&one(boundary(i as usize / ws3.len())), w, rec)
        },
    ));
    v.push(space(
        "scalars",
        "every Unicode scalar value in every field, at the beginning, in the middle, at the end and alone",
        SCALARS,
        |i, rec| round(&scalar_file(scalar(i)), 78, rec),
    ));
    // relations between the fields of one message and between messages
    let r = related_radices();
    v.push(space(
        "related",
        "one message whose context, source, plural source, up to 3 translations, references, comments and previous strings are drawn from the same three texts (absent, empty, equal, differing in a final newline) x flags x obsolete, after another message",
        product(&r),
        move |i, rec| {
            let e = match related(&digits(i, &r)) {
                Some(e) if e.plural.is_none() || !e.sp.is_empty() => e,
                _ => return Ok(()),
            };
            round(&one(e.clone()), 78, rec)?;
            let f = Fil { ents: vec![twin(0), e], ..Default::default() };
            round(&f, 5, rec)
        },
    ));
    v.push(space(
        "twins",
        "every ordered pair of 144 small messages that may share source, context, plural or translation, obsolete or fuzzy",
        (TWINS * TWINS) as u64,
        move |i, rec| {
            let d = digits(i, &[TWINS, TWINS]);
            let ents = vec![twin(d[0]), twin(d[1])];
            round(&Fil { ents, ..Default::default() }, 78, rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "each trace builds a file from menus, renders it with the real library, parses the text with the real library and compares field by field; states are distinct rendered texts",
        assumptions: &[
            "references without blanks and flags without commas or outer blanks, and not empty; a reference without line whose name ends in a colon and digits is the one with that line (not expressible in PO syntax)",
            "a message has either a translation or plural translations",
        ],
        spaces,
    }
}
