//! C04: every PO line lands in the right field of the right message.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::lines::*;
use crate::menu::LETTERS;
use crate::model::*;
use crate::shapes::*;
use rspolib::pofile;

pub fn join(t: &[String], eol: &str, last: bool) -> String {
    let mut o = t.join(eol);
    if last && !t.is_empty() {
        o.push_str(eol);
    }
    o
}

fn agree(text: &str, want: &Fil, rec: &mut Rec, steps: usize) -> Res {
    rec.case(text.as_bytes());
    rec.trace(steps as u64);
    let got = match pofile(text) {
        Ok(f) => Fil::of(&f),
        Err(e) => {
            return bad(format!("well-formed text rejected: {e}\n{text}"))
        }
    };
    let (a, b) = (canon(want), canon(&got));
    ensure!(a == b, "expected != parsed: {}\ntext:\n{text}", diff(&a, &b));
    Ok(())
}

/// Depth-first exploration of all line sequences; every prefix is a file.
fn dfs(
    m: &Machine,
    seq: &mut Vec<String>,
    depth: usize,
    rec: &mut Rec,
) -> Res {
    rec.state(m.key().as_bytes());
    if let Some(want) = m.finish() {
        agree(&join(seq, "\n", true), &want, rec, seq.len())?;
    }
    if depth == 0 {
        return Ok(());
    }
    for x in ALPHABET {
        let p = seq.len() + 1;
        let mut n = m.clone();
        if n.step(x, p) == Verdict::Good {
            seq.push(text(x, p));
            dfs(&n, seq, depth - 1, rec)?;
            seq.pop();
        }
    }
    Ok(())
}

/// Component choices of one message.
#[derive(Clone, Copy)]
struct Shape {
    tc: usize,
    gc: usize,
    oc: usize,
    fl: usize,
    prev: usize,
    ctxt: usize,
    body: usize,
    obs: bool,
}
const SHAPE: [usize; 8] = [3, 2, 3, 3, 5, 3, 9, 2];

fn shape(i: u64) -> Shape {
    let d = digits(i, &SHAPE);
    Shape {
        tc: d[0],
        gc: d[1],
        oc: d[2],
        fl: d[3],
        prev: d[4],
        ctxt: d[5],
        body: d[6],
        obs: d[7] == 1,
    }
}

fn shape_lines(s: Shape) -> Vec<L> {
    let k = |k: K| L { k, obs: s.obs };
    let mut v = vec![];
    if s.fl == 2 {
        v.push(l(K::FlTwo));
    }
    for _ in 0..s.tc {
        v.push(l(K::Tc));
    }
    if s.gc == 1 {
        v.push(l(K::Gc));
        v.push(l(K::Gc));
    }
    if s.oc >= 1 {
        v.push(l(K::Oc1));
    }
    if s.oc == 2 {
        v.push(l(K::Oc2));
    }
    if s.fl >= 1 {
        v.push(l(K::FlFuzzy));
    }
    match s.prev {
        1 => v.push(l(K::Pm)),
        2 => v.extend([l(K::Pc), l(K::Pm), l(K::PCont)]),
        3 => v.extend([l(K::Pm), l(K::Pp), l(K::PCont)]),
        4 => v.extend([l(K::Pc), l(K::PCont), l(K::PCont), l(K::Pm), l(K::Pp)]),
        _ => {}
    }
    if s.ctxt >= 1 {
        v.push(k(K::Ct));
    }
    if s.ctxt == 2 {
        v.push(k(K::Cont));
    }
    match s.body {
        0 => v.extend([k(K::Mi), k(K::Ms)]),
        1 => v.extend([k(K::Mi), k(K::Ms0)]),
        2 => v.extend([k(K::Mi), k(K::Cont), k(K::Ms), k(K::Cont)]),
        3 => v.extend([k(K::Mi0), k(K::Cont), k(K::Ms0), k(K::Cont), k(K::Cont)]),
        4 => v.extend([k(K::Mi), k(K::Mp), k(K::Mx(0)), k(K::Mx(1))]),
        5 => v.extend([
            k(K::Mi),
            k(K::Mp),
            k(K::Cont),
            k(K::Mx(0)),
            k(K::Cont),
            k(K::Mx(1)),
            k(K::Cont),
            k(K::Cont),
        ]),
        6 => v.extend([k(K::Mi), k(K::Mp), k(K::Mx(1)), k(K::Mx(0))]),
        7 => v.extend([k(K::Mi), k(K::Mp), k(K::Mx(2)), k(K::Cont)]),
        _ => {
            v.extend([k(K::Mi), k(K::Mp)]);
            v.extend((0..12).map(|i| k(K::Mx(i))));
        }
    }
    v
}

fn machine_of(ls: &[L]) -> Option<(Vec<String>, Fil)> {
    let mut m = Machine::new();
    let mut t = vec![];
    for (i, x) in ls.iter().enumerate() {
        if m.step(*x, i + 1) != Verdict::Good {
            return None;
        }
        t.push(text(*x, i + 1));
    }
    m.finish().map(|f| (t, f))
}

/// All single-place layout variations of a file.
fn layouts(ls: &[L], rec: &mut Rec) -> Res {
    let (t, want) = match machine_of(ls) {
        Some(x) => x,
        None => return Ok(()),
    };
    let n = ls.len();
    rec.state(t.join("\n").as_bytes());
    let same = |text: String, rec: &mut Rec| agree(&text, &want, rec, n);
    // whole-file variations
    for (eol, last) in
        [("\n", true), ("\n", false), ("\r\n", true), ("\r\n", false)]
    {
        for bom in ["", "\u{feff}"] {
            for (pre, post) in [("", ""), (" ", ""), ("\t ", "  "), ("", "\t")] {
                let v: Vec<String> = t
                    .iter()
                    .map(|x| {
                        if x.is_empty() {
                            x.clone()
                        } else {
                            format!("{pre}{x}{post}")
                        }
                    })
                    .collect();
                same(format!("{bom}{}", join(&v, eol, last)), rec)?;
            }
        }
    }
    for i in 0..n {
        // one line laid out differently
        for (pre, post) in
            [("  ", ""), ("\t", ""), ("", "   "), ("", "\t"), ("", "\r")]
        {
            let mut v = t.clone();
            if v[i].is_empty() {
                continue;
            }
            v[i] = format!("{pre}{}{post}", v[i]);
            same(join(&v, "\n", true), rec)?;
        }
        // blanks between keyword and string
        if let (a, Some(c)) = parts(ls[i], i + 1) {
            for gap in ["  ", "\t", " \t "] {
                let mut v = t.clone();
                v[i] = format!("{a}{gap}\"{c}\"");
                same(join(&v, "\n", true), rec)?;
            }
            if a.starts_with("#| m") || a.starts_with("#~ m") {
                let mut v = t.clone();
                let (x, y) = a.split_once(' ').unwrap();
                v[i] = format!("{x} \t {y} \"{c}\"");
                same(join(&v, "\n", true), rec)?;
            }
        }
        // inserted blank, ignored and empty lines
        for (ins, k) in [
            ("", K::Blank),
            ("  \t", K::Blank),
            ("#~| msgid \"zz\"", K::Skip),
            ("#,", K::Hollow(b',')),
            ("#:", K::Hollow(b':')),
            ("#.", K::GcEmpty),
        ] {
            let mut m = Machine::new();
            let mut v = vec![];
            let mut good = true;
            for (j, x) in ls.iter().enumerate() {
                if j == i {
                    v.push(ins.to_string());
                    good &= m.step(l(k), 0) == Verdict::Good;
                }
                v.push(text(*x, j + 1));
                good &= m.step(*x, j + 1) == Verdict::Good;
            }
            match m.finish() {
                Some(want) if good => {
                    agree(&join(&v, "\n", true), &want, rec, n + 1)?
                }
                _ => {}
            }
        }
        // the string split over continuation lines, at every place
        if let (a, Some(c)) = parts(ls[i], i + 1) {
            let cont = if a.starts_with("#|") {
                "#| "
            } else if ls[i].obs {
                "#~ "
            } else {
                ""
            };
            let a = if a.is_empty() || a == "#~" || a == "#|" {
                cont.to_string()
            } else {
                format!("{a} ")
            };
            let cuts: Vec<usize> = cut_points(&c);
            for &x in &cuts {
                for &y in cuts.iter().filter(|y| **y >= x) {
                    let mut v = t.clone();
                    let mut repl = vec![
                        format!("{a}\"{}\"", &c[..x]),
                        format!("{cont}\"{}\"", &c[x..y]),
                    ];
                    if y < c.len() {
                        repl.push(format!("{cont}\"{}\"", &c[y..]));
                    }
                    let added = repl.len() - 1;
                    v.splice(i..i + 1, repl);
                    let mut w = want.clone();
                    for e in &mut w.ents {
                        if e.line > i + 1 {
                            e.line += added;
                        }
                    }
                    agree(&join(&v, "\n", true), &w, rec, n + added)?;
                }
            }
        }
    }
    Ok(())
}

fn cut_points(c: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut esc = false;
    for (i, ch) in c.char_indices() {
        if esc {
            esc = false;
            continue;
        }
        v.push(i);
        if ch == '\\' {
            esc = true;
        }
    }
    v.push(c.len());
    v
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let a = ALPHABET.len() as u64;
    let depth = if quick { 6 } else { 7 };
    v.push(space(
        "sequences",
        &format!("all well-formed sequences of up to {depth} lines over 29 line kinds, every prefix parsed as a file (units are the first two lines)"),
        a * a,
        move |i, rec| {
            let mut m = Machine::new();
            let mut seq = vec![];
            if i == 0 {
                // the empty file and the one-line files
                dfs(&m, &mut seq, 1, rec)?;
            }
            for (p, k) in [i / a, i % a].into_iter().enumerate() {
                let x = ALPHABET[k as usize];
                if m.step(x, p + 1) != Verdict::Good {
                    return Ok(());
                }
                seq.push(text(x, p + 1));
            }
            dfs(&m, &mut seq, depth - 2, rec)
        },
    ));

    let ns = product(&SHAPE);
    v.push(space(
        "pairs",
        "all ordered pairs of message shapes (comments x references x flags x previous strings x context x body x obsolete), the second from a reduced menu, after an optional header",
        ns * 64,
        move |i, rec| {
            let second = [
                0u64, 1, 5, 17, 53, 200, 300, 431, 809, 1000, 1500, 2000, 3000,
                4100, 5003, 7290,
            ];
            let s1 = shape_lines(shape(i % ns));
            let r = (i / ns) as usize;
            let mut ls = vec![];
            match r % 4 {
                0 => {}
                1 => ls.push(l(K::Tc)),
                2 => ls.extend([l(K::Tc), l(K::Mi0), l(K::Ms0), l(K::Cont)]),
                _ => ls.extend([
                    l(K::TcEmpty),
                    l(K::FlFuzzy),
                    l(K::Mi0),
                    l(K::Ms0),
                    l(K::Cont),
                    l(K::Blank),
                ]),
            }
            ls.extend(s1);
            ls.push(l(K::Blank));
            let mut s2 = shape(second[r / 4] % ns);
            if r % 2 == 1 {
                s2.obs = !s2.obs;
            }
            ls.extend(shape_lines(s2));
            if let Some((t, want)) = machine_of(&ls) {
                let text = join(&t, "\n", true);
                rec.state(text.as_bytes());
                agree(&text, &want, rec, ls.len())?;
            }
            Ok(())
        },
    ));

    let lay = if quick { [2usize, 2, 2, 2, 3, 2, 5, 2] } else { [2, 2, 3, 3, 5, 3, 8, 2] };
    v.push(space(
        "layouts",
        "message shapes x every layout: line ends, BOM, indentation, trailing blanks, gaps, inserted blank and empty-marker lines at every place, every way of splitting each string into up to three pieces",
        product(&lay) * 3,
        move |i, rec| {
            let d = digits(i / 3, &lay);
            let mut s = shape(0);
            s.tc = d[0];
            s.gc = d[1];
            s.oc = d[2];
            s.fl = d[3];
            s.prev = if d[4] > 0 { d[4] + 1 } else { 0 }.min(4);
            s.ctxt = d[5];
            s.body = [0, 2, 4, 5, 3, 1, 6, 7][d[6]];
            s.obs = d[7] == 1;
            let mut ls = match i % 3 {
                0 => vec![],
                1 => vec![l(K::Tc), l(K::Mi0), l(K::Ms0), l(K::Cont)],
                _ => vec![l(K::FlFuzzy), l(K::Mi), l(K::Ms)],
            };
            ls.extend(shape_lines(s));
            layouts(&ls, rec)
        },
    ));

    // long files: numbering and association far from the start
    let nmax = if quick { 300 } else { 2000 };
    v.push(space(
        "long",
        &format!("files of every length 0..={nmax} messages cycling through all message shapes"),
        nmax + 1,
        move |i, rec| {
            let mut ls = vec![l(K::Tc), l(K::Mi0), l(K::Ms0), l(K::Cont)];
            for j in 0..i {
                ls.push(l(K::Blank));
                let mut s = shape((j * 37 + i * 11) % ns);
                if s.ctxt == 0 && s.body == 3 {
                    s.body = 2;
                }
                ls.extend(shape_lines(s));
            }
            if let Some((t, want)) = machine_of(&ls) {
                agree(&join(&t, "\n", true), &want, rec, ls.len())?;
            } else {
                return bad("generator error");
            }
            Ok(())
        },
    ));

    // plural indexes
    v.push(space(
        "plural-index",
        "every plural index 0..=999, alone, and every ordered pair of indexes below 24",
        1000 + 24 * 24,
        |i, rec| {
            let (a, b) = if i < 1000 {
                (i as usize, None)
            } else {
                ((i - 1000) as usize / 24, Some((i - 1000) as usize % 24))
            };
            if b == Some(a) {
                return Ok(());
            }
            let mut text = format!(
                "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[{a}] \"A{a}\"\n\"c\"\n"
            );
            let mut sp = vec![String::new(); a.max(b.unwrap_or(0)) + 1];
            sp[a] = format!("A{a}c");
            if let Some(b) = b {
                text += &format!("msgstr[{b}] \"B{b}\"\n\"d\"\n");
                sp[b] = format!("B{b}d");
            }
            let want = Fil {
                ents: vec![Ent {
                    id: "a".into(),
                    plural: Some("b".into()),
                    sp,
                    line: 1,
                    ..Default::default()
                }],
                ..Default::default()
            };
            rec.state(text.as_bytes());
            agree(&text, &want, rec, 4)
        },
    ));

    // the content of every kind of line
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "contents",
        &format!("all strings of length <= {n} over 18 letters, written by the reference escaping, in each of 9 string fields (plain and obsolete) and in the 3 kinds of comment"),
        words_upto(LETTERS.len(), n),
        move |i, rec| contents(&word_string(i, &LETTERS), rec),
    ));
    let rl = ["a", ":", "1", "0", "/", "é", "\\", "\"", "#", "½", "\u{663}", "\u{ff12}"];
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "references",
        &format!("all reference tokens of length 1..={n} over 12 letters (also digits of other scripts), alone and between two others"),
        words_upto(12, n) - 1,
        move |i, rec| references(&word_string(i + 1, &rl), rec),
    ));
    // every character around the colon and the line number
    let nr = if quick { 0x3100 } else { SCALARS };
    v.push(space(
        "reference-shapes",
        &format!("{nr} Unicode scalar values at each of 8 places of a reference with and without a colon and digits"),
        nr * 8,
        move |i, rec| {
            let c = scalar(i / 8);
            if c.is_whitespace() {
                return Ok(());
            }
            let t = match i % 8 {
                0 => format!("a:1{c}"),
                1 => format!("a:{c}1"),
                2 => format!("a:1{c}2"),
                3 => format!("a{c}:1"),
                4 => format!("{c}:1"),
                5 => format!("a{c}1"),
                6 => format!("a:{c}"),
                _ => format!("{c}a:1{c}"),
            };
            references(&t, rec)
        },
    ));
    let fl = ["a", ",", " ", "\t", "fuzzy", "é", ":", "#"];
    let n = n + 1;
    v.push(space(
        "flags",
        &format!("all flag lines of up to {n} pieces over 8 letters"),
        words_upto(8, n) - 1,
        move |i, rec| flags(&word_string(i + 1, &fl), rec),
    ));
    let ns = counts(if quick { 300 } else { 1000 }, 1 << 16);
    v.push(space(
        "sizes",
        "every number up to 300 (thorough 1000), and the neighbours of the powers of two and ten up to 2^12 or 2^16, of messages, plural forms, flags, references, lines of comments and header, metadata items and letters in every kind of text",
        (ns.len() * DIMENSIONS) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, ns.len()]);
            match sized(d[0], ns[d[1]]) {
                Some(mut f) => {
                    // a leading comment would be the header
                    if f.ents.first().is_some_and(|e| e.tcomment.is_some()) {
                        f.ents.insert(0, twin(0));
                    }
                    written_file(f, rec)
                }
                None => Ok(()),
            }
        },
    ));
    let ns = counts(0, 1 << 17);
    v.push(space(
        "far",
        "a message after the neighbours of every power of two and ten up to 2^17 of blank lines, of comment lines, of continuation lines and of messages",
        (ns.len() * 4) as u64,
        move |i, rec| {
            let (n, k) = (ns[i as usize / 4], i % 4);
            let e = |line: usize| Ent {
                id: format!("k{line}"),
                s: Some("v".into()),
                line,
                ..Default::default()
            };
            let mut f = Fil::default();
            let (head, unit, lines) = match k {
                0 => ("", "\n", n),
                1 => {
                    f.header =
                        (n > 0).then(|| vec!["c"; n].join("\n"));
                    ("", "# c\n", n)
                }
                2 => {
                    f.ents.push(Ent {
                        s: Some("v".repeat(n)),
                        ..e(1)
                    });
                    ("msgid \"k1\"\nmsgstr \"\"\n", "\"v\"\n", n + 2)
                }
                _ => {
                    let n = n / 2;
                    f.ents = (0..n).map(|j| e(2 * j + 1)).collect();
                    ("", "", 2 * n)
                }
            };
            let mut t = head.to_string();
            if k == 3 {
                for e in &f.ents {
                    t += &format!("msgid \"{}\"\nmsgstr \"v\"\n", e.id);
                }
            } else {
                t += &unit.repeat(n);
            }
            let last = e(lines + 1);
            t += &format!("msgid \"{}\"\nmsgstr \"v\"\n", last.id);
            f.ents.push(last);
            rec.state(t.as_bytes());
            agree(&t, &f, rec, lines)
        },
    ));
    v.push(space(
        "scalars",
        "every Unicode scalar value in every field, at the beginning, in the middle, at the end and alone",
        SCALARS,
        |i, rec| written_file(scalar_file(scalar(i)), rec),
    ));
    // the first line of the file
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "first-line",
        &format!("all texts of up to {n} of 6 letters, the byte order mark among them, on the first line of the file: header, comments, flag, context, source; without and with a byte order mark before it"),
        words_upto(6, n) * 6,
        move |i, rec| {
            let t = word_string(i / 6, &["a", " ", "\u{feff}", "é", "#", "\u{a0}"]);
            let mut f = match opening(i as usize % 6, &t) {
                Some(f) => f,
                None => return Ok(()),
            };
            // a comment at the beginning is the header
            if i % 6 == 1 {
                f.header = f.ents[0].tcomment.take();
            }
            written_file(f.clone(), rec)?;
            let (text, _) = ref_write(&f);
            let got = pofile(text.as_str()).map(|f| Fil::of(&f)).ok();
            let marked = pofile(format!("\u{feff}{text}").as_str());
            match marked {
                Ok(g) => ensure!(
                    Some(Fil::of(&g)) == got,
                    "with a byte order mark before it, {text:?} gives {:?} instead of {got:?}",
                    Fil::of(&g)
                ),
                Err(e) => return bad(format!("{e}: {text:?} after a byte order mark")),
            }
            Ok(())
        },
    ));
    // relations between the fields of one message and between messages
    let r = related_radices();
    v.push(space(
        "related",
        "one message whose context, source, plural source, up to 3 translations, references, comments and previous strings are drawn from the same three texts (absent, empty, equal, differing in a final newline) x flags x obsolete, after another message",
        product(&r),
        move |i, rec| match related(&digits(i, &r)) {
            Some(e) if e.plural.is_none() || !e.sp.is_empty() => {
                written(vec![twin(0), e], rec)
            }
            _ => Ok(()),
        },
    ));
    v.push(space(
        "twins",
        "every ordered pair of 144 small messages that may share source, context, plural or translation, obsolete or fuzzy",
        (TWINS * TWINS) as u64,
        move |i, rec| {
            let d = digits(i, &[TWINS, TWINS]);
            written(vec![twin(d[0]), twin(d[1])], rec)
        },
    ));
    // the same references, flags and comments again, over several lines
    const AGAIN: [(&str, char, &[&str]); 12] = [
        ("#: a", ':', &["a"]),
        ("#: a a", ':', &["a", "a"]),
        ("#: a:1", ':', &["a:1"]),
        ("#: b a:1 a", ':', &["b", "a:1", "a"]),
        ("#, x", ',', &["x"]),
        ("#, x, x", ',', &["x", "x"]),
        ("#, y,x", ',', &["y", "x"]),
        ("#. c", '.', &["c"]),
        ("#. d", '.', &["d"]),
        ("# c", '#', &["c"]),
        ("# d", '#', &["d"]),
        ("", ' ', &[]),
    ];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "again",
        &format!("every sequence of up to {n} of 12 lines of references, flags and comments with few different items, before a message between two others"),
        words_upto(AGAIN.len(), n),
        |i, rec| {
            let mut t = String::from("msgid \"p\"\nmsgstr \"q\"\n");
            let mut e = Ent {
                id: "a".into(),
                s: Some("b".into()),
                ..Default::default()
            };
            let more = |c: &mut Option<String>, x: &str| {
                *c = Some(match c.take() {
                    Some(c) => format!("{c}\n{x}"),
                    None => x.to_string(),
                })
            };
            let w = word(i, AGAIN.len());
            for (at, k) in w.iter().enumerate() {
                let (line, kind, items) = AGAIN[*k];
                t.push_str(line);
                t.push('\n');
                if kind != ' ' && e.line == 0 {
                    e.line = at + 3;
                }
                for x in items {
                    match kind {
                        ':' => {
                            let (f, l) = x.split_once(':').unwrap_or((x, ""));
                            e.occ.push((f.into(), l.into()));
                        }
                        ',' => e.flags.push(x.to_string()),
                        '.' => more(&mut e.comment, x),
                        _ => more(&mut e.tcomment, x),
                    }
                }
            }
            let at = w.len() + 3;
            if e.line == 0 {
                e.line = at;
            }
            t.push_str("msgid \"a\"\nmsgstr \"b\"\nmsgid \"r\"\nmsgstr \"s\"\n");
            let other = |id: &str, tr: &str, line: usize| Ent {
                id: id.into(),
                s: Some(tr.into()),
                line,
                ..Default::default()
            };
            let ents =
                vec![other("p", "q", 1), e, other("r", "s", at + 2)];
            rec.state(t.as_bytes());
            agree(&t, &Fil { ents, ..Default::default() }, rec, w.len() + 6)
        },
    ));
    // blanks between, before and after references and flags
    const G: [&str; 5] = [" ", "\t", "  ", " \t", "\t \t"];
    v.push(space(
        "gaps",
        "up to 4 references and up to 4 flags with each of 5 gaps at every place",
        4 * 5u64.pow(6),
        move |i, rec| {
            let d = digits(i, &[4, 5, 5, 5, 5, 5, 5]);
            let n = d[0] + 1;
            let g = |k: usize| if k == 5 && d[6] == 0 { "" } else { G[d[k + 1]] };
            if d[n + 2..6].iter().any(|x| *x > 0) {
                return Ok(());
            }
            let refs: String =
                (0..n).map(|k| format!("{}f{k}.c:{k}", g(k))).collect();
            let flags: Vec<String> = (0..n)
                .map(|k| format!("{}flag{k}{}", g(k), if k % 2 == 0 { "" } else { g(k) }))
                .collect();
            let t = format!(
                "#:{refs}{}\n#,{}{}\nmsgid \"a\"\nmsgstr \"b\"\n",
                g(5),
                flags.join(","),
                g(5)
            );
            let e = Ent {
                id: "a".into(),
                s: Some("b".into()),
                occ: (0..n).map(|k| (format!("f{k}.c"), k.to_string())).collect(),
                flags: (0..n).map(|k| format!("flag{k}")).collect(),
                line: 1,
                ..Default::default()
            };
            rec.state(t.as_bytes());
            agree(&t, &Fil { ents: vec![e], ..Default::default() }, rec, 4)
        },
    ));
    v
}

fn contents(text: &str, rec: &mut Rec) -> Res {
    rec.state(text.as_bytes());
    let q = ref_escape(text);
    let t = || Some(text.to_string());
    for obs in [false, true] {
        let m = if obs { "#~ " } else { "" };
        for f in 0..9 {
            let mut e = Ent {
                id: "k".into(),
                s: Some("v".into()),
                obsolete: obs,
                line: 3,
                ..Default::default()
            };
            let mut pre = String::new();
            let mut ctx = String::new();
            let mut id = "k";
            let mut body = format!("{m}msgstr \"v\"\n");
            match f {
                0 => {
                    id = &q;
                    e.id = text.into();
                    // keep it apart from the metadata
                    ctx = format!("{m}msgctxt \"c\"\n");
                    e.ctxt = Some("c".into());
                }
                1 => {
                    body = format!("{m}msgstr \"{q}\"\n");
                    e.s = t();
                }
                2 => {
                    ctx = format!("{m}msgctxt \"{q}\"\n");
                    e.ctxt = t();
                }
                3 | 4 | 5 => {
                    e.s = None;
                    let mut p = ["ks", "a", "b"].map(String::from);
                    p[f - 3] = q.clone();
                    body = format!(
                        "{m}msgid_plural \"{}\"\n{m}msgstr[0] \"{}\"\n{m}msgstr[1] \"{}\"\n",
                        p[0], p[1], p[2]
                    );
                    p[f - 3] = text.into();
                    e.plural = Some(p[0].clone());
                    e.sp = p[1..].to_vec();
                }
                6 => {
                    pre = format!("#| msgctxt \"{q}\"\n");
                    e.pctxt = t();
                }
                7 => {
                    pre = format!("#| msgid \"{q}\"\n");
                    e.pid = t();
                }
                _ => {
                    pre = format!("#| msgid_plural \"{q}\"\n");
                    e.pplural = t();
                }
            }
            let first = Ent {
                id: "z".into(),
                s: Some("".into()),
                line: 1,
                ..Default::default()
            };
            let want = Fil { ents: vec![first, e], ..Default::default() };
            agree(
                &format!("msgid \"z\"\nmsgstr \"\"\n{pre}{ctx}{m}msgid \"{id}\"\n{body}"),
                &want,
                rec,
                6,
            )?;
        }
    }
    if !text.contains('\n') && !text.contains('\r') {
        let c = text.trim_end();
        let z = |line| Ent {
            id: "z".into(),
            s: Some("y".into()),
            line,
            ..Default::default()
        };
        let tail = "msgid \"z\"\nmsgstr \"y\"\n";
        let mut e = z(3);
        e.tcomment = Some(c.into());
        let mut w = Fil { ents: vec![z(1), e], ..Default::default() };
        agree(&format!("{tail}# {text}\n{tail}"), &w, rec, 5)?;
        w.ents[1].tcomment = None;
        if !c.is_empty() {
            w.ents[1].comment = Some(c.into());
            agree(&format!("{tail}#. {text}\n{tail}"), &w, rec, 5)?;
        }
        // whether the further marks belong to the comment is left open
        let c = c.trim_start();
        if !c.is_empty() && !c.starts_with('#') {
            for mark in ["##", "## ", "###"] {
                let t = format!("{tail}{mark}{text}\n{tail}");
                rec.case(t.as_bytes());
                rec.trace(5);
                let f = match pofile(t.as_str()) {
                    Ok(f) => Fil::of(&f),
                    Err(e) => return bad(format!("well-formed text rejected: {e}\n{t}")),
                };
                let got = f.ents.get(1).and_then(|e| e.tcomment.clone()).unwrap_or_default();
                ensure!(
                    f.ents.len() == 2
                        && got.trim_start_matches(['#', ' ', '\t']).trim() == c,
                    "comment {got:?} of {t:?}"
                );
            }
        }
        let c = text.trim_end();
        w.ents.remove(0);
        w.ents[0].line = 2;
        w.ents[0].comment = None;
        w.header = Some(c.into());
        agree(&format!("# {text}\n{tail}"), &w, rec, 3)?;
    }
    Ok(())
}

/// The parsed form of independently written messages.
fn written(ents: Vec<Ent>, rec: &mut Rec) -> Res {
    written_file(Fil { ents, ..Default::default() }, rec)
}

fn written_file(mut f: Fil, rec: &mut Rec) -> Res {
    let (t, starts) = ref_write(&f);
    for (e, line) in f.ents.iter_mut().zip(starts) {
        e.line = line;
        if e.sp.is_empty() {
            e.s.get_or_insert_default();
        }
    }
    rec.state(t.as_bytes());
    agree(&t, &f, rec, f.ents.len())
}

fn references(tok: &str, rec: &mut Rec) -> Res {
    let text = format!(
        "#: x.c:7 {tok} y.c:8\nmsgid \"a\"\nmsgstr \"b\"\n\n#: {tok}\nmsgid \"c\"\nmsgstr \"d\"\n"
    );
    rec.case(text.as_bytes());
    rec.state(text.as_bytes());
    rec.trace(6);
    let f = match pofile(text.as_str()) {
        Ok(f) => Fil::of(&f),
        Err(e) => return bad(format!("well-formed text rejected: {e}\n{text}")),
    };
    ensure!(
        f.ents.len() == 2 && f.ents[0].occ.len() == 3 && f.ents[1].occ.len() == 1,
        "references {:?}\n{text}",
        f.ents
    );
    let got = &f.ents[1].occ[0];
    ensure!(
        f.ents[0].occ[1] == *got
            && f.ents[0].occ[0] == ("x.c".into(), "7".into())
            && f.ents[0].occ[2] == ("y.c".into(), "8".into()),
        "references {:?} and {:?}\n{text}",
        f.ents[0].occ,
        f.ents[1].occ
    );
    match tok.matches(':').count() {
        0 => ensure!(
            *got == (tok.to_string(), String::new()),
            "reference {tok:?} read as {got:?}"
        ),
        1 => {
            let (a, b) = tok.split_once(':').unwrap();
            if a.is_empty() {
                return Ok(());
            }
            let want = if !b.is_empty() && b.chars().all(|c| c.is_ascii_digit()) {
                (a.to_string(), b.to_string())
            } else {
                (tok.to_string(), String::new())
            };
            ensure!(*got == want, "reference {tok:?} read as {got:?}");
        }
        // which colon separates the line number is not settled
        _ => {
            let joined = if got.1.is_empty() {
                got.0.clone()
            } else {
                format!("{}:{}", got.0, got.1)
            };
            ensure!(
                joined == tok,
                "reference {tok:?} read as {got:?}"
            );
        }
    }
    Ok(())
}

fn flags(line: &str, rec: &mut Rec) -> Res {
    let want: Vec<&str> = line.split(',').map(|f| f.trim()).collect();
    if want.iter().any(|f| f.is_empty()) {
        return Ok(());
    }
    let text = format!(
        "msgid \"a\"\nmsgstr \"b\"\n\n#, {line}\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n"
    );
    rec.case(text.as_bytes());
    rec.state(text.as_bytes());
    rec.trace(7);
    let f = match pofile(text.as_str()) {
        Ok(f) => Fil::of(&f),
        Err(e) => return bad(format!("well-formed text rejected: {e}\n{text}")),
    };
    ensure!(
        f.ents.len() == 3
            && f.ents[0].flags.is_empty()
            && f.ents[1].flags == want
            && f.ents[2].flags.is_empty(),
        "flags {line:?} read as {:?}",
        f.ents
    );
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "a specification machine over structured lines is explored; the text of every trace is parsed by the real library and the whole result is compared; states are abstract machine states and distinct texts",
        assumptions: &[
            "comment lines between msgid and msgstr, repeated fields, mixed obsolete marks and messages without a translation line are left open by the format and not judged",
        ],
        spaces,
    }
}
