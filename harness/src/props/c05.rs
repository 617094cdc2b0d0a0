//! C05: malformed PO input is rejected, with the place of the first fault.

use super::c04::join;
use crate::engine::*;
use crate::ensure;
use crate::gen::{digits, product, word_string, words_upto};
use crate::lines::*;
use crate::model::ref_unescape;
use crate::shapes::{counts, some_scalar, SOME_SCALARS};
use rspolib::errors::SyntaxError;
use rspolib::pofile;

/// Lines that are malformed wherever they stand.
pub const BAD: [&str; 69] = [
    "msgid",
    "msgid x",
    "msgid \"x",
    "msgid x\"",
    "msgid \"",
    "msgid \"x\\\"",
    "msgid \"x\\\\\\\"",
    "msgid \"a\"b\"",
    "msgid \"\"\"",
    "msgid \"a\\\\\"b\"",
    "msgid \"a\" \"b\"",
    "msgid \"x\" y",
    "msgid 'x'",
    "msgctxt x",
    "msgctxt \"x",
    "msgctxt x\"",
    "msgctxt \"a\"b\"",
    "msgctxt \"x\" y",
    "msgctxt",
    "msgid_plural x",
    "msgid_plural \"x",
    "msgid_plural \"a\"b\"",
    "msgid_plural",
    "msgstr x",
    "msgstr \"x",
    "msgstr x\"",
    "msgstr \"a\"b\"",
    "msgstr \"x\\\"",
    "msgstr",
    "msgstr [0] \"x\"",
    "msgstr[] \"x\"",
    "msgstr[a] \"x\"",
    "msgstr[-1] \"x\"",
    "msgstr[1.0] \"x\"",
    "msgstr[0",
    "msgstr[0 \"x\"",
    "msgstr[0]",
    "msgstr[0] x",
    "msgstr[0] \"x",
    "msgstr[0] x\"",
    "msgstr[1] \"a\"b\"",
    "msgstr[0] \"x\\\"",
    "msgstr[99999999999999999999] \"x\"",
    "msgstr0 \"x\"",
    "\"x",
    "\"",
    "\"a\"b\"",
    "\"x\\\"",
    "\"x\" y",
    "x",
    "é",
    "x\"y\"",
    "msgfoo \"x\"",
    "MSGID \"x\"",
    "msgids \"x\"",
    "msgstr_plural \"x\"",
    "#|",
    "#| foo \"x\"",
    "#| msgid",
    "#| msgid x",
    "#| msgid \"x",
    "#| msgid \"a\"b\"",
    "#| msgctxt \"x",
    "#| msgid_plural x\"",
    "#| msgstr \"x\"",
    "#| \"x",
    "#~ foo \"x\"",
    "#~ msgid \"x",
    "#~ msgstr[x] \"a\"",
];

pub fn line_of(e: &SyntaxError) -> Option<usize> {
    match e {
        SyntaxError::UnescapedDoubleQuoteFound { line, .. }
        | SyntaxError::Custom { line, .. }
        | SyntaxError::Generic { line, .. } => Some(*line),
        _ => None,
    }
}

fn rejected(text: &str, line: usize, rec: &mut Rec) -> Res {
    rec.case(text.as_bytes());
    rec.trace(line as u64);
    match pofile(text) {
        Ok(f) => bad(format!(
            "line {line} is malformed but the text is accepted as {f:?}\n{text}"
        )),
        Err(e) => placed(&e, line, text),
    }
}

fn placed(e: &SyntaxError, line: usize, text: &str) -> Res {
    ensure!(
        line_of(e) == Some(line),
        "line {line} is malformed, the error says {e:?}\n{text}"
    );
    let shown = e.to_string();
    let n: Option<usize> = shown
        .split_once("at line ")
        .map(|x| x.1)
        .and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next())
        .and_then(|x| x.parse().ok());
    ensure!(
        n == Some(line),
        "line {line} is malformed, the error reads {shown:?}\n{text}"
    );
    ensure!(
        !shown.contains("in file"),
        "error for content names a file: {shown}"
    );
    Ok(())
}

/// Lines before, the line up to the string, lines after.
const STRINGS: [(&str, &str, &str); 17] = [
    ("", "msgctxt ", "msgid \"a\"\nmsgstr \"\"\n"),
    ("", "msgid ", "msgstr \"\"\n"),
    ("msgid \"a\"\n", "msgid_plural ", "msgstr[0] \"\"\n"),
    ("msgid \"a\"\n", "msgstr ", ""),
    ("msgid \"a\"\nmsgid_plural \"b\"\n", "msgstr[0] ", "msgstr[1] \"\"\n"),
    ("msgid \"a\"\nmsgid_plural \"b\"\n", "msgstr[0]", ""),
    ("msgctxt \"c\"\n", "", "msgid \"a\"\nmsgstr \"\"\n"),
    ("msgid \"a\"\n", "", "msgstr \"\"\n"),
    ("msgid \"a\"\nmsgstr \"\"\n", "", TAIL),
    ("", "#| msgctxt ", "msgid \"a\"\nmsgstr \"\"\n"),
    ("", "#| msgid ", "msgid \"a\"\nmsgstr \"\"\n"),
    ("#| msgid \"a\"\n", "#| msgid_plural ", "msgid \"a\"\nmsgstr \"\"\n"),
    ("#| msgid \"a\"\n", "#| ", "msgid \"a\"\nmsgstr \"\"\n"),
    ("", "#~ msgctxt ", "#~ msgid \"a\"\n#~ msgstr \"\"\n"),
    ("", "#~ msgid ", "#~ msgstr \"\"\n"),
    ("#~ msgid \"a\"\n", "#~ msgstr ", TAIL),
    ("#~ msgid \"a\"\n#~ msgid_plural \"b\"\n", "#~ msgstr[0] ", ""),
];

const TAIL: &str = "msgid \"z\"\nmsgstr \"y\"\n";

fn faults(m: &Machine, seq: &mut Vec<String>, rec: &mut Rec) -> Res {
    let p = seq.len() + 1;
    let mut lines: Vec<String> =
        BAD.iter().map(|b| b.to_string()).collect();
    for x in ALPHABET {
        if m.clone().step(x, p) == Verdict::Malformed {
            lines.push(text(x, p));
        }
    }
    let head = join(seq, "\n", true);
    for b in lines {
        rejected(&format!("{head}{b}\n"), p, rec)?;
        rejected(&format!("{head}{b}\n\n{TAIL}"), p, rec)?;
        if p <= 3 {
            rejected(&format!("{head}{b}"), p, rec)?;
            rejected(&format!("{head}\n  {b}\t\n{TAIL}"), p + 1, rec)?;
            let crlf = format!("{head}{b}\n{TAIL}").replace('\n', "\r\n");
            rejected(&crlf, p, rec)?;
            rejected(&format!("\u{feff}{head}{b}\n{TAIL}"), p, rec)?;
            // a second fault later does not move the first
            rejected(&format!("{head}{b}\nmsgid x\nmsgid\n"), p, rec)?;
        }
    }
    Ok(())
}

/// Strings with invalid escapes, standing where a string may stand.
const BAD_ESC: [&str; 12] = [
    "\\x",
    "a\\q b",
    "\\0",
    "\\ ",
    "\\é",
    "\\'",
    "\\\\\\x",
    "\\u0041",
    "a\\n\\xb",
    "\\a",
    "\\N",
    "\\\\ \\. \\\"",
];

fn bad_escape(
    m: &Machine,
    x: L,
    seq: &[String],
    rec: &mut Rec,
) -> Res {
    let p = seq.len() + 1;
    let a = match parts(x, p) {
        (_, None) => return Ok(()),
        (a, Some(_)) => a,
    };
    // close the message: first line kinds that lead to a complete file
    let mut n = m.clone();
    n.step(x, p);
    let mut closing = vec![];
    let mut q = p;
    while !n.settled() {
        q += 1;
        if q > p + 6 {
            return Ok(());
        }
        let mut found = false;
        for k in [K::Ms, K::Mx(0), K::Mi] {
            for obs in [false, true] {
                let mut c = n.clone();
                if !found && c.step(L { k, obs }, q) == Verdict::Good {
                    closing.push(text(L { k, obs }, q));
                    n = c;
                    found = true;
                }
            }
        }
        if !found {
            return Ok(());
        }
    }
    for b in BAD_ESC {
        let line = if a.is_empty() {
            format!("\"{b}\"")
        } else {
            format!("{a} \"{b}\"")
        };
        let head = join(seq, "\n", true);
        let t = format!("{head}{line}\n{}", join(&closing, "\n", true));
        for t in [t.clone(), format!("{t}\n{TAIL}")] {
            rec.case(t.as_bytes());
            rec.trace(p as u64 + 1);
            match pofile(t.as_str()) {
                Ok(f) => {
                    return bad(format!(
                        "invalid escape in line {p} accepted as {f:?}\n{t}"
                    ))
                }
                Err(e) => {
                    ensure!(
                        !e.to_string().contains("in file"),
                        "error for content names a file: {e}"
                    );
                    // a line number, if given, must not lie
                    if let Some(l) = line_of(&e) {
                        ensure!(
                            l == p,
                            "invalid escape in line {p}, error: {e}\n{t}"
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

fn dfs(
    m: &Machine,
    seq: &mut Vec<String>,
    depth: usize,
    rec: &mut Rec,
    at: &dyn Fn(&Machine, &mut Vec<String>, &mut Rec) -> Res,
) -> Res {
    rec.state(m.key().as_bytes());
    at(m, seq, rec)?;
    if depth == 0 {
        return Ok(());
    }
    for x in ALPHABET {
        let p = seq.len() + 1;
        let mut n = m.clone();
        if n.step(x, p) == Verdict::Good {
            seq.push(text(x, p));
            dfs(&n, seq, depth - 1, rec, at)?;
            seq.pop();
        }
    }
    Ok(())
}

fn unit(
    i: u64,
    depth: usize,
    rec: &mut Rec,
    at: &dyn Fn(&Machine, &mut Vec<String>, &mut Rec) -> Res,
) -> Res {
    let a = ALPHABET.len() as u64;
    let mut m = Machine::new();
    let mut seq = vec![];
    if i == 0 {
        dfs(&m, &mut seq, 1, rec, at)?;
    }
    for (p, k) in [i / a, i % a].into_iter().enumerate() {
        let x = ALPHABET[k as usize];
        if m.step(x, p + 1) != Verdict::Good {
            return Ok(());
        }
        seq.push(text(x, p + 1));
    }
    dfs(&m, &mut seq, depth - 2, rec, at)
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let a = ALPHABET.len() as u64;
    let mut v = vec![];
    let d = if quick { 4 } else { 5 };
    v.push(space(
        "faults",
        &format!("every well-formed prefix of up to {d} lines over 29 line kinds x (69 lines malformed anywhere + every kind out of place there) x continuations; short prefixes also x layouts"),
        a * a,
        move |i, rec| unit(i, d, rec, &faults),
    ));
    let d = if quick { 5 } else { 6 };
    v.push(space(
        "order",
        &format!("every well-formed prefix of up to {d} lines x every line kind out of place there"),
        a * a,
        move |i, rec| {
            unit(i, d, rec, &|m, seq, rec| {
                let p = seq.len() + 1;
                for x in ALPHABET {
                    if m.clone().step(x, p) == Verdict::Malformed {
                        let head = join(seq, "\n", true);
                        let b = text(x, p);
                        rejected(&format!("{head}{b}\n{TAIL}"), p, rec)?;
                    }
                }
                Ok(())
            })
        },
    ));
    let d = if quick { 4 } else { 5 };
    v.push(space(
        "escapes",
        &format!("every well-formed prefix of up to {d} lines x every string line that may follow x 12 invalid escapes, message completed"),
        a * a,
        move |i, rec| {
            unit(i, d, rec, &|m, seq, rec| {
                let p = seq.len() + 1;
                for x in ALPHABET {
                    if m.clone().step(x, p) == Verdict::Good {
                        bad_escape(m, x, seq, rec)?;
                    }
                }
                Ok(())
            })
        },
    ));
    // path input: same place, and the file is named
    let heads: [&str; 6] = [
        "",
        "# header\nmsgid \"\"\nmsgstr \"A: b\\n\"\n\n",
        "msgid \"a\"\nmsgstr \"b\"\n\n",
        "msgid \"a\"\n",
        "#, fuzzy\n#| msgid \"o\"\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n",
        "#~ msgid \"a\"\n#~ msgstr \"b\"\n",
    ];
    v.push(space(
        "paths",
        "6 contexts x 69 malformed lines and 3 others, given as a path: file named, same line as for content; with and without a later fault",
        6 * 72 * 2,
        move |i, rec| {
            let head = heads[(i % 6) as usize];
            let k = (i / 6 % 72) as usize;
            let n = head.lines().count() + 1;
            let more = if i / 6 / 72 == 0 { "" } else { "msgid x\n" };
            let mut bytes = head.as_bytes().to_vec();
            if k < 69 {
                bytes.extend(format!("{}\n{more}", BAD[k]).bytes());
            } else if k == 69 {
                bytes.extend(b"# \xff\xfe\n");
                bytes.extend(more.bytes());
            } else {
                bytes.extend(b"msgid \"x\"\nmsgstr \"\\z\"\n");
                bytes.extend(b"msgid \"k\"\nmsgstr \"k\"\n");
                if k == 71 {
                    bytes.extend(b"#| msgid \"\\j\"\nmsgid \"q\"\nmsgstr \"\"\n");
                }
            }
            rec.case(&bytes);
            rec.state(&bytes);
            rec.trace(n as u64);
            let path = scratch().join(format!("c05-{i}.po"));
            std::fs::write(&path, &bytes).unwrap();
            let p = path.to_str().unwrap();
            let e = match pofile(p) {
                Ok(f) => {
                    return bad(format!(
                        "malformed file accepted as {f:?}\n{}",
                        String::from_utf8_lossy(&bytes)
                    ))
                }
                Err(e) => e,
            };
            let by = pofile(bytes.clone());
            std::fs::remove_file(&path).ok();
            let shown = e.to_string();
            ensure!(
                shown.contains(&format!(" in file {p}")),
                "error for a path does not name it: {shown}"
            );
            let eb = match by {
                Ok(_) => return bad("bytes accepted where the file is not"),
                Err(e) => e,
            };
            ensure!(
                !eb.to_string().contains("in file"),
                "error for bytes names a file: {eb}"
            );
            ensure!(
                shown.replace(&format!(" in file {p}"), "") == eb.to_string(),
                "path error {shown:?}, bytes error {:?}",
                eb.to_string()
            );
            if k < 70 {
                ensure!(
                    line_of(&e) == Some(n),
                    "line {n} is malformed, the error says {shown}"
                );
            }
            Ok(())
        },
    ));
    // odd file names
    const NAMES: [&str; 16] = [
        "a b.po", "ñ中.po", "#x.po", "noext", " lead.po", "trail.po ",
        "in file.po", "a:b.po", "msgid.po", "q\"q.po", "{}%s.po", "-d.po",
        "back\\slash.po", "tab\t.po", ".hidden", "two\nlines.po",
    ];
    v.push(space(
        "names",
        "69 malformed lines in files of 16 odd names and of a long one",
        17 * 69,
        move |i, rec| {
            let d = digits(i, &[17, 69]);
            let dir = scratch().join(format!("c05-n{i}"));
            std::fs::create_dir(&dir).unwrap();
            let name = NAMES.get(d[0]).map(|n| n.to_string());
            let path = dir.join(name.unwrap_or("n".repeat(250)));
            let p = path.to_str().unwrap();
            let t = format!("msgid \"a\"\nmsgstr \"b\"\n\n{}\n", BAD[d[1]]);
            rec.case(p.as_bytes());
            rec.trace(4);
            std::fs::write(&path, &t).unwrap();
            let r = pofile(p);
            let w = pofile((p, 40));
            std::fs::remove_dir_all(&dir).ok();
            for r in [r, w] {
                match r {
                    Ok(f) => return bad(format!("malformed file accepted as {f:?}\n{t}")),
                    Err(e) => ensure!(
                        e.to_string().contains(&format!(" in file {p}"))
                            && line_of(&e) == Some(4),
                        "the error for line 4 of {p} says {e}"
                    ),
                }
            }
            Ok(())
        },
    ));
    // a quote after backslashes
    let r = [41, 13, 3, 6];
    v.push(space(
        "quotes",
        "a quote after 0..=40 letters and 0..=12 backslashes, followed by 0..=2 letters, in 6 kinds of string",
        product(&r),
        move |i, rec| {
            let d = digits(i, &r);
            let c = format!(
                "{}{}\"{}",
                "é".repeat(d[0]),
                "\\".repeat(d[1]),
                "y".repeat(d[2])
            );
            let (head, key, tail) = [
                ("", "msgid", "msgstr \"\"\n"),
                ("msgid \"a\"\n", "msgstr", ""),
                ("msgid \"a\"\nmsgid_plural \"b\"\n", "msgstr[0]", ""),
                ("", "#| msgid", "msgid \"a\"\nmsgstr \"\"\n"),
                ("msgid \"a\"\nmsgstr \"\"\n", "", ""),
                ("", "#~ msgctxt", "#~ msgid \"a\"\n#~ msgstr \"\"\n"),
            ][d[3]];
            let t = format!("{head}{key} \"{c}\"\n{tail}");
            if d[1] % 2 == 0 {
                return rejected(&t, head.lines().count() + 1, rec);
            }
            rec.case(t.as_bytes());
            rec.trace(1);
            match pofile(t.as_str()) {
                Ok(_) => Ok(()),
                Err(e) => bad(format!("well-formed text rejected: {e}\n{t}")),
            }
        },
    ));
    // whatever stands where a string is due
    const ST: [&str; 8] = ["\"", "\\", "n", "a", " ", "\t", "=", "é"];
    let n = 6;
    let kinds = STRINGS.len() as u64;
    v.push(space(
        "strings",
        &format!("all texts of up to {n} of 8 letters after the keyword of each of {kinds} kinds of string line, the message completed: malformed ones rejected at the line, invalid escapes rejected, the others accepted"),
        words_upto(8, n) * kinds,
        move |i, rec| {
            let (head, key, tail) = STRINGS[(i % kinds) as usize];
            let x = word_string(i / kinds, &ST);
            let t = format!("{head}{key}{x}\n{tail}");
            let body = x.trim();
            let line = head.lines().count() + 1;
            if body.is_empty() && key.is_empty() {
                return Ok(());
            }
            let inner = body
                .strip_prefix('"')
                .and_then(|b| b.strip_suffix('"'));
            let quoted = inner.is_some_and(|b| {
                let mut escaped = false;
                for c in b.chars() {
                    if c == '"' && !escaped {
                        return false;
                    }
                    escaped = c == '\\' && !escaped;
                }
                !escaped
            });
            if !quoted {
                return rejected(&t, line, rec);
            }
            rec.case(t.as_bytes());
            rec.trace(1);
            let valid = ref_unescape(inner.unwrap()).is_some();
            ensure!(
                pofile(t.as_str()).is_ok() == valid,
                "{} as a {} escape\n{t}",
                if valid { "rejected" } else { "accepted" },
                if valid { "valid" } else { "invalid" },
            );
            Ok(())
        },
    ));
    // plural indexes
    const IX: [&str; 11] =
        ["0", "1", "9", "a", "-", " ", ".", "é", "x", "٣", "_"];
    v.push(space(
        "indexes",
        "all plural indexes of up to 4 characters over 11 letters",
        words_upto(11, 4),
        move |i, rec| {
            let x = word_string(i, &IX);
            let number = x.chars().all(|c| c.is_ascii_digit());
            if number && (x.starts_with('0') && x.len() > 1) {
                return Ok(());
            }
            let t = format!("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[{x}] \"c\"\n");
            match x.parse::<usize>() {
                Ok(n) if number && n <= 999 => {
                    rec.case(t.as_bytes());
                    rec.trace(1);
                    match pofile(t.as_str()) {
                        Ok(_) => Ok(()),
                        Err(e) => bad(format!("well-formed text rejected: {e}\n{t}")),
                    }
                }
                Ok(_) if number => Ok(()),
                _ => rejected(&t, 3, rec),
            }
        },
    ));
    const AT: [&str; 16] = [
        "_", "_msgid \"a\"", "msgid_ \"a\"", "msgid _\"a\"",
        "msgid \"a\"_", "#| _", "#| msgid_ \"a\"", "#~ _",
        "#~ msgid_ \"a\"", "#| msgid \"a\"_",
        "_\"a\"", "\"a\"_", "#| msgid _\"a\"", "#~ msgid _\"a\"",
        "msgstr[0] _\"a\"", "msgstr[0]_\"a\"",
    ];
    v.push(space(
        "scalars",
        "every Unicode scalar value of the basic plane, and the first and last 128 of the others, that is no blank, where it makes a line malformed: 16 places of a line, in plural indexes and after a backslash",
        SOME_SCALARS,
        move |i, rec| {
            let c = some_scalar(i);
            if c.is_whitespace() || c.is_control() {
                return Ok(());
            }
            let m = "msgid \"a\"\nmsgstr \"b\"\n";
            for at in AT {
                if c == '#' && ["_", "_msgid \"a\"", "#~ _", "_\"a\""].contains(&at) {
                    continue;
                }
                let l = at.replace('_', &c.to_string());
                rejected(&format!("{m}{l}\n{TAIL}"), 3, rec)?;
            }
            if !c.is_ascii_digit() {
                let h = "msgid \"a\"\nmsgid_plural \"b\"\n";
                for x in [format!("{c}"), format!("0{c}"), format!("{c}0")] {
                    // a plus sign before a number is left open
                    if x != "+0" {
                        let l = format!("msgstr[{x}] \"b\"\n");
                        rejected(&format!("{h}{l}{TAIL}"), 3, rec)?;
                    }
                }
            }
            if !"\"\\nrtbvf".contains(c) {
                for (a, b) in
                    [("", ""), ("", "\\\\"), ("\\n", "n"), ("x", "\\\""), ("\\\\", " ")]
                {
                    let t =
                        format!("{m}msgid \"{a}\\{c}{b}\"\nmsgstr \"\"\n");
                    rec.case(t.as_bytes());
                    rec.trace(1);
                    ensure!(
                        pofile(t.as_str()).is_err(),
                        "invalid escape accepted\n{t}"
                    );
                }
            }
            Ok(())
        },
    ));
    let ns = counts(0, 1 << 17);
    v.push(space(
        "far-lines",
        "each malformed line after the neighbours of every power of two and ten up to 2^17 of blank and of comment lines",
        (ns.len() * 69 * 2) as u64,
        move |i, rec| {
            let d = digits(i, &[69, 2, ns.len()]);
            let n = ns[d[2]];
            // far ones with a few malformed lines only
            if n > 2000 && d[0] % 10 > 0 {
                return Ok(());
            }
            let mut t = ["\n", "# c\n"][d[1]].repeat(n);
            t += BAD[d[0]];
            t += "\n";
            rejected(&t, n + 1, rec)
        },
    ));
    v.push(space(
        "far",
        "each malformed line after 0..=400 well-formed messages",
        401 * 69,
        move |i, rec| {
            let n = (i / 69) as usize;
            let b = BAD[(i % 69) as usize];
            let mut t = String::new();
            for j in 0..n {
                t += &format!("#: f:{j}\nmsgid \"a{j}\"\nmsgstr \"b\"\n\n");
            }
            t += b;
            t += "\n";
            t += TAIL;
            rejected(&t, n * 4 + 1, rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "model_checking",
        rule: "at every state reached by the specification machine each malformed continuation is appended and the real parser must reject the text at that line; states are abstract machine states",
        assumptions: &[
            "the position of an invalid escape is not reported by the library and only checked when given",
        ],
        spaces,
    }
}
