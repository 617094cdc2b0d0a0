//! C02: re-saving a parsed PO file is stable.

use super::c01::same_file;
use crate::engine::*;
use crate::gen::*;
use crate::lines::*;
use crate::menu::*;
use crate::model::*;
use crate::shapes::*;
use rspolib::{pofile, POFile};

/// Load/save rounds of an accepted text.
pub fn stable(text: &str, w: usize, rec: &mut Rec) -> Res {
    rec.case(text.as_bytes());
    rec.trace(2);
    let f: POFile = match pofile((text, w)) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let once = f.to_string();
    rec.state(once.as_bytes());
    let g: POFile = match pofile((once.as_str(), w)) {
        Ok(g) => g,
        Err(e) => {
            return bad(format!(
                "width {w}: accepted text\n{text}\nis saved as\n{once}\nwhich is rejected: {e}"
            ))
        }
    };
    let twice = g.to_string();
    if let Err(Fail::Bad(m)) = same_file(&Fil::of(&f), &Fil::of(&g), w) {
        return bad(format!(
            "width {w}: {m}\ntext\n{text}\nsaved as\n{once}"
        ));
    }
    // previous-message strings of obsolete messages are not read back
    let settled = if f.entries.iter().any(|e| {
        e.obsolete
            && (e.previous_msgid.is_some()
                || e.previous_msgctxt.is_some()
                || e.previous_msgid_plural.is_some())
    }) {
        let mut f = f.clone();
        for e in f.entries.iter_mut().filter(|e| e.obsolete) {
            e.previous_msgid = None;
            e.previous_msgctxt = None;
            e.previous_msgid_plural = None;
        }
        f.to_string()
    } else {
        once.clone()
    };
    if settled != twice {
        return bad(format!(
            "width {w}: text\n{text}\nsaved as\n{once}\nsaved again as\n{twice}"
        ));
    }
    rec.trace(2);
    Ok(())
}

/// Texts with unusual but accepted constructs.
pub const FRAGS: [&str; 36] = [
    "msgid \"a\"\n",
    "msgstr \"b\"\n",
    "msgid \"\"\n",
    "msgstr \"\"\n",
    "\"K: v\\n\"\n",
    "\"c\"\n",
    "# tc\n",
    "#\n",
    "#. gc\n",
    "#: f.c:1 g\n",
    "#, fuzzy, x\n",
    "#| msgid \"p\"\n",
    "msgctxt \"x\"\n",
    "msgid_plural \"as\"\n",
    "msgstr[0] \"s0\"\n",
    "msgstr[2] \"s2\"\n",
    "#~ msgid \"oa\"\n",
    "#~ msgstr \"ob\"\n",
    "\n",
    "##  two\n",
    "#.   \t spaced  gc\n",
    "#: :: a: :5 b:c:9\n",
    "#,  ,, a,,b ,\n",
    "#~ msgctxt \"ox\"\n",
    "#~| msgid \"gone\"\n",
    "#| msgctxt \"\"\n",
    "#| msgid_plural \"pp\\n\"\n",
    "#| \"pc\"\n",
    "msgstr \"tail  \\n \\t\"\n",
    "msgid \"中文 \\\"q\\\\ \"\n",
    "#   \t  \n",
    "#~ # tc in obsolete\n",
    "#~ #, fuzzy\n",
    "#~ \"oc\"\n",
    "msgctxt \"\"\n",
    "\"Novalue\\nA:b\\nA: c\\n: e\\nB :  d  \\n\"\n",
];

fn long_lines() -> Vec<String> {
    let mut v = vec![];
    for t in texts() {
        let q = ref_escape(&t);
        v.push(format!("msgid \"{q}\"\nmsgstr \"{q}\"\n"));
        v.push(format!(
            "#| msgid \"{q}\"\nmsgctxt \"{q}\"\nmsgid \"k\"\nmsgid_plural \"{q}\"\nmsgstr[0] \"\"\nmsgstr[1] \"{q}\"\n"
        ));
        v.push(format!("#~ msgid \"{q}\"\n#~ msgstr \"{q}\"\n"));
        v.push(format!("msgid \"\"\nmsgstr \"X-Long: {q}\\n\"\n"));
    }
    for c in comments() {
        for m in ["#", "#."] {
            let c: String = c.lines().map(|l| format!("{m} {l}\n")).collect();
            v.push(format!("msgid \"0\"\nmsgstr \"\"\n\n{c}msgid \"a\"\nmsgstr \"b\"\n"));
            v.push(format!("{c}\nmsgid \"a\"\nmsgstr \"b\"\n"));
            v.push(format!("{c}#~ msgid \"a\"\n#~ msgstr \"b\"\n"));
        }
    }
    for r in occs() {
        let c: Vec<String> = r
            .iter()
            .map(|(a, b)| if b.is_empty() { a.clone() } else { format!("{a}:{b}") })
            .collect();
        v.push(format!("#: {}\nmsgid \"a\"\nmsgstr \"b\"\n", c.join(" ")));
    }
    for f in flagss() {
        v.push(format!("#, {}\nmsgid \"a\"\nmsgstr \"b\"\n", f.join(",")));
    }
    v
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "lines",
        &format!("all sequences of up to {n} lines over 29 line kinds, well formed or not"),
        words_upto(ALPHABET.len(), n),
        move |i, rec| {
            let t: String = word(i, ALPHABET.len())
                .into_iter()
                .enumerate()
                .map(|(p, k)| text(ALPHABET[k], p + 1) + "\n")
                .collect();
            stable(&t, 78, rec)
        },
    ));
    v.push(space(
        "fragments",
        &format!("all sequences of up to {n} of 36 fragments, oddly spaced and oddly ordered ones included"),
        words_upto(FRAGS.len(), n),
        move |i, rec| {
            let t: String = word(i, FRAGS.len())
                .into_iter()
                .map(|k| FRAGS[k])
                .collect();
            stable(&t, 78, rec)
        },
    ));
    // one message between odd lines: deeper around a full message
    let n2 = if quick { 2 } else { 3 };
    let per = words_upto(FRAGS.len(), n2);
    v.push(space(
        "around",
        &format!("a complete message with up to {n2} fragments before its msgid and up to {n2} after its msgstr, and a following message"),
        per * words_upto(FRAGS.len(), 2),
        move |i, rec| {
            let w = |i| -> String {
                word(i, FRAGS.len()).into_iter().map(|k| FRAGS[k]).collect()
            };
            let (a, b) = (w(i % per), w(i / per));
            stable(
                &format!("{a}msgid \"mid\"\nmsgstr \"mstr\"\n{b}msgid \"z\"\nmsgstr \"z\"\n"),
                78,
                rec,
            )
        },
    ));
    let ll = long_lines();
    let maxw = if quick { 100 } else { 400 };
    let nl = ll.len() as u64;
    v.push(space(
        "widths",
        &format!("{nl} texts with boundary content x every width 0..={maxw}"),
        nl * (maxw + 1),
        move |i, rec| {
            stable(&ll[(i % nl) as usize], (i / nl) as usize, rec)
        },
    ));
    let ls = ["a", " ", "-", "é", "中", "\t", "\"", "\\", "bb", "#"];
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "short",
        &format!("all texts of up to {n} of 10 pieces as translator comment, extracted comment and string, x widths 3..=9"),
        words_upto(ls.len(), n),
        move |i, rec| {
            let c = word_string(i, &ls);
            let q = ref_escape(&c);
            let t = format!(
                "msgid \"0\"\nmsgstr \"\"\n# {c}\n#. {c}\n#| msgid \"{q}\"\nmsgid \"a{q}\"\nmsgstr \"{q}\"\n"
            );
            for w in 3..=9 {
                stable(&t, w, rec)?;
            }
            Ok(())
        },
    ));
    // one-edit neighbours of a rich file
    let base = crate::props::c03::RICH;
    let ed: [&str; 10] = ["", "\"", "\\", "#", " ", "\n", "~", "m", "中", ":"];
    let len = base.chars().count() as u64;
    v.push(space(
        "edits",
        "every deletion, insertion and replacement of one character (10 letters) in a rich file",
        (len + 1) * 20,
        move |i, rec| {
            let p = (i / 20) as usize;
            let e = ed[(i % 10) as usize];
            let skip = if i % 20 < 10 { 0 } else { 1 };
            let c: Vec<char> = base.chars().collect();
            let mut t: String = c[..p].iter().collect();
            t += e;
            t.extend(c[(p + skip).min(c.len())..].iter());
            stable(&t, 78, rec)?;
            stable(&t, 20, rec)
        },
    ));
    let ns = counts(if quick { 150 } else { 1000 }, 1 << 16);
    v.push(space(
        "sizes",
        "every number up to 150 (thorough 1000), and the neighbours of the powers of two and ten up to 2^12 or 2^16, of messages, plural forms, flags, references, lines of comments and header, metadata items and letters in every kind of text",
        (ns.len() * DIMENSIONS) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, ns.len()]);
            match sized(d[0], ns[d[1]]) {
                Some(f) => stable(&ref_write(&f).0, [78, 30][d[1] % 2], rec),
                None => Ok(()),
            }
        },
    ));
    v.push(space(
        "scalars",
        "every Unicode scalar value of the basic plane, and the first and last 128 of the others, in every field, at the beginning, in the middle, at the end and alone",
        SOME_SCALARS,
        |i, rec| {
            stable(&ref_write(&scalar_file(some_scalar(i))).0, 78, rec)
        },
    ));
    // relations between the fields of one message and between messages
    let r = related_radices();
    v.push(space(
        "related",
        "one message whose context, source, plural source, up to 3 translations, references, comments and previous strings are drawn from the same three texts (absent, empty, equal, differing in a final newline) x flags x obsolete, after another message, at widths 6 and 78",
        product(&r),
        move |i, rec| {
            let e = match related(&digits(i, &r)) {
                Some(e) => e,
                None => return Ok(()),
            };
            let f = Fil { ents: vec![twin(0), e], ..Default::default() };
            let (t, _) = ref_write(&f);
            stable(&t, 6, rec)?;
            stable(&t, 78, rec)
        },
    ));
    // plural translations: which are present, in which order, and which empty
    let n = if quick { 5 } else { 6 };
    v.push(space(
        "plurals",
        &format!("all lists of up to {n} plural translation lines, index 0..=4 or 10, empty or not"),
        words_upto(12, n),
        move |i, rec| {
            let mut t = s("msgid \"a\"\nmsgid_plural \"as\"\n");
            for k in word(i, 12) {
                let x = ["", "x"][k % 2];
                t += &format!("msgstr[{}] \"{x}\"\n", [0, 1, 2, 3, 4, 10][k / 2]);
            }
            t += "\nmsgid \"z\"\nmsgstr \"z\"\n";
            stable(&t, 78, rec)
        },
    ));
    v.push(space(
        "twins",
        "every ordered pair of 144 small messages that may share source, context, plural or translation, obsolete or fuzzy",
        (TWINS * TWINS) as u64,
        move |i, rec| {
            let d = digits(i, &[TWINS, TWINS]);
            let ents = vec![twin(d[0]), twin(d[1])];
            let (t, _) = ref_write(&Fil { ents, ..Default::default() });
            stable(&t, 78, rec)
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "model_checking",
        rule: "every enumerated text accepted by the real parser is saved and loaded twice; states are distinct saved texts",
        assumptions: &[],
        spaces,
    }
}
