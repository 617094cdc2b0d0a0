//! C17: all ways of giving the same input are equivalent, options are kept.

use super::c02::FRAGS;
use super::c03::RICH;
use super::c05::BAD;
use super::c10;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::s;
use crate::mo;
use crate::model::*;
use crate::shapes::{counts, sized, DIMENSIONS};
use rspolib::{mofile, pofile, FileOptions, MOFile, POFile};
use std::path::{Path, PathBuf};

fn temp(i: u64, ext: &str) -> PathBuf {
    let t = hash_bytes(format!("{:?}", std::thread::current().id()).as_bytes());
    scratch().join(format!("c17-{i}-{t:x}.{ext}"))
}

type Po = Result<POFile, String>;
type Mo = Result<MOFile, String>;

fn po(o: impl Into<FileOptions>) -> Po {
    pofile(o).map_err(|e| e.to_string())
}
fn mo_(o: impl Into<FileOptions>) -> Mo {
    mofile(o).map_err(|e| e.to_string())
}

/// Every way of opening `bytes` at width `w` (78 where none can be given).
fn po_forms(bytes: &[u8], p: &Path, w: usize) -> Vec<(&'static str, usize, Po)> {
    let path = p.to_str().unwrap();
    let b = bytes.to_vec();
    let mut v: Vec<(&'static str, usize, Po)> = vec![
        ("path", 78, po(path)),
        ("Path", 78, po(p)),
        ("path, width", w, po((path, w))),
        ("bytes", 78, po(b.clone())),
        ("bytes, width", w, po((b.clone(), w))),
        ("options of bytes", w, po(FileOptions::from((b.clone(), w)))),
        (
            "copied options of bytes",
            w,
            po(&FileOptions::from((b.clone(), w))),
        ),
        ("copied options of path", w, po(&FileOptions::from((path, w)))),
        (
            "spelled out options of bytes",
            w,
            po(FileOptions {
                path_or_content: s(""),
                wrapwidth: w,
                byte_content: Some(b),
            }),
        ),
        (
            "spelled out options of path",
            w,
            po(FileOptions {
                path_or_content: s(path),
                wrapwidth: w,
                byte_content: None,
            }),
        ),
    ];
    if let Ok(t) = std::str::from_utf8(bytes) {
        v.push(("content", 78, po(t)));
        v.push(("content, width", w, po((t, w))));
        v.push(("options of content", w, po(FileOptions::from((t, w)))));
        v.push((
            "copied options of content",
            w,
            po(&FileOptions::from(&FileOptions::from((t, w)))),
        ));
        v.push((
            "cloned options of content",
            w,
            po(FileOptions::from((t, w)).clone()),
        ));
    }
    v
}

fn po_judge(bytes: &[u8], w: usize, i: u64, rec: &mut Rec) -> Res {
    po_judge_at(bytes, w, temp(i, "po"), rec)
}

fn po_judge_at(bytes: &[u8], w: usize, p: PathBuf, rec: &mut Rec) -> Res {
    rec.case(bytes);
    rec.state(bytes);
    std::fs::write(&p, bytes).unwrap();
    let forms = po_forms(bytes, &p, w);
    let direct = std::str::from_utf8(bytes)
        .ok()
        .filter(|_| forms[0].2.is_ok())
        .map(|t| (POFile::from(t), POFile::from(p.as_path())));
    std::fs::remove_file(&p).unwrap();
    rec.trace(forms.len() as u64);
    let at = format!(" in file {}", p.display());
    let want = match &forms[0].2 {
        Ok(f) => Ok(Fil::of(f)),
        Err(e) => Err(e.replace(&at, "")),
    };
    for (name, width, got) in &forms {
        let g = match got {
            Ok(f) => Ok(Fil::of(f)),
            Err(e) => Err(e.replace(&at, "")),
        };
        match (&g, &want) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "{name} and path differ: {}", diff(a, b))
            }
            _ => ensure!(
                g == want,
                "{name} gives {g:?}, path gives {want:?}"
            ),
        }
        if let Ok(f) = got {
            ensure!(
                f.options.wrapwidth == *width,
                "{name}: width {} instead of {width}",
                f.options.wrapwidth
            );
            let text = f.to_string();
            let plain = Fil::of(f).po(*width).to_string();
            ensure!(
                text == plain,
                "{name}: rendered as {text:?} instead of {plain:?} at width {width}"
            );
            // the others have just been found to be the same
            let once = ["path", "path, width"].contains(name);
            for e in f.entries.iter().filter(|_| once) {
                ensure!(
                    text.contains(&e.to_string_with_wrapwidth(*width)),
                    "{name}: rendering does not use width {width}"
                );
                ensure!(
                    *name != "path"
                        || e.to_string() == e.to_string_with_wrapwidth(78),
                    "{name}: a message by itself is not rendered at width 78"
                );
            }
        }
    }
    if let (Some((a, b)), Ok(w)) = (direct, &want) {
        ensure!(
            Fil::of(&a) == *w && Fil::of(&b) == *w,
            "POFile::from differs from opening"
        );
    }
    Ok(())
}

fn mo_forms(b: &[u8], p: &Path, w: usize) -> Vec<(&'static str, usize, Mo)> {
    let path = p.to_str().unwrap();
    let b = b.to_vec();
    vec![
        ("bytes", 78, mo_(b.clone())),
        ("path", 78, mo_(path)),
        ("Path", 78, mo_(p)),
        ("path, width", w, mo_((path, w))),
        ("bytes, width", w, mo_((b.clone(), w))),
        ("options of bytes", 78, mo_(FileOptions::from(b.clone()))),
        (
            "copied options of bytes",
            w,
            mo_(&FileOptions::from((b.clone(), w))),
        ),
        ("copied options of path", w, mo_(&FileOptions::from((path, w)))),
        (
            "spelled out options",
            w,
            mo_(FileOptions {
                path_or_content: s(""),
                wrapwidth: w,
                byte_content: Some(b),
            }),
        ),
    ]
}

fn mo_judge(b: &[u8], w: usize, i: u64, rec: &mut Rec) -> Res {
    mo_judge_at(b, w, temp(i, "mo"), rec)
}

fn mo_judge_at(b: &[u8], w: usize, p: PathBuf, rec: &mut Rec) -> Res {
    rec.case(b);
    rec.state(b);
    std::fs::write(&p, b).unwrap();
    let forms = mo_forms(b, &p, w);
    std::fs::remove_file(&p).unwrap();
    rec.trace(forms.len() as u64);
    let key = |f: &Mo| {
        f.as_ref()
            .map(|f| {
                (
                    f.entries.clone(),
                    meta_of(&f.metadata),
                    f.magic_number,
                    f.version,
                )
            })
            .map_err(|e| e.clone())
    };
    let want = key(&forms[0].2);
    for (name, width, f) in &forms {
        let got = key(f);
        ensure!(got == want, "{name} gives {got:?}, bytes {want:?}");
        if let Ok(f) = f {
            ensure!(
                f.options.wrapwidth == *width,
                "{name}: width {} instead of {width}",
                f.options.wrapwidth
            );
            let mut plain = MOFile::new(FileOptions::from(("", *width)));
            plain.metadata = f.metadata.clone();
            plain.entries = f.entries.clone();
            ensure!(
                plain.to_string() == f.to_string(),
                "{name}: rendering does not use width {width}"
            );
            for e in &f.entries {
                ensure!(
                    f.to_string()
                        .contains(&e.to_string_with_wrapwidth(*width)),
                    "{name}: rendering does not use width {width}"
                );
                ensure!(
                    e.to_string() == e.to_string_with_wrapwidth(78),
                    "{name}: a message by itself is not rendered at width 78"
                );
            }
        }
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    let n = if quick { 2 } else { 3 };
    v.push(space(
        "fragments",
        &format!("every sequence of up to {n} of 36 fragments opened in 15 ways, well-formed or not"),
        words_upto(FRAGS.len(), n),
        move |i, rec| {
            let x = word_string(i, &FRAGS);
            po_judge(x.as_bytes(), [20, 1, 100][i as usize % 3], i, rec)
        },
    ));
    v.push(space(
        "malformed",
        "69 malformed lines alone, after and before a message, with Unix and DOS line ends",
        69 * 3 * 2,
        move |i, rec| {
            let d = digits(i, &[69, 3, 2]);
            let m = "msgid \"a\"\nmsgstr \"b\"\n";
            let x = match d[1] {
                0 => format!("{}\n", BAD[d[0]]),
                1 => format!("{m}\n{}\n", BAD[d[0]]),
                _ => format!("{}\n{m}", BAD[d[0]]),
            };
            let x = if d[2] == 1 { x.replace('\n', "\r\n") } else { x };
            po_judge(x.as_bytes(), 50, i, rec)
        },
    ));
    v.push(space(
        "prefixes",
        "every prefix of a file with every feature, in UTF-8 bytes, also after a byte order mark",
        2 * (RICH.len() as u64 + 1),
        move |i, rec| {
            let k = (i / 2) as usize;
            let mut b =
                if i % 2 == 1 { vec![0xef, 0xbb, 0xbf] } else { vec![] };
            b.extend(&RICH.as_bytes()[..k]);
            po_judge(&b, 30, i, rec)
        },
    ));
    v.push(space(
        "widths",
        "a file with every feature and long texts opened at every width from 0 to 200 and around 2^31",
        204,
        move |i, rec| {
            let w = if i <= 200 {
                i as usize
            } else {
                (1usize << 31) + i as usize - 202
            };
            let mut x = s(RICH);
            for (k, t) in crate::menu::texts().iter().enumerate() {
                let q = ref_escape(t);
                x.push_str(&format!(
                    "\n# {}\n#: {}\nmsgid \"{k} {q}\"\nmsgstr \"{q}\"\n",
                    "comment ".repeat(k),
                    "path/to/a.c:12 ".repeat(k)
                ));
            }
            po_judge(x.as_bytes(), w, i, rec)
        },
    ));
    // bytes that are not text
    v.push(space(
        "bytes",
        "every byte and pair of bytes inside a string, in a comment and alone",
        (256 + 65536) * 3,
        move |i, rec| {
            let w = word(i / 3 + 1, 256);
            let b: Vec<u8> = w.into_iter().map(|x| x as u8).collect();
            if quick && b.len() == 2 && b[0] >= 0x20 && b[0] < 0x7f {
                // plain ASCII first bytes only in the thorough tier
                return Ok(());
            }
            let x = match i % 3 {
                0 => [b"msgid \"".as_slice(), &b, b"\"\nmsgstr \"x\"\n"]
                    .concat(),
                1 => [b"# ".as_slice(), &b, b"\nmsgid \"a\"\nmsgstr \"x\"\n"]
                    .concat(),
                _ => b,
            };
            po_judge(&x, 78, i, rec)
        },
    ));
    let base = c10::bases();
    let maxlen = base.iter().map(|b| b.len()).max().unwrap();
    v.push(space(
        "mo",
        "10 MO files and every prefix of them opened in 9 ways",
        (base.len() * (maxlen + 1)) as u64,
        move |i, rec| {
            let d = digits(i, &[maxlen + 1, base.len()]);
            if d[0] > base[d[1]].len() {
                return Ok(());
            }
            let w = [10, 40, 78, 3][d[0] % 4];
            mo_judge(&base[d[1]][..d[0]], w, i, rec)
        },
    ));
    v.push(space(
        "mo-words",
        "an MO file with every word replaced by 10 values, opened in 9 ways",
        40 * 10,
        move |i, rec| {
            let d = digits(i, &[40, 10]);
            let mut b = c10::bases()[2].clone();
            let x = [0u32, 1, 2, 3, 28, 60, 1000, 0xffff, 1 << 31, !0][d[1]];
            if let Some(w) = b.get_mut(4 * d[0]..4 * d[0] + 4) {
                w.copy_from_slice(&mo::bytes(x, false));
            }
            mo_judge(&b, 5, i, rec)
        },
    ));
    v.push(space(
        "mo-widths",
        "an MO file with long texts opened at every width from 0 to 200",
        201,
        move |i, rec| {
            let cat = mo::catalogue();
            let pairs: Vec<_> =
                cat.iter().map(|m| (m.orig(), m.trans())).collect();
            let b = mo::write(&pairs, &mo::Layout::plain(false, 0));
            mo_judge(&b, i as usize, i, rec)
        },
    ));
    v.push(space(
        "nothing",
        "names that are neither a file nor content: missing files, directories, odd names; empty inputs",
        14,
        move |i, rec| {
            rec.trace(2);
            let dir = scratch();
            let d = dir.to_str().unwrap();
            let name = match i {
                0 => s("no-such-file.po"),
                1 => s("/no/such/dir/file.mo"),
                2 => s(d),
                3 => format!("{d}/missing.mo"),
                4 => s("."),
                5 => s("/"),
                6 => "x".repeat(5000),
                7 => s("a\0b"),
                8 => s("\u{feff}"),
                9 => s("/dev/null"),
                10 => s("no such file"),
                11 => s("~/x.po"),
                12 => format!("{d}/missing/"),
                _ => s("*.po"),
            };
            rec.case(name.as_bytes());
            for (how, r) in [
                ("name", mofile(name.as_str()).is_err()),
                ("name, width", mofile((name.as_str(), 5)).is_err()),
                ("Path", mofile(Path::new(&name)).is_err()),
            ] {
                ensure!(r, "opening {name:?} as MO by {how} succeeds");
            }
            if ![8, 9].contains(&i) {
                ensure!(
                    pofile(name.as_str()).is_err(),
                    "opening {name:?} as PO succeeds"
                );
                ensure!(
                    pofile(Path::new(&name)).is_err(),
                    "opening {name:?} as PO path succeeds"
                );
            }
            ensure!(
                mofile(FileOptions::default()).is_err()
                    && mofile("").is_err()
                    && mofile(vec![]).is_err(),
                "an empty MO input is accepted"
            );
            for (how, r) in [
                ("content", pofile("")),
                ("bytes", pofile(vec![])),
                ("options", pofile(FileOptions::default())),
            ] {
                match r {
                    Ok(f) => ensure!(
                        Fil::of(&f) == Fil::default(),
                        "empty {how} gives {:?}",
                        Fil::of(&f)
                    ),
                    Err(e) => {
                        return bad(format!("empty {how} rejected: {e}"))
                    }
                }
            }
            Ok(())
        },
    ));
    // the name of the file
    v.push(space(
        "long-names",
        "a well-formed and a malformed PO file and an MO file under a path of every length up to 300 and at the neighbours of the powers of two up to 4095 bytes, in short and in long directories, of 1 and 2 byte characters",
        (300 + 4 * 3) * 3 * 2,
        move |i, rec| {
            let d = digits(i, &[312, 3, 2]);
            let n = if d[0] < 300 {
                d[0] + 1
            } else {
                (512usize << ((d[0] - 300) / 3)) + (d[0] - 300) % 3 - 1
            };
            let top = temp(i, "d");
            let c = ["x", "é"][d[2]];
            // as many directories as needed, then the name
            let mut p = s(top.to_str().unwrap());
            if n > 4095 || n < p.len() + 2 {
                return Ok(());
            }
            let mut left = n - p.len();
            while left > 240 {
                p = format!("{p}/{}", c.repeat(200 / c.len()));
                left = n - p.len();
            }
            let last = if left < 4 { left - 1 } else { (left - 1) / c.len() };
            let pad = if left < 4 { 0 } else { (left - 1) % c.len() };
            p = format!(
                "{p}/{}{}",
                "y".repeat(pad),
                if left < 4 { "z".repeat(last) } else { c.repeat(last) }
            );
            let p = PathBuf::from(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            let r = match d[1] {
                0 => po_judge_at(RICH.as_bytes(), 40, p, rec),
                1 => po_judge_at(b"msgid \"a\"\nmsgstr \"\n", 40, p, rec),
                _ => mo_judge_at(&c10::bases()[2], 40, p, rec),
            };
            std::fs::remove_dir_all(&top).unwrap();
            r
        },
    ));
    const NAMES: [&str; 12] =
        ["a", " ", "#", "\n", "msgid \"a\"", ":", "\\", "-", ".", "é", "\"", "~"];
    let n = if quick { 3 } else { 4 };
    v.push(space(
        "names",
        &format!("a well-formed and a malformed PO file and an MO file under every name of up to {n} of 12 pieces, among them blanks, line feeds and lines of PO files"),
        words_upto(12, n) * 3,
        move |i, rec| {
            let name = word_string(i / 3, &NAMES);
            if ["", ".", ".."].contains(&name.as_str()) {
                return Ok(());
            }
            let top = temp(i, "d");
            std::fs::create_dir_all(&top).unwrap();
            let p = top.join(&name);
            let r = match i % 3 {
                0 => po_judge_at(RICH.as_bytes(), 40, p, rec),
                1 => po_judge_at(b"msgid \"a\"\nmsgstr \"\n", 40, p, rec),
                _ => mo_judge_at(&c10::bases()[2], 40, p, rec),
            };
            std::fs::remove_dir_all(&top).unwrap();
            r
        },
    ));
    v.push(space(
        "options",
        "options made of 4 contents x 4 byte contents x 200 widths and copied in every way",
        16 * 200,
        move |i, rec| {
            rec.trace(3);
            let d = digits(i, &[4, 4, 200]);
            let o = FileOptions {
                path_or_content: s(["", "x", "a/b.po", "é\n"][d[0]]),
                wrapwidth: d[2],
                byte_content: [
                    None,
                    Some(vec![]),
                    Some(vec![0, 255]),
                    Some(b"text".to_vec()),
                ][d[1]]
                    .clone(),
            };
            rec.state(format!("{o:?}").as_bytes());
            ensure!(FileOptions::from(&o) == o, "copying {o:?}");
            ensure!(o.clone() == o, "cloning {o:?}");
            ensure!(
                POFile::new(o.clone()).options == o
                    && MOFile::new(o.clone()).options == o,
                "a new file does not keep {o:?}"
            );
            let f = POFile::new(o.clone());
            ensure!(
                MOFile::from(&f).options.wrapwidth == o.wrapwidth,
                "conversion does not keep the width of {o:?}"
            );
            Ok(())
        },
    ));
    // characters across the boundaries of buffers
    let powers = if quick { 8 } else { 10 };
    v.push(space(
        "boundaries",
        "characters of 1 to 4 bytes starting 0 to 5 bytes before every power of two from 256 to 2^15 (thorough 2^17), in a string, a comment and a continuation, without and with a byte order mark",
        (powers * 6 * 4 * 3 * 2) as u64,
        move |i, rec| {
            let d = digits(i, &[powers, 6, 4, 3, 2]);
            let at = (256usize << d[0]) - d[1];
            let c = ["a", "é", "中", "😀"][d[2]];
            let mut x = s(["", "\u{feff}"][d[4]]);
            x.push_str("msgid \"k\"\nmsgstr \"v\"\n\n");
            let open = ["msgid \"", "# ", "msgid \"\"\n\""][d[3]];
            x.push_str(open);
            let pad = at - x.len();
            x.push_str(&"p".repeat(pad));
            x.push_str(&format!("{c}{c} {c}"));
            x.push_str(["\"\nmsgstr \"w\"\n", "\nmsgid \"l\"\nmsgstr \"w\"\n", "\"\n\"more\"\nmsgstr \"w\"\n"][d[3]]);
            x.push_str("\nmsgid \"last\"\nmsgstr \"z\"\n");
            po_judge(x.as_bytes(), 78, i, rec)?;
            let f = pofile(x.as_str()).map_err(|e| Fail::Bad(e.to_string()))?;
            ensure!(
                f.entries.len() == 3 && f.entries[2].msgid == "last",
                "{} messages instead of 3",
                f.entries.len()
            );
            Ok(())
        },
    ));
    let sizes = counts(20, if quick { 4097 } else { 1 << 17 });
    let n = sizes.len();
    v.push(space(
        "sizes",
        "PO texts with each number of messages, comment lines, references and flags, and texts of each length, up to 4097 (thorough 2^17), opened in 15 ways; the MO files of their messages in 9",
        (DIMENSIONS * n) as u64,
        move |i, rec| {
            let d = digits(i, &[DIMENSIONS, n]);
            let f = match sized(d[0], sizes[d[1]]) {
                Some(f) if sizes[d[1]] <= 600 || !quick || d[0] > 8 => f,
                _ => return Ok(()),
            };
            po_judge(ref_write(&f).0.as_bytes(), 60, i, rec)?;
            if d[0] == 1 || d[0] == 9 || d[0] == 10 {
                use rspolib::AsBytes;
                mo_judge(&f.po(78).as_bytes(), 60, i, rec)?;
            }
            Ok(())
        },
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "model_checking",
        rule: "every enumerated input is opened in every way the library offers and all outcomes are compared with each other, error texts included (apart from the file name); states are distinct inputs",
        assumptions: &[
            "content that happens to name an existing file is a path",
        ],
        spaces,
    }
}
