//! C21: operations do not depend on what was done before.

use super::c03::RICH;
use super::c08::clean_metas;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::*;
use crate::mo;
use crate::model::*;
use rspolib::escaping::{escape, unescape};
use rspolib::{
    mofile, pofile, AsBytes, EntryCmpByOptions, MOFile, Merge, POEntry,
    POFile, Save, SaveAsMOFile, MAGIC, MAGIC_SWAPPED,
};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::Command;
use std::sync::OnceLock;

const OTHER: &str = "# Other\nmsgid \"\"\nmsgstr \"\"\n\"X-Z: 1\\n\"\n\"Language: pt\\n\"\n\nmsgctxt \"ctx\"\nmsgid \"id\\nid2\"\nmsgstr \"x\"\n\n#, fuzzy\nmsgid \"new one with a rather long text that has to be wrapped somewhere, as it is longer than a line\"\nmsgstr \"é\"\n\n#~ msgid \"gone\"\n#~ msgstr \"g\"\n";

fn mo_bytes(be: bool) -> Vec<u8> {
    let pairs: Vec<_> = mo::catalogue()
        .iter()
        .map(|m| (m.orig(), m.trans()))
        .collect();
    mo::write(&pairs, &mo::Layout::plain(be, 0))
}

fn show_po(r: Result<POFile, impl std::fmt::Display>) -> String {
    match r {
        Ok(f) => format!("{:?} {}", Fil::of(&f), f.options.wrapwidth),
        Err(e) => format!("error: {e}"),
    }
}
fn show_mo(r: Result<MOFile, impl std::fmt::Display>) -> String {
    match r {
        Ok(f) => format!(
            "{:?} {:?} {:?} {:?}",
            f.entries,
            meta_of(&f.metadata),
            f.magic_number,
            f.version
        ),
        Err(e) => format!("error: {e}"),
    }
}
/// Opens a file of always the same name with the given content.
fn at_path<T>(b: &[u8], open: impl Fn(&str) -> T) -> T {
    let t = hash_bytes(
        format!("{:?}", std::thread::current().id()).as_bytes(),
    );
    let p = scratch().join(format!("c21-in-{}-{t:x}", std::process::id()));
    let path = p.to_str().unwrap();
    std::fs::write(path, b).unwrap();
    let r = open(path);
    std::fs::remove_file(path).ok();
    r
}
fn hex(b: &[u8]) -> String {
    format!("{} bytes {:x}", b.len(), hash_bytes(b))
}

const OPS: [(&str, fn() -> String); 36] = [
    ("open PO content", || show_po(pofile(RICH))),
    ("open PO bytes", || show_po(pofile(OTHER.as_bytes().to_vec()))),
    ("open PO with a width", || show_po(pofile((OTHER, 20)))),
    ("open PO with a keyword fault", || {
        show_po(pofile("msgid \"a\"\nmsgstr \"b\"\n\nmsgxx \"a\"\n"))
    }),
    ("open PO with an unterminated string", || {
        show_po(pofile("# c\n#, fuzzy\nmsgid \"a\nmsgstr \"b\"\n"))
    }),
    ("open PO with an escape fault", || {
        show_po(pofile("msgid \"a\\q\"\nmsgstr \"b\"\n"))
    }),
    ("open unfinished PO", || {
        show_po(pofile("#| msgid \"p\"\nmsgctxt \"c\"\nmsgid \"a\""))
    }),
    ("open empty PO", || show_po(pofile(""))),
    ("open PO that is not text", || {
        show_po(pofile(vec![b'#', b' ', 0xff, b'\n']))
    }),
    ("open obsolete PO", || {
        show_po(pofile("#~ msgid \"a\"\n#~ msgstr \"b\"\n"))
    }),
    ("open missing PO", || show_po(pofile("no/such/file.po"))),
    ("open MO", || show_mo(mofile(mo_bytes(false)))),
    ("open big-endian MO", || show_mo(mofile(mo_bytes(true)))),
    ("open truncated MO", || show_mo(mofile(mo_bytes(true)[..50].to_vec()))),
    ("open MO with wrong magic number", || show_mo(mofile(vec![7; 40]))),
    ("open missing MO", || show_mo(mofile("no/such/file.mo"))),
    // the same name and the same size with another content
    ("open PO path", || at_path(OTHER.as_bytes(), |p| show_po(pofile(p)))),
    ("open changed PO path", || {
        at_path(OTHER.replace("Other", "Anoth").as_bytes(), |p| {
            show_po(pofile((p, 40)))
        })
    }),
    ("open changed PO content", || {
        show_po(pofile(OTHER.replace("gone", "dead").as_str()))
    }),
    ("open MO path", || at_path(&mo_bytes(false), |p| show_mo(mofile(p)))),
    ("open changed MO path", || {
        let mut b = mo_bytes(false);
        let n = b.len();
        b[n - 2] ^= 1;
        at_path(&b, |p| show_mo(mofile(p)))
    }),
    ("open changed MO bytes", || {
        let mut b = mo_bytes(false);
        let n = b.len();
        b[n - 3] ^= 1;
        show_mo(mofile(b))
    }),
    ("render PO", || pofile(RICH).unwrap().to_string()),
    ("render PO narrowly", || {
        pofile((OTHER, 10)).unwrap().to_string()
    }),
    ("render PO widely", || pofile((OTHER, 0)).unwrap().to_string()),
    ("render MO", || mofile(mo_bytes(false)).unwrap().to_string()),
    ("compile PO", || hex(&pofile(OTHER).unwrap().as_bytes())),
    ("compile PO big-endian", || {
        hex(&pofile(RICH).unwrap().as_bytes_be())
    }),
    ("compile MO with a revision", || {
        let f = mofile(mo_bytes(false)).unwrap();
        format!(
            "{} {}",
            hex(&f.as_bytes_with(MAGIC_SWAPPED, 1)),
            hex(&f.as_bytes_with(MAGIC, 0))
        )
    }),
    ("merge", || {
        let mut f = pofile(RICH).unwrap();
        f.merge(pofile(OTHER).unwrap());
        f.to_string()
    }),
    ("escape", || escape("a\"b\\c\n\t\r é").into_owned()),
    ("unescape", || match unescape("a\\\"b\\\\c\\n\\t") {
        Ok(x) => x.into_owned(),
        Err(e) => e.to_string(),
    }),
    ("unescape a fault", || match unescape("a\\") {
        Ok(x) => x.into_owned(),
        Err(e) => e.to_string(),
    }),
    ("compare", || {
        let f = pofile(OTHER).unwrap();
        let o = EntryCmpByOptions::new().by_all(true);
        let mut v = f.entries.clone();
        v.sort_by(|a, b| b.cmp_by(a, &o));
        format!("{:?}", v.iter().map(Ent::of).collect::<Vec<_>>())
    }),
    ("classify and search", || {
        let f = pofile(RICH).unwrap();
        format!(
            "{} {:?} {:?} {:?} {:?}",
            f.percent_translated(),
            f.translated_entries(),
            f.untranslated_entries(),
            f.find("ctx", "msgctxt", None, true),
            f.find_by_msgid("obs")
        )
    }),
    ("save", || {
        let t = hash_bytes(
            format!("{:?}", std::thread::current().id()).as_bytes(),
        );
        let p = scratch().join(format!("c21-{}-{t:x}", std::process::id()));
        let path = p.to_str().unwrap();
        let f = pofile((OTHER, 30)).unwrap();
        f.save(path);
        let a = std::fs::read(path).unwrap();
        f.save_as_mofile(path);
        let b = std::fs::read(path).unwrap();
        let again = show_mo(mofile(path));
        std::fs::remove_file(path).ok();
        format!("{} {} {again}", hex(&a), hex(&b))
    }),
];

type Op = Box<dyn Fn() -> String + Send + Sync>;

/// The same operations on inputs that differ little: of equal length, with
/// equal beginning or end, under the same name, with other options.
fn more() -> &'static Vec<(String, Op)> {
    static M: OnceLock<Vec<(String, Op)>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v: Vec<(String, Op)> = vec![];
        let mut add = |name: String, op: Op| v.push((name, op));
        for t in [
            "", "a", "b", "ab", "ba", "a\"", "\"a", "\n", "\t", "aaaaaaaaaaaaaaaaaaaa\"",
            "aaaaaaaaaaaaaaaaaaaa\n", "aaaaaaaaaaaaaaaaaaaab", "\naaaaaaaaaaaaaaaaaaaa",
        ] {
            add(format!("escape {t:?}"), Box::new(move || escape(t).into_owned()));
        }
        for t in [
            "a", "b", "\\n", "\\t", "\\\\", "\\q", "a\\", "aaaaaaaaaaaaaaaaaaaa\\n",
            "aaaaaaaaaaaaaaaaaaaa\\t", "aaaaaaaaaaaaaaaaaaaa\\x", "\\naaaaaaaaaaaaaaaaaaaa",
        ] {
            add(
                format!("unescape {t:?}"),
                Box::new(move || match unescape(t) {
                    Ok(x) => x.into_owned(),
                    Err(e) => e.to_string(),
                }),
            );
        }
        // equal in length, beginning and end
        for k in 0..6 {
            let mid = ["a", "b", "\"", "\n", " ", "\\"][k];
            let t = format!("{}{mid}{}", "first words ".repeat(9), " last words".repeat(9));
            let (a, b, c, d) = (t.clone(), ref_escape(&t), t.clone(), t.clone());
            add(format!("escape long {mid:?}"), Box::new(move || escape(&a).into_owned()));
            add(
                format!("unescape long {mid:?}"),
                Box::new(move || match unescape(&b) {
                    Ok(x) => x.into_owned(),
                    Err(e) => e.to_string(),
                }),
            );
            let e = move || Ent {
                id: c.clone(),
                s: Some(c.clone()),
                tcomment: Some(c.replace('\n', "n")),
                ..Default::default()
            };
            add(
                format!("render and compile long {mid:?}"),
                Box::new(move || {
                    let f = Fil { ents: vec![e()], ..Default::default() }.po(40);
                    format!("{f} {}", hex(&f.as_bytes()))
                }),
            );
            add(
                format!("open long {mid:?}"),
                Box::new(move || {
                    let q = ref_escape(&d);
                    show_po(pofile(format!("msgid \"{q}\"\nmsgstr \"{q}\"\n").as_str()))
                }),
            );
        }
        for w in [0, 1, 9, 20, 40, 78, 79, 200] {
            let e = Ent {
                id: s("one two three four five six seven eight nine ten eleven twelve"),
                s: o("eins zwei drei vier fünf sechs sieben acht neun zehn elf"),
                tcomment: o("a comment of some length that is wrapped"),
                comment: o("an extracted comment of some length"),
                occ: (0..6).map(|k| (format!("file{k}.c"), s("1"))).collect(),
                ..Default::default()
            };
            let m = e.clone();
            add(
                format!("render message at {w}"),
                Box::new(move || e.po().to_string_with_wrapwidth(w)),
            );
            add(
                format!("render MO message at {w}"),
                Box::new(move || {
                    rspolib::MOEntry::from(&m.po()).to_string_with_wrapwidth(w)
                }),
            );
        }
        let text = |k: usize| {
            let (a, b) = [
                ("msgid \"key\"", "msgstr \"val\""),
                ("msgid \"kez\"", "msgstr \"val\""),
                ("msgid \"key\"", "msgstr \"var\""),
                ("msgid \"key\"", "msgxyz \"val\""),
                ("msgid \"key\"", "msgstr \"val#"),
                ("# gid \"key\"", "msgid2 \"val\""),
                ("#, fuzzy,key", "#. str \"val\""),
                ("msgid \"\\ny\"", "msgstr \"v\\n\""),
                ("#: f:1 f:2 k", "#| tr \"val\""),
            ][k];
            format!("msgid \"first\"\nmsgstr \"erste\"\n\n{a}\n{b}\n\nmsgid \"last\"\nmsgstr \"letzte\"\n")
        };
        for k in 0..9 {
            let (a, b) = (text(k), text(k));
            add(
                format!("open text {k}"),
                Box::new(move || show_po(pofile(a.as_str()))),
            );
            add(
                format!("open path with text {k}"),
                Box::new(move || {
                    at_path(b.as_bytes(), |p| {
                        show_po(pofile(p).map_err(|e| {
                            // named after the process
                            e.to_string().replace(p, "path")
                        }))
                    })
                }),
            );
        }
        for (k, w) in [(0, 10), (0, 50), (1, 10), (2, 50)] {
            let a = text(k);
            add(
                format!("render text {k} at {w}"),
                Box::new(move || pofile((a.as_str(), w)).unwrap().to_string()),
            );
        }
        for k in 0..6 {
            let image = move || {
                let id = ["ab", "ac", "ab", "a\0", "a\u{4}", "ab"][k];
                let tr = ["xy", "xy", "xz", "xy", "xy", "x\0"][k];
                let pairs = vec![
                    (vec![], b"Language: es\n".to_vec()),
                    (id.as_bytes().to_vec(), tr.as_bytes().to_vec()),
                ];
                mo::write(&pairs, &mo::Layout::plain(k == 2, (k == 1) as u32))
            };
            add(
                format!("open image {k}"),
                Box::new(move || show_mo(mofile(image()))),
            );
            add(
                format!("open path with image {k}"),
                Box::new(move || at_path(&image(), |p| show_mo(mofile(p)))),
            );
            add(
                format!("compile image {k}"),
                Box::new(move || {
                    let f = mofile(image()).unwrap();
                    format!(
                        "{} {}",
                        hex(&f.as_bytes_with(
                            if k % 2 == 0 { MAGIC } else { MAGIC_SWAPPED },
                            k as u32 / 3
                        )),
                        hex(&f.as_bytes())
                    )
                }),
            );
        }
        for k in 0..6 {
            add(
                format!("merge {k}"),
                Box::new(move || {
                    let f = |k: usize| {
                        let mut f = POFile::new(opts("", 78));
                        f.entries.push(POEntry::from(("a", ["x", "y"][k % 2])));
                        f.entries.push(POEntry::from((["b", "c", "d"][k % 3], "z")));
                        f.metadata.insert(s("Language"), format!("l{k}"));
                        f
                    };
                    let mut a = f(k);
                    a.merge(f(k / 2 + 1));
                    a.to_string()
                }),
            );
        }
        for k in 0..9 {
            add(
                format!("compare by field {k}"),
                Box::new(move || {
                    let mut e = [archetype(1, 1), archetype(2, 2), archetype(9, 3)];
                    e[1].obsolete = true;
                    let mut o = EntryCmpByOptions::new();
                    if k < 8 {
                        o = o.by_all(false);
                    }
                    o = match k {
                        0 => o.by_obsolete(true),
                        1 => o.by_occurrences(true),
                        2 => o.by_flags(true),
                        3 => o.by_msgctxt(true),
                        4 => o.by_msgid_plural(true),
                        5 => o.by_msgstr_plural(true),
                        6 => o.by_msgid(true),
                        7 => o.by_msgstr(true),
                        _ => o,
                    };
                    let mut r = vec![];
                    for a in &e {
                        for b in &e {
                            r.push(a.po().cmp_by(&b.po(), &o));
                        }
                    }
                    format!("{r:?}")
                }),
            );
        }
        for (val, by, c, old) in [
            ("a", "msgid", None, false),
            ("a", "msgid", None, true),
            ("b", "msgid", None, true),
            ("a", "msgstr", None, true),
            ("a", "msgid", Some("c"), true),
            ("a", "msgid", Some(""), true),
            ("a", "msgctxt", None, true),
        ] {
            add(
                format!("find {val} {by} {c:?} {old}"),
                Box::new(move || {
                    let ents = super::c13::messages();
                    let f = Fil { ents, ..Default::default() }.po(78);
                    format!(
                        "{:?} {:?} {:?}",
                        f.find(val, by, c, old),
                        f.find_by_msgid(val),
                        f.find_by_msgid_msgctxt(val, c.unwrap_or("c"))
                    )
                }),
            );
        }
        for k in 0..4 {
            let a = text([0, 1, 2, 7][k]);
            add(
                format!("save {k}"),
                Box::new(move || {
                    at_path(b"", |p| {
                        let f = pofile(a.as_str()).unwrap();
                        f.save(p);
                        let x = std::fs::read(p).unwrap();
                        f.save_as_mofile(p);
                        let y = std::fs::read(p).unwrap();
                        format!("{} {}", hex(&x), hex(&y))
                    })
                }),
            );
        }
        for k in 0..4 {
            let e = archetype([0, 3, 5, 9][k], 1);
            add(
                format!("classify {k}"),
                Box::new(move || {
                    let f = Fil {
                        ents: vec![e.clone(), archetype(k, 2)],
                        ..Default::default()
                    }
                    .po(78);
                    format!(
                        "{} {} {:?} {:?}",
                        f.percent_translated(),
                        hex(&f.as_bytes()),
                        f.translated_entries(),
                        f.fuzzy_entries()
                    )
                }),
            );
        }
        v
    })
}

fn name(k: usize) -> &'static str {
    match OPS.get(k) {
        Some(x) => x.0,
        None => &more()[k - OPS.len()].0,
    }
}

fn run(k: usize) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| match OPS.get(k) {
        Some(x) => x.1(),
        None => more()[k - OPS.len()].1(),
    }));
    match r {
        Ok(x) => x,
        Err(_) => s("panic"),
    }
}

/// `mc seq a,b,c`: the results of operations in a fresh process.
pub fn sequence(list: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    for k in list.split(',') {
        println!("{}", json_str(&run(k.parse().unwrap())));
    }
    0
}

fn fresh(ops: &[usize]) -> Vec<String> {
    let l: Vec<String> = ops.iter().map(|k| k.to_string()).collect();
    let o = Command::new("/proc/self/exe")
        .args(["seq", &l.join(",")])
        .output()
        .expect("cannot start a fresh process");
    String::from_utf8_lossy(&o.stdout)
        .lines()
        .map(String::from)
        .collect()
}

/// Result of every operation as the first one of a process.
fn baseline() -> &'static Vec<String> {
    static B: OnceLock<Vec<String>> = OnceLock::new();
    B.get_or_init(|| {
        (0..OPS.len() + more().len())
            .map(|k| {
                fresh(&[k]).pop().unwrap_or_else(|| s("process died"))
            })
            .collect()
    })
}

fn names(ops: &[usize]) -> String {
    let v: Vec<&str> = ops.iter().map(|k| name(*k)).collect();
    v.join("; ")
}

fn compare(ops: &[usize], got: &[String]) -> Res {
    let base = baseline();
    for (n, k) in ops.iter().enumerate() {
        let g = got.get(n).map(String::as_str).unwrap_or("process died");
        ensure!(
            g == base[*k],
            "after [{}], {} gives {g} instead of {}",
            names(&ops[..n]),
            name(*k),
            base[*k]
        );
    }
    Ok(())
}

/// Everything that can be observed of a PO file.
fn view(f: &POFile) -> String {
    format!(
        "{f} {} {} {} {:?} {:?} {:?} {:?} {:?} {:?}",
        hex(&f.as_bytes()),
        hex(&f.as_bytes_be()),
        f.percent_translated(),
        f.translated_entries(),
        f.untranslated_entries(),
        f.fuzzy_entries(),
        f.obsolete_entries(),
        f.find("a", "msgid", None, true),
        Ent::of(&f.metadata_as_entry()),
    )
}
fn view_mo(f: &MOFile) -> String {
    format!(
        "{f} {} {} {:?} {:?}",
        hex(&f.as_bytes()),
        hex(&f.as_bytes_be()),
        f.find("a", "msgid", None),
        f.metadata_as_entry()
    )
}

const CHANGES: [&str; 15] = [
    "append",
    "append translated",
    "append obsolete",
    "remove first",
    "remove by source",
    "set translation",
    "clear translation",
    "flag fuzzy",
    "set metadata",
    "drop metadata",
    "set header",
    "mark metadata fuzzy",
    "merge",
    "set width",
    "reverse",
];

fn change(k: usize, f: &mut POFile) {
    let n = f.entries.len();
    match k {
        0 => f.entries.push(POEntry::from("a")),
        1 => f.entries.push(POEntry::from(("b", "translation of b, long enough"))),
        2 => f.entries.push(archetype(4, n).po()),
        3 => {
            if let Some(e) = f.entries.first().cloned() {
                f.remove(&e)
            }
        }
        4 => f.remove_by_msgid("a"),
        5 => {
            if let Some(e) = f.entries.last_mut() {
                e.msgstr = o("now translated")
            }
        }
        6 => {
            if let Some(e) = f.entries.first_mut() {
                e.msgstr = None
            }
        }
        7 => {
            if let Some(e) = f.entries.last_mut() {
                e.flags.push(s("fuzzy"))
            }
        }
        8 => {
            f.metadata.insert(s("Language"), format!("l{n}"));
            f.metadata.insert(s("X-Own"), s("1"));
        }
        9 => {
            f.metadata.remove("Language");
        }
        10 => f.header = o("A header\nof two lines"),
        11 => f.metadata_is_fuzzy = !f.metadata_is_fuzzy,
        12 => f.merge(pofile(OTHER).unwrap()),
        13 => f.options.wrapwidth = 12,
        _ => f.entries.reverse(),
    }
}

fn objects(ops: &[usize], start: usize, rec: &mut Rec) -> Res {
    let mut f = match start {
        0 => POFile::new(opts("", 78)),
        1 => pofile(RICH).unwrap(),
        _ => POFile::from(OTHER),
    };
    let mut copies: Vec<(POFile, String)> = vec![];
    let said = |n: usize| {
        let v: Vec<&str> = ops[..n].iter().map(|k| CHANGES[*k]).collect();
        v.join("; ")
    };
    rec.case(format!("file {start}: {}", said(ops.len())).as_bytes());
    rec.trace(ops.len() as u64);
    for n in 0..=ops.len() {
        let before = Fil::of(&f);
        let options = f.options.clone();
        let seen = view(&f);
        ensure!(
            Fil::of(&f) == before && f.options == options,
            "after [{}]: reading changes the file: {}",
            said(n),
            diff(&before, &Fil::of(&f))
        );
        ensure!(
            view(&f) == seen,
            "after [{}]: reading twice gives different results",
            said(n)
        );
        let new = view(&before.po(options.wrapwidth));
        ensure!(
            seen == new,
            "after [{}]: the file gives {seen:?}, a fresh equal one {new:?}",
            said(n)
        );
        let m = MOFile::from(&f);
        let a = view_mo(&m);
        ensure!(a == view_mo(&m), "after [{}]: MO reading differs", said(n));
        ensure!(
            a == view_mo(&MOFile::from(&before.po(options.wrapwidth))),
            "after [{}]: the MO form depends on the history",
            said(n)
        );
        rec.state(seen.as_bytes());
        if n < ops.len() {
            // a copy is kept, the original or another copy goes on
            let c = f.clone();
            if n % 2 == 0 {
                copies.push((c, seen));
            } else {
                copies.push((std::mem::replace(&mut f, c), seen));
            }
            change(ops[n], &mut f);
        }
    }
    for (k, (c, seen)) in copies.iter().enumerate() {
        ensure!(
            view(c) == *seen,
            "the copy made after [{}] changed with the original by [{}]",
            said(k),
            said(ops.len())
        );
    }
    Ok(())
}

fn mo_objects(ops: &[usize], rec: &mut Rec) -> Res {
    let cat = mo::catalogue();
    let mut f = mo_file(&cat[..3], &clean_metas()[1]);
    let mut copies = vec![];
    rec.trace(ops.len() as u64);
    for n in 0..=ops.len() {
        let state = (f.entries.clone(), f.metadata.clone());
        let seen = view_mo(&f);
        ensure!(
            (f.entries.clone(), f.metadata.clone()) == state
                && view_mo(&f) == seen,
            "{:?}: reading changes the MO file",
            &ops[..n]
        );
        let mut g = MOFile::new(f.options.clone());
        g.entries = state.0.clone();
        g.metadata = state.1.clone();
        ensure!(
            view_mo(&g) == seen,
            "{:?}: the MO file gives {seen:?}, a fresh equal one {:?}",
            &ops[..n],
            view_mo(&g)
        );
        rec.state(seen.as_bytes());
        if n < ops.len() {
            copies.push((f.clone(), seen));
            match ops[n] {
                0 => f.entries.push(cat[n + 4].mo()),
                1 => {
                    f.entries.pop();
                }
                2 => f.entries.reverse(),
                3 => f.remove_by_msgid(&cat[0].id),
                4 => {
                    f.metadata.insert(s("Language"), format!("l{n}"));
                }
                5 => f.metadata.clear(),
                6 => f.options.wrapwidth = 9,
                7 => {
                    if let Some(e) = f.entries.first_mut() {
                        e.msgstr = o("changed");
                    }
                }
                _ => {
                    let _ = f.as_bytes_with(MAGIC_SWAPPED, 1);
                    let p = pofile(f.to_string().as_str()).unwrap();
                    let _ = MOFile::from(&p);
                }
            }
        }
    }
    for (c, seen) in &copies {
        ensure!(
            view_mo(c) == *seen,
            "{ops:?}: a copy changed with the original"
        );
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let k = OPS.len();
    let mut v = vec![];
    v.push(space(
        "repeats",
        "every operation as the first one of 4 fresh processes",
        4 * k as u64,
        move |i, rec| {
            let op = i as usize % k;
            rec.trace(1);
            rec.case(OPS[op].0.as_bytes());
            rec.state(baseline()[op].as_bytes());
            let a = &baseline()[op];
            ensure!(
                a != "process died" && a != "\"panic\"",
                "{} ends with {a}",
                OPS[op].0
            );
            compare(&[op], &fresh(&[op]))
        },
    ));
    let n = if quick { 3 } else { 4 };
    v.push(space(
        "fresh",
        &format!("every sequence of {n} of {k} operations in a process of its own"),
        (k as u64).pow(n),
        move |i, rec| {
            let d = digits(i, &vec![k; n as usize]);
            rec.case(names(&d).as_bytes());
            rec.state(names(&d).as_bytes());
            rec.trace(n as u64);
            compare(&d, &fresh(&d))
        },
    ));
    // similar inputs one after another
    let all = k + more().len();
    v.push(space(
        "similar",
        &format!("every ordered pair of {all} operations, most of them alike on inputs of the same length, beginning or name or with other options, in a process of its own"),
        (all * all) as u64,
        move |i, rec| {
            let d = digits(i, &[all, all]);
            rec.case(names(&d).as_bytes());
            rec.state(names(&d).as_bytes());
            rec.trace(2);
            compare(&d, &fresh(&d))
        },
    ));
    let n = if quick { 2 } else { 3 };
    v.push(space(
        "similar-history",
        &format!("every sequence of up to {n} of the {all} operations after all earlier sequences, 8 histories at a time"),
        words_upto(all, n),
        move |i, rec| {
            let d = word(i, all);
            rec.case(names(&d).as_bytes());
            rec.state(names(&d).as_bytes());
            rec.trace(d.len() as u64);
            let got: Vec<String> =
                d.iter().map(|k| json_str(&run(*k))).collect();
            compare(&d, &got)
        },
    ));
    // counters and tables that fill up
    let times = (1 << 16) + 2;
    let few = [
        "open PO with a keyword fault", "open empty PO", "open obsolete PO",
        "open big-endian MO", "open MO with wrong magic number", "escape",
        "unescape", "unescape a fault",
    ];
    let long: Vec<usize> =
        (0..k).filter(|j| !quick || few.contains(&OPS[*j].0)).collect();
    v.push(space(
        "endurance",
        &format!("each of {} operations {times} times in a row in one process", long.len()),
        long.len() as u64,
        move |i, rec| {
            let op = long[i as usize];
            rec.state(OPS[op].0.as_bytes());
            let want = run(op);
            compare(&[op], &[json_str(&want)])?;
            for n in 1..times {
                if n % 1024 == 1 {
                    rec.case(OPS[op].0.as_bytes());
                }
                rec.trace(1);
                let got = run(op);
                ensure!(
                    got == want,
                    "{} gives {got:?} the {n}th time instead of {want:?}",
                    OPS[op].0
                );
            }
            Ok(())
        },
    ));
    // long histories: all sequences one after another in one process
    let n = if quick { 3 } else { 4 };
    v.push(space(
        "history",
        &format!("every sequence of up to {n} of {k} operations after all earlier sequences, 8 histories at a time"),
        words_upto(k, n),
        move |i, rec| {
            let d = word(i, k);
            rec.case(names(&d).as_bytes());
            rec.state(names(&d).as_bytes());
            rec.trace(d.len() as u64);
            let got: Vec<String> =
                d.iter().map(|k| json_str(&run(*k))).collect();
            compare(&d, &got)
        },
    ));
    let n = if quick { 4 } else { 5 };
    v.push(space(
        "files",
        &format!("every sequence of up to {n} of 15 changes on 3 PO files, everything observed after each change and compared with a fresh equal file; copies taken at every point"),
        3 * words_upto(CHANGES.len(), n),
        move |i, rec| {
            objects(&word(i / 3, CHANGES.len()), (i % 3) as usize, rec)
        },
    ));
    let n = if quick { 4 } else { 6 };
    v.push(space(
        "mo-files",
        &format!("every sequence of up to {n} of 9 changes on an MO file, in the same way"),
        words_upto(9, n),
        move |i, rec| mo_objects(&word(i, 9), rec),
    ));
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "model_checking",
        rule: "the result of an operation as the first one of a fresh process is the reference; every history of the stated length is executed and every result compared with it; states are distinct histories and distinct observations of files",
        assumptions: &["the environment (files, limits) is the same for each operation"],
        spaces,
    }
}
