//! C18: saving writes the complete file or fails visibly.

use super::c08::clean_metas;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::menu::*;
use crate::mo;
use crate::model::*;
use rspolib::{AsBytes, MOFile, POFile, Save, SaveAsMOFile, SaveAsPOFile};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::OnceLock;

enum File {
    Po(POFile),
    Mo(MOFile),
}

const OPS: [&str; 6] = [
    "POFile::save",
    "POFile::save_as_pofile",
    "POFile::save_as_mofile",
    "MOFile::save",
    "MOFile::save_as_mofile",
    "MOFile::save_as_pofile",
];

/// The files and what each operation has to write, made once.
fn prepared(size: usize, op: usize) -> &'static (File, Vec<u8>) {
    static ALL: OnceLock<Vec<(File, Vec<u8>)>> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        (0..24)
            .map(|k| {
                let f = file(k / 6, k % 6);
                let c = content(&f, k % 6);
                (f, c)
            })
            .collect()
    });
    &all[size * 6 + op]
}

fn file(size: usize, op: usize) -> File {
    let n = [0, 2, 60, 900][size];
    if op < 3 {
        let f = Fil {
            header: (size > 0).then(|| s("Header é")),
            meta: clean_metas()[size % 5].clone(),
            fuzzy: false,
            ents: (0..n)
                .map(|k| archetype([0, 2, 3, 11, 4, 7][k % 6], k))
                .collect(),
        };
        File::Po(f.po(78))
    } else {
        let cat = mo::catalogue();
        let msgs: Vec<Msg> = (0..n)
            .map(|k| {
                let mut m = cat[k % cat.len()].clone();
                m.id = format!("{k} {}", m.id);
                m
            })
            .collect();
        File::Mo(mo_file(&msgs, &clean_metas()[size % 5]))
    }
}

fn content(f: &File, op: usize) -> Vec<u8> {
    match (f, op) {
        (File::Po(f), 0 | 1) => f.to_string().into_bytes(),
        (File::Po(f), _) => f.as_bytes().into_owned(),
        (File::Mo(f), 5) => f.to_string().into_bytes(),
        (File::Mo(f), _) => f.as_bytes().into_owned(),
    }
}

fn save(f: &File, op: usize, path: &Path) {
    let p = path.to_str().unwrap();
    match (f, op) {
        (File::Po(f), 0) => f.save(p),
        (File::Po(f), 1) => f.save_as_pofile(p),
        (File::Po(f), _) => f.save_as_mofile(p),
        (File::Mo(f), 3) => f.save(p),
        (File::Mo(f), 4) => f.save_as_mofile(p),
        (File::Mo(f), _) => f.save_as_pofile(p),
    }
}

/// Limits the size of files this process may write.
struct Limit(libc::rlimit);
impl Limit {
    fn set(n: u64) -> Limit {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
            let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
            Limit(old)
        }
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

/// What the target holds before the save.
const BEFORE: [&str; 5] =
    ["absent", "empty", "shorter", "longer", "same length"];

fn prepare(p: &Path, how: usize, len: usize) {
    std::fs::remove_file(p).ok();
    let n = match how {
        0 => return,
        1 => 0,
        2 => len / 2,
        3 => len + 300,
        _ => len,
    };
    std::fs::write(p, vec![b'#'; n]).unwrap();
}

fn judge(
    size: usize,
    op: usize,
    before: usize,
    limit: Option<u64>,
    rec: &mut Rec,
) -> Res {
    let (f, want) = prepared(size, op);
    let what = format!(
        "{} of {} bytes over a target that is {}, storage for {:?} bytes",
        OPS[op],
        want.len(),
        BEFORE[before],
        limit
    );
    rec.case(what.as_bytes());
    rec.state(what.as_bytes());
    rec.trace(1);
    let p = scratch().join("c18-target");
    prepare(&p, before, want.len());
    let done = {
        let _l = limit.map(Limit::set);
        catch_unwind(AssertUnwindSafe(|| save(f, op, &p))).is_ok()
    };
    let got = std::fs::read(&p).unwrap_or_default();
    std::fs::remove_file(&p).ok();
    if done {
        ensure!(
            got == *want,
            "{what}: reported as saved, but the target holds {} bytes{}",
            got.len(),
            if got.len() == want.len() { " of other content" } else { "" }
        );
    } else {
        rec.nontrivial += 1;
        ensure!(
            limit.is_some_and(|l| l < want.len() as u64),
            "{what}: saving failed although the storage suffices"
        );
    }
    if limit.is_some_and(|l| l < want.len() as u64) {
        ensure!(!done, "{what}: reported as saved");
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let quick = t == Tier::Quick;
    let mut v = vec![];
    v.push(space(
        "sound",
        "every save operation of files of 4 sizes over targets in 5 states",
        6 * 4 * 5,
        move |i, rec| {
            let d = digits(i, &[6, 4, 5]);
            judge(d[1], d[0], d[2], None, rec)
        },
    ));
    v.last_mut().unwrap().serial = true;
    // the storage ends after every byte
    let lens: Vec<Vec<u64>> = (0..3)
        .map(|size| {
            (0..6)
                .map(|op| content(&file(size, op), op).len() as u64 + 2)
                .collect()
        })
        .collect();
    for (size, name) in [(0, "empty"), (1, "small"), (2, "medium")] {
        let l = lens[size].clone();
        let max = *l.iter().max().unwrap();
        let states = if size == 2 && quick { 2 } else { 5 };
        v.push(space(
            &format!("faults-{name}"),
            &format!("storage that ends after every byte 0..={} of a file, 6 save operations, targets in {states} states", max - 1),
            max * 6 * states,
            move |i, rec| {
                let d = digits(i, &[6, states as usize, max as usize]);
                if d[2] as u64 >= l[d[0]] {
                    return Ok(());
                }
                let b = if states == 2 { [0, 3][d[1]] } else { d[1] };
                judge(size, d[0], b, Some(d[2] as u64), rec)
            },
        ));
        v.last_mut().unwrap().serial = true;
    }
    // a file larger than any buffer: block boundaries and their neighbours
    let big: Vec<u64> =
        (0..6).map(|op| content(&file(3, op), op).len() as u64).collect();
    let max = *big.iter().max().unwrap();
    let step: u64 = if quick { 4096 } else { 64 };
    let count = (max / step + 2) * 3 + 200;
    v.push(space(
        "faults-large",
        &format!("storage that ends around every multiple of {step} bytes and at each of the first and last 100 bytes of files of up to {max} bytes, 6 save operations"),
        count * 6,
        move |i, rec| {
            let d = digits(i, &[6, count as usize]);
            let len = big[d[0]];
            let k = d[1] as u64;
            let at = if k < 100 {
                k
            } else if k < 200 {
                (len + 1).saturating_sub(k - 100)
            } else {
                ((k - 200) / 3 * step + (k - 200) % 3).saturating_sub(1)
            };
            if at > len + 1 {
                return Ok(());
            }
            judge(3, d[0], 3, Some(at), rec)
        },
    ));
    v.last_mut().unwrap().serial = true;
    v.push(space(
        "targets",
        "targets that cannot take the file: a socket, a missing directory, a directory, names that no file can have; files of 4 sizes, 6 save operations",
        8 * 4 * 6,
        move |i, rec| {
            let d = digits(i, &[6, 4, 8]);
            let f = file(d[1], d[0]);
            let dir = scratch().join("c18-dir");
            std::fs::create_dir_all(&dir).ok();
            let p = match d[2] {
                0 => {
                    let l = dir.join("socket");
                    std::fs::remove_file(&l).ok();
                    std::os::unix::net::UnixListener::bind(&l).unwrap();
                    l
                }
                1 => dir.join("missing/file"),
                2 => dir.clone(),
                3 => dir.join("x".repeat(300)),
                4 => dir.join("a\0b"),
                5 => "".into(),
                6 => {
                    // a name below a plain file
                    std::fs::write(dir.join("plain"), "x").unwrap();
                    dir.join("plain/file")
                }
                _ => {
                    // a link that points to itself
                    let l = dir.join("loop");
                    std::fs::remove_file(&l).ok();
                    std::os::unix::fs::symlink(&l, &l).unwrap();
                    l
                }
            };
            let what = format!("{} to {:?}", OPS[d[0]], p);
            rec.case(what.as_bytes());
            rec.state(what.as_bytes());
            rec.trace(1);
            let ok =
                catch_unwind(AssertUnwindSafe(|| save(&f, d[0], &p))).is_ok();
            std::fs::remove_dir_all(&dir).ok();
            rec.nontrivial += 1;
            ensure!(!ok, "{what}: reported as saved");
            Ok(())
        },
    ));
    v.last_mut().unwrap().serial = true;
    // targets reached through links keep the complete content
    v.push(space(
        "links",
        "targets behind a symbolic and a hard link, files of 4 sizes, 6 save operations, twice in a row",
        2 * 4 * 6,
        move |i, rec| {
            let d = digits(i, &[6, 4, 2]);
            let f = file(d[1], d[0]);
            let want = content(&f, d[0]);
            let dir = scratch();
            let (real, link) = (dir.join("c18-real"), dir.join("c18-link"));
            std::fs::remove_file(&link).ok();
            std::fs::write(&real, vec![b'#'; want.len() + 50]).unwrap();
            if d[2] == 0 {
                std::os::unix::fs::symlink(&real, &link).unwrap();
            } else {
                std::fs::hard_link(&real, &link).unwrap();
            }
            rec.trace(2);
            for _ in 0..2 {
                save(&f, d[0], &link);
                let got = std::fs::read(&link).unwrap();
                ensure!(
                    got == want,
                    "{} through a link: {} bytes instead of {}",
                    OPS[d[0]],
                    got.len(),
                    want.len()
                );
            }
            std::fs::remove_file(&link).ok();
            std::fs::remove_file(&real).ok();
            Ok(())
        },
    ));
    v.last_mut().unwrap().serial = true;
    // one file saved over another one
    v.push(space(
        "overwrites",
        "every file of 4 sizes saved by every operation over every other by every operation",
        24 * 24,
        move |i, rec| {
            let d = digits(i, &[6, 4, 6, 4]);
            let p = scratch().join("c18-over");
            rec.trace(2);
            save(&file(d[1], d[0]), d[0], &p);
            let f = file(d[3], d[2]);
            save(&f, d[2], &p);
            let got = std::fs::read(&p).unwrap();
            std::fs::remove_file(&p).ok();
            rec.state(&got);
            ensure!(
                got == content(&f, d[2]),
                "{} over {}: {} bytes instead of {}",
                OPS[d[2]],
                OPS[d[0]],
                got.len(),
                content(&f, d[2]).len()
            );
            Ok(())
        },
    ));
    v.last_mut().unwrap().serial = true;
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "fault_enumeration",
        rule: "storage faults are enumerated exhaustively: a file size limit makes the operating system cut the write after every byte position, for every save operation and state of the target; a save that returns normally must leave exactly the rendered text or compiled bytes, a cut one must be visible (panic). distinct_nontrivial counts the failed saves",
        assumptions: &[
            "a panic is the visible failure of the save operations, which return nothing",
            "data that the operating system accepted is not lost later (no power failure): the library does not promise durability",
        ],
        spaces,
    }
}
