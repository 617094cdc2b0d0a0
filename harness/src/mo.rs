//! Independent reader and writer of the GNU MO format.

use crate::model::*;
use std::collections::BTreeMap;

pub const LE: [u8; 4] = [0xde, 0x12, 0x04, 0x95];
pub const BE: [u8; 4] = [0x95, 0x04, 0x12, 0xde];

/// Big endian words?
pub type Endian = bool;

pub fn word(b: &[u8], at: u64, be: Endian) -> Option<u32> {
    let at = usize::try_from(at).ok()?;
    let w: [u8; 4] = b.get(at..at.checked_add(4)?)?.try_into().ok()?;
    Some(if be { u32::from_be_bytes(w) } else { u32::from_le_bytes(w) })
}

pub fn bytes(w: u32, be: Endian) -> [u8; 4] {
    if be {
        w.to_be_bytes()
    } else {
        w.to_le_bytes()
    }
}

/// A file as its tables describe it.
#[derive(Debug, Clone)]
pub struct Raw {
    pub be: Endian,
    pub rev: u32,
    pub n: u32,
    pub otab: u32,
    pub ttab: u32,
    pub hsize: Option<u32>,
    pub hoff: Option<u32>,
    /// (offset, length)
    pub orig: Vec<(u32, u32)>,
    pub trans: Vec<(u32, u32)>,
    /// total length of the strings the tables name
    pub total: u64,
    /// some zero-length string lies beyond the end
    pub empty_outside: bool,
}

/// Reads the structure; an error names what is wrong with the input.
pub fn raw(b: &[u8]) -> Result<Raw, &'static str> {
    let be = match b.get(..4) {
        Some(m) if m == LE => false,
        Some(m) if m == BE => true,
        Some(_) => return Err("wrong magic number"),
        None => return Err("no magic number"),
    };
    let w = |at: u64| word(b, at, be);
    let rev = w(4).ok_or("no revision")?;
    if rev > 1 {
        return Err("unsupported revision");
    }
    let n = w(8).ok_or("no string count")?;
    let otab = w(12).ok_or("no table of originals")?;
    let ttab = w(16).ok_or("no table of translations")?;
    let len = b.len() as u64;
    for t in [otab, ttab] {
        if n > 0 && t as u64 + 8 * n as u64 > len {
            return Err("table outside the input");
        }
    }
    let mut total = 0;
    let mut empty_outside = false;
    let mut tables = [vec![], vec![]];
    for (t, out) in [otab, ttab].iter().zip(tables.iter_mut()) {
        for i in 0..n as u64 {
            let l = w(*t as u64 + 8 * i).ok_or("table cut")?;
            let o = w(*t as u64 + 8 * i + 4).ok_or("table cut")?;
            if o as u64 + l as u64 > len {
                if l > 0 {
                    return Err("string outside the input");
                }
                empty_outside = true;
            }
            total += l as u64;
            out.push((o, l));
        }
    }
    let [orig, trans] = tables;
    Ok(Raw {
        be,
        rev,
        n,
        otab,
        ttab,
        hsize: w(20),
        hoff: w(24),
        orig,
        trans,
        total,
        empty_outside,
    })
}

impl Raw {
    pub fn str_at<'a>(&self, b: &'a [u8], p: (u32, u32)) -> &'a [u8] {
        if p.1 == 0 {
            return &[];
        }
        &b[p.0 as usize..p.0 as usize + p.1 as usize]
    }
    pub fn pairs<'a>(&self, b: &'a [u8]) -> Vec<(&'a [u8], &'a [u8])> {
        self.orig
            .iter()
            .zip(&self.trans)
            .map(|(o, t)| (self.str_at(b, *o), self.str_at(b, *t)))
            .collect()
    }
}

/// What a reader has to report for a structurally sound file.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Read {
    /// absent when the metadata text is not made of distinct "Key: value"
    /// lines, whose meaning is not specified
    pub meta: Option<BTreeMap<String, String>>,
    pub msgs: Vec<Msg>,
    /// an original with more than one NUL: its meaning is not specified
    pub odd: bool,
    /// some string is not UTF-8
    pub binary: bool,
}

pub fn metadata(text: &str) -> Option<BTreeMap<String, String>> {
    let mut m = BTreeMap::new();
    for line in text.split('\n').filter(|l| !l.is_empty()) {
        let (k, v) = line.split_once(':')?;
        if k.is_empty() || k.trim() != k {
            return None;
        }
        if m.insert(k.to_string(), v.trim().to_string()).is_some() {
            return None;
        }
    }
    Some(m)
}

pub fn message(o: &[u8], t: &[u8]) -> Msg {
    let o = String::from_utf8_lossy(o).into_owned();
    let t = String::from_utf8_lossy(t).into_owned();
    let (first, plural) = match o.split_once('\0') {
        Some((a, b)) => {
            (a, Some(b.split('\0').next().unwrap().to_string()))
        }
        None => (o.as_str(), None),
    };
    let (ctxt, id) = match first.split_once('\u{4}') {
        Some((c, i)) => (Some(c.to_string()), i.to_string()),
        None => (None, first.to_string()),
    };
    let tr = if plural.is_some() {
        t.split('\0').map(|x| x.to_string()).collect()
    } else {
        vec![t]
    };
    Msg { ctxt, id, plural, tr }
}

pub fn read(b: &[u8], r: &Raw) -> Read {
    let mut out =
        Read { meta: Some(BTreeMap::new()), ..Default::default() };
    for (i, (o, t)) in r.pairs(b).into_iter().enumerate() {
        out.binary |= std::str::from_utf8(o).is_err()
            || std::str::from_utf8(t).is_err();
        out.odd |= o.iter().filter(|c| **c == 0).count() > 1;
        if i == 0 && o.is_empty() {
            out.meta = metadata(&String::from_utf8_lossy(t));
        } else {
            out.msgs.push(message(o, t));
        }
    }
    out
}

/// Arrangement of a written file.
#[derive(Debug, Clone)]
pub struct Layout {
    pub be: Endian,
    pub rev: u32,
    /// order of the five regions: tables of originals and translations,
    /// original strings, translated strings, hash table
    pub order: Vec<usize>,
    /// bytes before each region
    pub gaps: [usize; 5],
    /// what fills the gaps
    pub fill: u8,
    /// hash table slots (0: none)
    pub hash: u32,
    /// equal strings are stored once
    pub share: bool,
    /// strings that end another one are not stored again
    pub tails: bool,
    /// strings of a region are stored last first
    pub reverse: bool,
    /// the hash table size and offset words are present although unused
    pub junk: bool,
}

impl Layout {
    pub fn plain(be: Endian, rev: u32) -> Layout {
        Layout {
            be,
            rev,
            order: vec![0, 1, 2, 3, 4],
            gaps: [0; 5],
            fill: 0,
            hash: 0,
            share: false,
            tails: false,
            reverse: false,
            junk: false,
        }
    }
}

/// The hash function of the GNU format.
pub fn hashpjw(s: &[u8]) -> u32 {
    let mut h: u32 = 0;
    for c in s.iter().take_while(|c| **c != 0) {
        h = h.wrapping_shl(4).wrapping_add(*c as u32);
        let g = h & 0xf000_0000;
        if g != 0 {
            h ^= g >> 24;
            h ^= g;
        }
    }
    h
}

/// Writes a file holding `pairs` in the given order.
/// The singular translation of a plural message read from an MO file.  The
/// library stores the whole string there, NULs included (known finding);
/// anything but that or nothing is wrong.
pub fn plural_msgstr(e: &rspolib::MOEntry, rec: &mut crate::engine::Rec) -> crate::engine::Res {
    let x = e.msgstr.as_deref().unwrap_or("");
    if e.msgid_plural.is_none() || x.is_empty() {
        return Ok(());
    }
    crate::ensure!(
        x == e.msgstr_plural.join("\0"),
        "the plural message {e:?} has a singular translation"
    );
    rec.soft("plural-msgstr", || {
        format!("the plural message {e:?} has a singular translation")
    });
    Ok(())
}

pub fn write(pairs: &[(Vec<u8>, Vec<u8>)], l: &Layout) -> Vec<u8> {
    let n = pairs.len();
    let mut out = vec![0u8; 28];
    let mut at = [0usize; 5];
    let mut pos: [Vec<usize>; 2] = [vec![0; n], vec![0; n]];
    // positions of stored strings, for sharing
    let mut stored: Vec<(Vec<u8>, usize)> = vec![];
    for &r in &l.order {
        out.extend(std::iter::repeat(l.fill).take(l.gaps[r]));
        at[r] = out.len();
        match r {
            0 | 1 => out.extend(std::iter::repeat(0).take(8 * n)),
            2 | 3 => {
                let mut idx: Vec<usize> = (0..n).collect();
                if l.reverse {
                    idx.reverse();
                }
                for i in idx {
                    let s =
                        if r == 2 { &pairs[i].0 } else { &pairs[i].1 };
                    let any = l.share || l.tails;
                    let found = stored.iter().take_while(|_| any).find_map(|(t, p)| {
                        if l.share && t == s {
                            Some(*p)
                        } else if l.tails && t.ends_with(s) {
                            Some(p + t.len() - s.len())
                        } else {
                            None
                        }
                    });
                    pos[r - 2][i] = found.unwrap_or_else(|| {
                        let p = out.len();
                        out.extend(s);
                        out.push(0);
                        stored.push((s.clone(), p));
                        p
                    });
                }
            }
            _ => {
                let h = l.hash as usize;
                let mut slots = vec![0u32; h];
                for (i, (o, _)) in pairs.iter().enumerate() {
                    if h > n {
                        let v = hashpjw(o);
                        let mut k = (v as usize) % h;
                        let step = if h > 2 {
                            1 + (v as usize) % (h - 2)
                        } else {
                            1
                        };
                        let mut tries = 0;
                        while slots[k] != 0 && tries < h {
                            k = (k + step) % h;
                            tries += 1;
                        }
                        if slots[k] == 0 {
                            slots[k] = i as u32 + 1;
                        }
                    }
                }
                for s in slots {
                    out.extend(bytes(s, l.be));
                }
            }
        }
    }
    let mut put = |p: usize, w: usize| {
        out[p..p + 4].copy_from_slice(&bytes(w as u32, l.be))
    };
    put(0, 0x950412de);
    put(4, l.rev as usize);
    put(8, n);
    put(12, at[0]);
    put(16, at[1]);
    put(20, l.hash as usize);
    put(24, if l.hash > 0 || !l.junk { at[4] } else { 0 });
    for i in 0..n {
        put(at[0] + 8 * i, pairs[i].0.len());
        put(at[0] + 8 * i + 4, pos[0][i]);
        put(at[1] + 8 * i, pairs[i].1.len());
        put(at[1] + 8 * i + 4, pos[1][i]);
    }
    out
}

/// Looks a string up as gettext does: binary search over the originals,
/// compared as NUL-terminated strings.
pub fn lookup<'a>(b: &'a [u8], r: &Raw, key: &[u8]) -> Option<&'a [u8]> {
    let cstr = |p: (u32, u32)| -> &'a [u8] {
        let s = &b[p.0 as usize..];
        let e = s.iter().position(|c| *c == 0).unwrap_or(s.len());
        &s[..e]
    };
    let (mut lo, mut hi) = (0usize, r.orig.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        match key.cmp(cstr(r.orig[mid])) {
            std::cmp::Ordering::Equal => {
                return Some(r.str_at(b, r.trans[mid]))
            }
            std::cmp::Ordering::Less => hi = mid,
            std::cmp::Ordering::Greater => lo = mid + 1,
        }
    }
    None
}

/// Checks everything the GNU layout requires of a written file.
pub fn conforms(b: &[u8], be: Endian, rev: u32) -> Result<Raw, String> {
    let r = raw(b)?;
    if r.be != be || r.rev != rev {
        return Err(format!(
            "byte order/revision {}/{} instead of {}/{}",
            r.be, r.rev, be, rev
        ));
    }
    let hsize = r.hsize.ok_or("header cut")?;
    let hoff = r.hoff.ok_or("header cut")?;
    let len = b.len() as u64;
    // regions: header, tables, hash table, strings with their NUL
    let mut used: Vec<(u64, u64, String)> = vec![(0, 28, "header".into())];
    let n = r.n as u64;
    used.push((r.otab as u64, 8 * n, "table of originals".into()));
    used.push((r.ttab as u64, 8 * n, "table of translations".into()));
    used.push((hoff as u64, 4 * hsize as u64, "hash table".into()));
    for (k, t) in [("original", &r.orig), ("translation", &r.trans)] {
        for (i, (o, l)) in t.iter().enumerate() {
            let end = *o as u64 + *l as u64;
            if end >= len {
                return Err(format!("{k} {i} is not inside the file"));
            }
            if b[end as usize] != 0 {
                return Err(format!(
                    "{k} {i} is not followed by a NUL"
                ));
            }
            used.push((*o as u64, *l as u64 + 1, format!("{k} {i}")));
        }
    }
    for u in &used {
        // an absent hash table still has an offset, in the file's byte order
        if u.0 + u.1 > len {
            return Err(format!("{} lies outside the file", u.2));
        }
    }
    used.retain(|u| u.1 > 0);
    used.sort();
    for w in used.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("{} overlaps {}", w[0].2, w[1].2));
        }
    }
    let p = r.pairs(b);
    for w in p.windows(2) {
        if w[0].0 >= w[1].0 {
            return Err(format!(
                "originals out of order: {:?} before {:?}",
                String::from_utf8_lossy(w[0].0),
                String::from_utf8_lossy(w[1].0)
            ));
        }
    }
    Ok(r)
}

/// Catalogue messages for the MO checks: prefixes of each other, contexts
/// that collide with sources, bytes around the separators, plurals.
pub fn catalogue() -> Vec<Msg> {
    let m = |c: Option<&str>, i: &str, p: Option<&str>, t: &[&str]| Msg {
        ctxt: c.map(String::from),
        id: i.into(),
        plural: p.map(String::from),
        tr: t.iter().map(|x| x.to_string()).collect(),
    };
    vec![
        m(None, "a", None, &["A"]),
        m(None, "ab", None, &["AB longer translation"]),
        m(None, "b", Some("bs"), &["B", "Bs"]),
        m(Some("a"), "b", None, &["ctx a"]),
        m(Some("a"), "a", Some("as"), &["one", "two", "three"]),
        m(Some(""), "a", None, &["empty ctx"]),
        m(Some("ctx"), "", None, &["empty id"]),
        m(None, "é", None, &["É"]),
        m(None, "中文", Some("中文s"), &["日本", ""]),
        m(None, "a\u{1}", None, &["soh"]),
        m(None, "a ", None, &[""]),
        m(None, "a\u{5}b", None, &["enq"]),
        m(Some("a\nb"), "line\n", None, &["two\nlines\n"]),
        m(None, "Z", None, &["z\u{4}z"]),
        m(None, "\u{7f}", None, &["del"]),
        m(None, "\n", Some("\n\n"), &["x"]),
        m(None, "c", Some(""), &["empty plural"]),
        m(None, "d", Some("ds"), &["", "only second"]),
        m(None, "d:e", None, &["Language: xx\nKey: v\n"]),
        m(Some("é"), "a", None, &["é ctx"]),
        m(None, "\u{10ffff}", None, &["last"]),
        m(Some("a"), "", Some("p"), &["ctx plural empty id", "b"]),
        m(None, &"long text ".repeat(30), None, &[&"largo ".repeat(60)]),
        m(None, "e", None, &["tr\0with nul"]),
    ]
}
