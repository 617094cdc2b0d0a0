//! Plain-data views of the library's files and the independent oracles that
//! are shared by several properties (escaping, line breaking, comparison).

use rspolib::{FileOptions, MOEntry, MOFile, POEntry, POFile};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Ent {
    pub ctxt: Option<String>,
    pub id: String,
    pub plural: Option<String>,
    pub s: Option<String>,
    pub sp: Vec<String>,
    pub obsolete: bool,
    pub comment: Option<String>,
    pub tcomment: Option<String>,
    pub occ: Vec<(String, String)>,
    pub flags: Vec<String>,
    pub pctxt: Option<String>,
    pub pid: Option<String>,
    pub pplural: Option<String>,
    pub line: usize,
}

impl Ent {
    pub fn po(&self) -> POEntry {
        let mut e = POEntry::new(self.line);
        e.msgctxt = self.ctxt.clone();
        e.msgid = self.id.clone();
        e.msgid_plural = self.plural.clone();
        e.msgstr = self.s.clone();
        e.msgstr_plural = self.sp.clone();
        e.obsolete = self.obsolete;
        e.comment = self.comment.clone();
        e.tcomment = self.tcomment.clone();
        e.occurrences = self.occ.clone();
        e.flags = self.flags.clone();
        e.previous_msgctxt = self.pctxt.clone();
        e.previous_msgid = self.pid.clone();
        e.previous_msgid_plural = self.pplural.clone();
        e
    }
    pub fn of(e: &POEntry) -> Ent {
        Ent {
            ctxt: e.msgctxt.clone(),
            id: e.msgid.clone(),
            plural: e.msgid_plural.clone(),
            s: e.msgstr.clone(),
            sp: e.msgstr_plural.clone(),
            obsolete: e.obsolete,
            comment: e.comment.clone(),
            tcomment: e.tcomment.clone(),
            occ: e.occurrences.clone(),
            flags: e.flags.clone(),
            pctxt: e.previous_msgctxt.clone(),
            pid: e.previous_msgid.clone(),
            pplural: e.previous_msgid_plural.clone(),
            line: e.linenum,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Fil {
    pub header: Option<String>,
    pub meta: BTreeMap<String, String>,
    pub fuzzy: bool,
    pub ents: Vec<Ent>,
}

pub fn map(m: &BTreeMap<String, String>) -> HashMap<String, String> {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

impl Fil {
    pub fn po(&self, width: usize) -> POFile {
        let mut f = POFile::new(FileOptions::from(("", width)));
        f.header = self.header.clone();
        f.metadata = map(&self.meta);
        f.metadata_is_fuzzy = self.fuzzy;
        f.entries = self.ents.iter().map(|e| e.po()).collect();
        f
    }
    pub fn of(f: &POFile) -> Fil {
        Fil {
            header: f.header.clone(),
            meta: f
                .metadata
                .iter()
                .map(|(k, v)| (k.clone(), v.clone()))
                .collect(),
            fuzzy: f.metadata_is_fuzzy,
            ents: f.entries.iter().map(Ent::of).collect(),
        }
    }
}

/// MO message as plain data.
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Msg {
    pub ctxt: Option<String>,
    pub id: String,
    pub plural: Option<String>,
    /// one translation, or the plural translations
    pub tr: Vec<String>,
}

impl Msg {
    pub fn mo(&self) -> MOEntry {
        if self.plural.is_some() {
            MOEntry::new(
                self.id.clone(),
                None,
                self.plural.clone(),
                self.tr.clone(),
                self.ctxt.clone(),
            )
        } else {
            MOEntry::new(
                self.id.clone(),
                Some(self.tr.first().cloned().unwrap_or_default()),
                None,
                vec![],
                self.ctxt.clone(),
            )
        }
    }
    /// Translations of a message: a plural message is the list of its plural
    /// translations, any other the single translation (absent = empty).
    pub fn of(e: &MOEntry) -> Msg {
        Msg {
            ctxt: e.msgctxt.clone(),
            id: e.msgid.clone(),
            plural: e.msgid_plural.clone(),
            tr: if e.msgid_plural.is_some() {
                e.msgstr_plural.clone()
            } else {
                vec![e.msgstr.clone().unwrap_or_default()]
            },
        }
    }
    pub fn key(&self) -> Vec<u8> {
        let mut k = vec![];
        if let Some(c) = &self.ctxt {
            k.extend(c.as_bytes());
            k.push(4);
        }
        k.extend(self.id.as_bytes());
        k
    }
    /// Original string as stored in MO files.
    pub fn orig(&self) -> Vec<u8> {
        let mut k = self.key();
        if let Some(p) = &self.plural {
            k.push(0);
            k.extend(p.as_bytes());
        }
        k
    }
    pub fn trans(&self) -> Vec<u8> {
        self.tr.join("\0").into_bytes()
    }
}

pub fn mo_file(
    msgs: &[Msg],
    meta: &BTreeMap<String, String>,
) -> MOFile {
    let mut f = MOFile::new(FileOptions::default());
    f.metadata = map(meta);
    f.entries = msgs.iter().map(|m| m.mo()).collect();
    f
}

pub fn meta_of(m: &HashMap<String, String>) -> BTreeMap<String, String> {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// Reference escaping: the documented two-character sequences.
pub const ESC: [(char, char); 8] = [
    ('"', '"'),
    ('\n', 'n'),
    ('\r', 'r'),
    ('\t', 't'),
    ('\u{8}', 'b'),
    ('\u{11}', 'v'),
    ('\u{12}', 'f'),
    ('\\', '\\'),
];

pub fn ref_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match ESC.iter().find(|e| e.0 == c) {
            Some(e) => {
                o.push('\\');
                o.push(e.1)
            }
            None => o.push(c),
        }
    }
    o
}

pub fn ref_unescape(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut esc = false;
    for c in s.chars() {
        if esc {
            o.push(ESC.iter().find(|e| e.1 == c)?.0);
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else {
            o.push(c);
        }
    }
    if esc {
        None
    } else {
        Some(o)
    }
}

pub fn width(s: &str) -> usize {
    unicode_width::UnicodeWidthStr::width(s)
}

/// Byte positions at which a line of `text` may legally end: Unicode line
/// break opportunities outside escape sequences.
pub fn legal_breaks(text: &str) -> Vec<usize> {
    let inside = inside_escape(text);
    unicode_linebreak::linebreaks(text)
        .map(|(p, _)| p)
        .filter(|p| *p < text.len() && !inside.contains(p))
        .collect()
}

fn inside_escape(text: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut esc = false;
    for (i, c) in text.char_indices() {
        if esc {
            v.push(i);
            esc = false;
        } else if c == '\\' {
            esc = true;
        }
    }
    v
}

/// First difference of two files, for messages.
pub fn diff(a: &Fil, b: &Fil) -> String {
    if a.header != b.header {
        return format!("header {:?} != {:?}", a.header, b.header);
    }
    if a.meta != b.meta {
        return format!("metadata {:?} != {:?}", a.meta, b.meta);
    }
    if a.fuzzy != b.fuzzy {
        return format!("metadata fuzzy {:?} != {:?}", a.fuzzy, b.fuzzy);
    }
    for (i, (x, y)) in a.ents.iter().zip(&b.ents).enumerate() {
        if x != y {
            return format!("message {i}: {x:?} != {y:?}");
        }
    }
    format!("{} messages != {}", a.ents.len(), b.ents.len())
}

/// Options with a width for content given as text.
pub fn opts(text: &str, width: usize) -> FileOptions {
    FileOptions::from((text, width))
}

/// Plain PO text of a file, one line per string, written without the
/// library: the usual order of the lines of a message, a blank line between
/// messages, obsolete messages where they stand. Also the line each message
/// starts on.
pub fn ref_write(f: &Fil) -> (String, Vec<usize>) {
    let mut t = String::new();
    let mut starts = vec![];
    let (mut seen, mut line) = (0, 1);
    for l in f.header.iter().flat_map(|h| h.split('\n')) {
        t += format!("# {l}").trim_end();
        t.push('\n');
    }
    if !f.meta.is_empty() || f.fuzzy || f.header.is_some() {
        if f.fuzzy {
            t += "#, fuzzy\n";
        }
        t += "msgid \"\"\nmsgstr \"\"\n";
        for (k, v) in &f.meta {
            t += &format!("\"{}\\n\"\n", ref_escape(&format!("{k}: {v}")));
        }
    }
    for e in &f.ents {
        if !t.is_empty() {
            t.push('\n');
        }
        line += t[seen..].matches('\n').count();
        seen = t.len();
        starts.push(line);
        for (mark, c) in [("# ", &e.tcomment), ("#. ", &e.comment)] {
            for l in c.iter().flat_map(|c| c.lines()) {
                t += &format!("{mark}{l}\n");
            }
        }
        if !e.occ.is_empty() {
            t += "#:";
            for (a, b) in &e.occ {
                t += &format!(" {a}{}{b}", if b.is_empty() { "" } else { ":" });
            }
            t.push('\n');
        }
        if !e.flags.is_empty() {
            t += &format!("#, {}\n", e.flags.join(", "));
        }
        let mut put = |mark: &str, key: &str, x: &str| {
            t += &format!("{mark}{key} \"{}\"\n", ref_escape(x));
        };
        for (key, x) in [
            ("msgctxt", &e.pctxt),
            ("msgid", &e.pid),
            ("msgid_plural", &e.pplural),
        ] {
            if let Some(x) = x {
                put("#| ", key, x);
            }
        }
        let mark = if e.obsolete { "#~ " } else { "" };
        if let Some(x) = &e.ctxt {
            put(mark, "msgctxt", x);
        }
        put(mark, "msgid", &e.id);
        if let Some(x) = &e.plural {
            put(mark, "msgid_plural", x);
        }
        for (k, x) in e.sp.iter().enumerate() {
            put(mark, &format!("msgstr[{k}]"), x);
        }
        if e.sp.is_empty() {
            put(mark, "msgstr", e.s.as_deref().unwrap_or(""));
        }
    }
    (t, starts)
}
