//! The PO format as a machine over line kinds.
//!
//! This is the specification model for C04 and C05: it works on structured
//! lines, never on text, and is replayed against the real parser on the text
//! of every enumerated sequence.

use crate::model::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Tc,
    TcEmpty,
    Gc,
    GcEmpty,
    Oc1,
    Oc2,
    FlFuzzy,
    FlTwo,
    Pc,
    Pm,
    Pp,
    PCont,
    Ct,
    Mi,
    Mi0,
    Mp,
    Ms,
    Ms0,
    Mx(usize),
    Cont,
    Blank,
    Skip,
    /// empty markers, ignored: "#:", "#,"
    Hollow(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct L {
    pub k: K,
    pub obs: bool,
}

pub const fn l(k: K) -> L {
    L { k, obs: false }
}
pub const fn lo(k: K) -> L {
    L { k, obs: true }
}

/// Line kinds in the order they are tried.
pub const ALPHABET: [L; 29] = [
    l(K::Mi),
    l(K::Ms),
    l(K::Mi0),
    l(K::Cont),
    l(K::Tc),
    l(K::Ct),
    l(K::Mp),
    l(K::Mx(0)),
    l(K::Mx(1)),
    l(K::Gc),
    l(K::Oc1),
    l(K::Oc2),
    l(K::FlFuzzy),
    l(K::FlTwo),
    l(K::Pc),
    l(K::Pm),
    l(K::Pp),
    l(K::PCont),
    lo(K::Mi),
    lo(K::Ms),
    lo(K::Ct),
    lo(K::Mp),
    lo(K::Mx(0)),
    lo(K::Mx(1)),
    lo(K::Cont),
    l(K::Ms0),
    l(K::TcEmpty),
    l(K::Blank),
    l(K::Skip),
];

/// Distinguishing string content of the line at position `p`.
pub fn content(k: K, p: usize) -> String {
    match k {
        K::Ct => format!("ctx{p}"),
        K::Mi => format!("id{p}"),
        K::Mi0 | K::Ms0 => String::new(),
        K::Mp => format!("ids{p}"),
        K::Ms => format!("str{p}"),
        K::Mx(i) => format!("form{i}at{p}"),
        K::Cont => format!("K{p}: v{p}\\n"),
        K::Pc => format!("pctx{p}"),
        K::Pm => format!("pid{p}"),
        K::Pp => format!("pids{p}"),
        K::PCont => format!(" pk{p}\\t"),
        _ => String::new(),
    }
}

/// Text of the line without layout: marker, keyword, quoted content.
pub fn parts(x: L, p: usize) -> (String, Option<String>) {
    let c = content(x.k, p);
    let o = if x.obs { "#~ " } else { "" };
    match x.k {
        K::Tc => (format!("# tc{p} x"), None),
        K::TcEmpty => ("#".into(), None),
        K::Gc => (format!("#. gc{p} x"), None),
        K::GcEmpty => ("#.".into(), None),
        K::Oc1 => (format!("#: f{p}.c:{p}"), None),
        K::Oc2 => (format!("#: g{p}.c:3 h{p}"), None),
        K::FlFuzzy => ("#, fuzzy".into(), None),
        K::FlTwo => (format!("#, a{p}, b{p}"), None),
        K::Pc => ("#| msgctxt".into(), Some(c)),
        K::Pm => ("#| msgid".into(), Some(c)),
        K::Pp => ("#| msgid_plural".into(), Some(c)),
        K::PCont => ("#|".into(), Some(c)),
        K::Ct => (format!("{o}msgctxt"), Some(c)),
        K::Mi | K::Mi0 => (format!("{o}msgid"), Some(c)),
        K::Mp => (format!("{o}msgid_plural"), Some(c)),
        K::Ms | K::Ms0 => (format!("{o}msgstr"), Some(c)),
        K::Mx(i) => (format!("{o}msgstr[{i}]"), Some(c)),
        K::Cont => (if x.obs { "#~".into() } else { String::new() }, Some(c)),
        K::Blank => (String::new(), None),
        K::Skip => (format!("#~| msgid \"gone{p}\""), None),
        K::Hollow(b) => (format!("#{}", b as char), None),
    }
}

pub fn text(x: L, p: usize) -> String {
    match parts(x, p) {
        (a, None) => a,
        (a, Some(c)) if a.is_empty() => format!("\"{c}\""),
        (a, Some(c)) => format!("{a} \"{c}\""),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// The line is well formed here.
    Good,
    /// The line must be rejected here.
    Malformed,
    /// The format does not settle it (for example a comment in the middle of
    /// a message); not explored further.
    Open,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Phase {
    Comments,
    Ctxt,
    Id,
    Plural,
    Str,
    StrP,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum F {
    Ctxt,
    Id,
    Plural,
    Str,
    StrP(usize),
    Pctxt,
    Pid,
    Pplural,
}

/// The machine.  Strings are kept escaped until a message is closed.
#[derive(Clone, Debug)]
pub struct Machine {
    header: Vec<String>,
    in_header: bool,
    done: Vec<Ent>,
    cur: Ent,
    tc: Vec<String>,
    gc: Vec<String>,
    started: bool,
    phase: Phase,
    last: Option<F>,
    seen_mx: u32,
    lineno: usize,
    open: bool,
}

impl Machine {
    pub fn new() -> Self {
        Machine {
            header: vec![],
            in_header: true,
            done: vec![],
            cur: Ent::default(),
            tc: vec![],
            gc: vec![],
            started: false,
            phase: Phase::Comments,
            last: None,
            seen_mx: 0,
            lineno: 0,
            open: false,
        }
    }

    /// Abstract state: where in a message we are and what it already has.
    pub fn key(&self) -> String {
        format!(
            "{:?}{:?}{}{}{:?}{}{}{}{}{}{}{}",
            self.phase,
            self.last,
            self.in_header,
            self.seen_mx,
            self.cur.obsolete,
            self.cur.ctxt.is_some(),
            self.cur.plural.is_some(),
            self.cur.pid.is_some(),
            self.cur.pctxt.is_some(),
            self.cur.pplural.is_some(),
            !self.cur.flags.is_empty(),
            self.done.len().min(2),
        )
    }

    fn close(&mut self) {
        let mut e = std::mem::take(&mut self.cur);
        let un = |x: &mut String| *x = ref_unescape(x).unwrap();
        un(&mut e.id);
        for f in [
            &mut e.ctxt,
            &mut e.plural,
            &mut e.s,
            &mut e.pctxt,
            &mut e.pid,
            &mut e.pplural,
        ] {
            if let Some(x) = f {
                un(x)
            }
        }
        for x in &mut e.sp {
            un(x)
        }
        if !self.tc.is_empty() {
            e.tcomment = Some(self.tc.join("\n"));
        }
        if !self.gc.is_empty() {
            e.comment = Some(self.gc.join("\n"));
        }
        self.tc.clear();
        self.gc.clear();
        self.done.push(e);
        self.started = false;
        self.phase = Phase::Comments;
        self.last = None;
        self.seen_mx = 0;
    }

    fn touch(&mut self) {
        if !self.started {
            self.started = true;
            self.cur.line = self.lineno;
        }
        self.in_header = false;
    }

    pub fn step(&mut self, x: L, p: usize) -> Verdict {
        use Verdict::*;
        self.lineno += 1;
        let complete = matches!(self.phase, Phase::Str | Phase::StrP);
        let mid = matches!(
            self.phase,
            Phase::Ctxt | Phase::Id | Phase::Plural
        );
        let c = content(x.k, p);
        match x.k {
            K::Blank | K::Skip | K::Hollow(_) => return Good,
            K::Tc
            | K::TcEmpty
            | K::Gc
            | K::GcEmpty
            | K::Oc1
            | K::Oc2
            | K::FlFuzzy
            | K::FlTwo
            | K::Pc
            | K::Pm
            | K::Pp => {
                if mid {
                    return Open;
                }
                if matches!(x.k, K::Tc | K::TcEmpty) && self.in_header {
                    self.header.push(if x.k == K::Tc {
                        format!("tc{p} x")
                    } else {
                        String::new()
                    });
                    return Good;
                }
                if complete {
                    self.close();
                }
                self.touch();
                self.last = None;
                match x.k {
                    K::Tc => self.tc.push(format!("tc{p} x")),
                    K::TcEmpty => self.tc.push(String::new()),
                    K::Gc => self.gc.push(format!("gc{p} x")),
                    K::GcEmpty => self.gc.push(String::new()),
                    K::Oc1 => self
                        .cur
                        .occ
                        .push((format!("f{p}.c"), format!("{p}"))),
                    K::Oc2 => {
                        self.cur.occ.push((format!("g{p}.c"), "3".into()));
                        self.cur.occ.push((format!("h{p}"), "".into()));
                    }
                    K::FlFuzzy => self.cur.flags.push("fuzzy".into()),
                    K::FlTwo => {
                        self.cur.flags.push(format!("a{p}"));
                        self.cur.flags.push(format!("b{p}"));
                    }
                    K::Pc | K::Pm | K::Pp => {
                        let (slot, f) = match x.k {
                            K::Pc => (&mut self.cur.pctxt, F::Pctxt),
                            K::Pm => (&mut self.cur.pid, F::Pid),
                            _ => (&mut self.cur.pplural, F::Pplural),
                        };
                        if slot.is_some() {
                            return Open;
                        }
                        *slot = Some(c);
                        self.last = Some(f);
                    }
                    _ => unreachable!(),
                }
                Good
            }
            K::PCont => match self.last {
                Some(F::Pctxt) => {
                    self.cur.pctxt.as_mut().unwrap().push_str(&c);
                    Good
                }
                Some(F::Pid) => {
                    self.cur.pid.as_mut().unwrap().push_str(&c);
                    Good
                }
                Some(F::Pplural) => {
                    self.cur.pplural.as_mut().unwrap().push_str(&c);
                    Good
                }
                _ => Malformed,
            },
            K::Ct => {
                if mid {
                    return Malformed;
                }
                if complete {
                    self.close();
                }
                self.touch();
                self.cur.ctxt = Some(c);
                self.cur.obsolete = x.obs;
                self.phase = Phase::Ctxt;
                self.last = Some(F::Ctxt);
                Good
            }
            K::Mi | K::Mi0 => {
                if matches!(self.phase, Phase::Id | Phase::Plural) {
                    return Malformed;
                }
                if complete {
                    self.close();
                }
                if self.phase == Phase::Ctxt && self.cur.obsolete != x.obs {
                    return Open;
                }
                self.touch();
                self.cur.obsolete = x.obs;
                self.cur.id = c;
                self.phase = Phase::Id;
                self.last = Some(F::Id);
                Good
            }
            K::Mp => {
                if self.phase != Phase::Id {
                    return Malformed;
                }
                if self.cur.obsolete != x.obs {
                    return Open;
                }
                self.cur.plural = Some(c);
                self.phase = Phase::Plural;
                self.last = Some(F::Plural);
                Good
            }
            K::Ms | K::Ms0 => {
                if !matches!(self.phase, Phase::Id | Phase::Plural) {
                    return Malformed;
                }
                if self.phase == Phase::Plural
                    || self.cur.obsolete != x.obs
                {
                    return Open;
                }
                self.cur.s = Some(c);
                self.phase = Phase::Str;
                self.last = Some(F::Str);
                Good
            }
            K::Mx(i) => {
                match self.phase {
                    Phase::Plural | Phase::StrP => {}
                    Phase::Id => return Open,
                    _ => return Malformed,
                }
                if self.cur.obsolete != x.obs || self.seen_mx & (1 << i) != 0
                {
                    return Open;
                }
                self.seen_mx |= 1 << i;
                while self.cur.sp.len() <= i {
                    self.cur.sp.push(String::new());
                }
                self.cur.sp[i] = c;
                self.phase = Phase::StrP;
                self.last = Some(F::StrP(i));
                Good
            }
            K::Cont => {
                let slot = match self.last {
                    Some(F::Ctxt) => self.cur.ctxt.as_mut().unwrap(),
                    Some(F::Id) => &mut self.cur.id,
                    Some(F::Plural) => self.cur.plural.as_mut().unwrap(),
                    Some(F::Str) => self.cur.s.as_mut().unwrap(),
                    Some(F::StrP(i)) => &mut self.cur.sp[i],
                    _ => return Malformed,
                };
                if self.cur.obsolete != x.obs {
                    return Open;
                }
                slot.push_str(&c);
                Good
            }
        }
    }

    /// Whether every string line so far belongs to a message that has its
    /// translation.
    pub fn settled(&self) -> bool {
        matches!(self.phase, Phase::Str | Phase::StrP)
            || (self.phase == Phase::Comments && !self.started)
    }

    /// The file at end of input; `None` where the format does not settle it.
    pub fn finish(&self) -> Option<Fil> {
        let mut m = self.clone();
        if m.open {
            return None;
        }
        match m.phase {
            Phase::Str | Phase::StrP => m.close(),
            Phase::Comments => {}
            _ => return None,
        }
        let mut f = Fil {
            header: if m.header.is_empty() {
                None
            } else {
                Some(m.header.join("\n"))
            },
            meta: BTreeMap::new(),
            fuzzy: false,
            ents: m.done,
        };
        let heads: Vec<usize> = f
            .ents
            .iter()
            .enumerate()
            .filter(|(_, e)| e.id.is_empty() && e.ctxt.is_none())
            .map(|(i, _)| i)
            .collect();
        match heads[..] {
            [] => {}
            [i] => {
                let e = f.ents.remove(i);
                if e.obsolete || e.plural.is_some() {
                    return None;
                }
                f.fuzzy = e.flags.iter().any(|x| x == "fuzzy");
                for line in e.s.unwrap().split('\n') {
                    if let Some((k, v)) = line.split_once(':') {
                        f.meta.insert(k.into(), v.trim().into());
                    }
                }
            }
            _ => return None,
        }
        Some(f)
    }
}

/// The content the format settles: blank comment lines and the difference
/// between an absent and an empty header are not part of it.
pub fn canon(f: &Fil) -> Fil {
    let mut f = f.clone();
    let lines = |c: &Option<String>| -> Option<String> {
        let v: Vec<&str> = c
            .iter()
            .flat_map(|c| c.split('\n'))
            .map(|l| l.trim_end())
            .collect();
        Some(v.join("\n")).filter(|c| !c.is_empty())
    };
    f.header = f
        .header
        .map(|h| h.trim_end_matches('\n').to_string())
        .filter(|h| !h.is_empty());
    for e in &mut f.ents {
        e.comment = lines(&e.comment);
        e.tcomment = lines(&e.tcomment);
    }
    f
}
