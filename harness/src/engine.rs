//! Exhaustive exploration engine.
//!
//! A property is a list of finite spaces.  Every index of every space is
//! executed against the real library; nothing is sampled.  Workers run in a
//! child process so that an abort (stack overflow, refused allocation) or a
//! hang of the code under test becomes a verdict about the case that was
//! running instead of an error of the check.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
const STATE_CAP: usize = 1_000_000;
const SLOT: usize = 8192;
const TEXT: usize = SLOT - 64;
/// Wall-clock limit of one case (cases take microseconds).
const HANG_S: u64 = 60;

/// What a case may report instead of success.
pub enum Fail {
    /// The property does not hold on this case.
    Bad(String),
    /// A deviation with a stable signature; quiet only when the committed
    /// known-findings file lists that signature for the property.
    Sig(&'static str, String),
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Bad(s)
    }
}
pub type Res = Result<(), Fail>;

pub fn bad<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad(s.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c {
            return Err($crate::engine::Fail::Bad(format!($($arg)*)));
        }
    };
}

/// Per-worker recorder.
pub struct Rec {
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    states: HashSet<u64, BuildId>,
    capped: bool,
    sample: bool,
    sample_text: Option<String>,
    soft: Option<(&'static str, String)>,
    slot: *mut u8,
    t0: Instant,
}
unsafe impl Send for Rec {}

#[derive(Default, Clone, Copy)]
pub struct BuildId;
pub struct Id(u64);
impl std::hash::BuildHasher for BuildId {
    type Hasher = Id;
    fn build_hasher(&self) -> Id {
        Id(0)
    }
}
impl std::hash::Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for chunk in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..chunk.len()].copy_from_slice(chunk);
        h = (h ^ u64::from_le_bytes(v) ^ ((chunk.len() as u64) << 56))
            .wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h ^ (h >> 32)
}

impl Rec {
    /// Record a distinct state (by content).
    pub fn state(&mut self, b: &[u8]) {
        if self.states.len() < STATE_CAP {
            self.states.insert(hash_bytes(b));
        } else {
            self.capped = true;
        }
    }
    /// One model trace replayed on the implementation.
    pub fn trace(&mut self, steps: u64) {
        self.traces += 1;
        self.transitions += steps;
    }
    /// A deviation with a stable signature that does not end the case: it is
    /// the case's outcome only if nothing else is wrong.
    pub fn soft(&mut self, sig: &'static str, msg: impl Fn() -> String) {
        if self.soft.is_none() {
            self.soft = Some((sig, msg()));
        }
    }
    /// Journal the text of the case about to run.
    pub fn case(&mut self, bytes: &[u8]) {
        if !self.slot.is_null() {
            let n = bytes.len().min(TEXT);
            unsafe {
                let ms = self.t0.elapsed().as_millis() as u64 + 1;
                (self.slot.add(16) as *mut u64).write_volatile(ms);
                (self.slot.add(24) as *mut u64).write_volatile(n as u64);
                std::ptr::copy_nonoverlapping(
                    bytes.as_ptr(),
                    self.slot.add(64),
                    n,
                );
            }
        }
        if self.sample && self.sample_text.is_none() {
            self.sample_text =
                Some(String::from_utf8_lossy(bytes).into_owned());
        }
    }
}

pub type Runner = Box<dyn Fn(u64, &mut Rec) -> Res + Sync + Send>;

pub struct Space {
    pub name: String,
    /// What is enumerated, with its bounds.
    pub what: String,
    pub size: u64,
    pub run: Runner,
    /// Run on one worker (process-wide effects such as resource limits).
    pub serial: bool,
}

pub fn space(
    name: &str,
    what: &str,
    size: u64,
    run: impl Fn(u64, &mut Rec) -> Res + Sync + Send + 'static,
) -> Space {
    Space {
        name: name.into(),
        what: what.into(),
        size,
        run: Box::new(run),
        serial: false,
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" …");
        t
    }
}

struct Outcome {
    states: u64,
    capped: bool,
    transitions: u64,
    traces: u64,
    nontrivial: u64,
    samples: Vec<String>,
    fails: Vec<(usize, u64, String, String)>,
    sigs: Vec<(&'static str, String)>,
    per_space: Vec<(String, String, u64, f64)>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn run_one(s: &Space, i: u64, rec: &mut Rec) -> Res {
    rec.soft = None;
    match catch_unwind(AssertUnwindSafe(|| (s.run)(i, rec))) {
        Ok(Ok(())) => match rec.soft.take() {
            Some((g, m)) => Err(Fail::Sig(g, m)),
            None => Ok(()),
        },
        Ok(r) => r,
        Err(e) => Err(Fail::Bad(format!("panic: {}", panic_text(e)))),
    }
}

fn known_signatures(prop: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    let text = std::fs::read_to_string(format!(
        "{VERIF}/KNOWN_FINDINGS.txt"
    ))
    .unwrap_or_default();
    for line in text.lines() {
        let mut t = line.split_whitespace();
        if t.next() == Some("known:")
            && t.next() == Some(&format!("property={prop}"))
        {
            if let Some(s) =
                t.next().and_then(|x| x.strip_prefix("signature="))
            {
                out.insert(s.to_string());
            }
        }
    }
    out
}

fn journal_path(dir: &Path) -> PathBuf {
    dir.join("journal")
}

fn map_journal(path: &Path, slots: usize) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .unwrap();
    f.set_len((slots * SLOT) as u64).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            slots * SLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

/// The library asks whether its argument names a file.  Looking up names in
/// a removed directory is cheap (the kernel caches no misses), and with one
/// such directory per worker there is no contention.
fn own_cwd(dir: &Path, w: usize) {
    unsafe {
        if libc::unshare(libc::CLONE_FS) != 0 {
            return;
        }
    }
    let cwd = dir.join(format!("cwd{w}"));
    if std::fs::create_dir_all(&cwd).is_ok()
        && std::env::set_current_dir(&cwd).is_ok()
    {
        std::fs::remove_dir(&cwd).ok();
    }
}

fn workers() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 8)
}

fn new_rec(slot: *mut u8, t0: Instant) -> Rec {
    Rec {
        transitions: 0,
        traces: 0,
        nontrivial: 0,
        states: HashSet::with_hasher(BuildId),
        capped: false,
        sample: false,
        sample_text: None,
        soft: None,
        slot,
        t0,
    }
}

/// The exploring child: runs every space, prints a report on stdout.
pub fn child(prop: &Prop, tier: Tier, dir: &Path) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let n = workers();
    let journal = map_journal(&journal_path(dir), n);
    let t0 = Instant::now();
    let known = known_signatures(prop.id);
    // Watchdog: a case running for longer than HANG_S ends the child.
    let done = std::sync::Arc::new(AtomicBool::new(false));
    {
        let j = journal as usize;
        let done = done.clone();
        std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for w in 0..n {
                    let p = (j + w * SLOT) as *const u8;
                    let st = unsafe {
                        (p.add(16) as *const u64).read_volatile()
                    };
                    if st != 0 && now > st + HANG_S * 1000 {
                        unsafe {
                            ((j + w * SLOT + 32) as *mut u64)
                                .write_volatile(1)
                        };
                        unsafe { libc::_exit(77) };
                    }
                }
            }
        });
    }
    let mut out = Outcome {
        states: 0,
        capped: false,
        transitions: 0,
        traces: 0,
        nontrivial: 0,
        samples: vec![],
        fails: vec![],
        sigs: vec![],
        per_space: vec![],
    };
    let spaces = (prop.spaces)(tier);
    let mut all_states: HashSet<u64, BuildId> =
        HashSet::with_hasher(BuildId);
    for (si, s) in spaces.iter().enumerate() {
        let ts = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let res: Mutex<Vec<Rec>> = Mutex::new(vec![]);
        let fails: Mutex<Vec<(usize, u64, String, String)>> =
            Mutex::new(vec![]);
        let sigs: Mutex<Vec<(&'static str, String)>> =
            Mutex::new(vec![]);
        let samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let nw = if s.serial { 1 } else { n };
        let chunk = (s.size / (nw as u64 * 64)).clamp(1, 4096);
        // cases written out in the evidence
        let want: Vec<u64> = if s.size == 0 {
            vec![]
        } else {
            vec![s.size / 2, s.size - 1]
        };
        std::thread::scope(|sc| {
            for w in 0..nw {
                let slot = unsafe { journal.add(w * SLOT) } as usize;
                let (next, stop, res, fails, sigs, samples, want, known) = (
                    &next, &stop, &res, &fails, &sigs, &samples, &want,
                    &known,
                );
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        own_cwd(dir, w);
                        let slot = slot as *mut u8;
                        let mut rec = new_rec(slot, t0);
                        'outer: loop {
                            let a =
                                next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= s.size
                                || stop.load(Ordering::Relaxed)
                            {
                                break;
                            }
                            for i in a..(a + chunk).min(s.size) {
                                unsafe {
                                    (slot as *mut u64)
                                        .write_volatile(si as u64 + 1);
                                    (slot.add(8) as *mut u64)
                                        .write_volatile(i);
                                    (slot.add(16) as *mut u64)
                                        .write_volatile(
                                            t0.elapsed().as_millis()
                                                as u64
                                                + 1,
                                        );
                                    (slot.add(24) as *mut u64)
                                        .write_volatile(0);
                                }
                                rec.sample = want.contains(&i);
                                let r = run_one(s, i, &mut rec);
                                if rec.sample {
                                    if let Some(t) =
                                        rec.sample_text.take()
                                    {
                                        samples
                                            .lock()
                                            .unwrap()
                                            .push((i, t));
                                    }
                                }
                                match r {
                                    Ok(()) => {}
                                    Err(Fail::Sig(sig, msg))
                                        if known.contains(sig) =>
                                    {
                                        let mut g =
                                            sigs.lock().unwrap();
                                        if !g.iter().any(|x| x.0 == sig)
                                        {
                                            g.push((sig, msg));
                                        }
                                    }
                                    Err(f) => {
                                        let msg = match f {
                                            Fail::Bad(m) => m,
                                            Fail::Sig(g, m) => {
                                                format!("[{g}] {m}")
                                            }
                                        };
                                        let text = unsafe {
                                            let n = (slot.add(24)
                                                as *const u64)
                                                .read_volatile()
                                                as usize;
                                            String::from_utf8_lossy(
                                                std::slice::from_raw_parts(
                                                    slot.add(64),
                                                    n.min(TEXT),
                                                ),
                                            )
                                            .into_owned()
                                        };
                                        fails
                                            .lock()
                                            .unwrap()
                                            .push((si, i, msg, text));
                                        stop.store(
                                            true,
                                            Ordering::Relaxed,
                                        );
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        unsafe {
                            (slot.add(16) as *mut u64).write_volatile(0)
                        };
                        res.lock().unwrap().push(rec);
                    })
                    .unwrap();
            }
        });
        for rec in res.into_inner().unwrap() {
            out.transitions += rec.transitions;
            out.traces += rec.traces;
            out.nontrivial += rec.nontrivial;
            out.capped |= rec.capped;
            all_states.extend(rec.states);
        }
        let mut sm = samples.into_inner().unwrap();
        sm.sort();
        for (i, t) in sm {
            if out.samples.len() < 16 {
                out.samples.push(format!(
                    "{}#{}: {}",
                    s.name,
                    i,
                    clip(&t, 600)
                ));
            }
        }
        for g in sigs.into_inner().unwrap() {
            if !out.sigs.iter().any(|x| x.0 == g.0) {
                out.sigs.push(g);
            }
        }
        out.per_space.push((
            s.name.clone(),
            s.what.clone(),
            s.size,
            ts.elapsed().as_secs_f64(),
        ));
        let mut f = fails.into_inner().unwrap();
        f.sort_by_key(|x| x.1);
        if !f.is_empty() {
            out.fails = f;
            break;
        }
    }
    done.store(true, Ordering::Relaxed);
    out.states = all_states.len() as u64;
    report(prop, tier, out, t0.elapsed().as_secs_f64())
}

fn replay_file(
    prop: &str,
    tier: Tier,
    space: &str,
    si: usize,
    idx: u64,
    msg: &str,
    text: &str,
) -> PathBuf {
    let dir = format!("{VERIF}/replays");
    std::fs::create_dir_all(&dir).ok();
    let path = PathBuf::from(format!("{dir}/{prop}-{space}-{idx}.txt"));
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    std::fs::write(
        &path,
        format!(
            "property: {prop}\nspace: {space}\nindex: {idx}\nreplay: \
             {VERIF}/target/release/mc single {prop} {t} {si} {idx}\n\n\
             what failed:\n{msg}\n\ncase:\n{text}\n"
        ),
    )
    .ok();
    path
}

fn write_evidence(
    prop: &Prop,
    tier: Tier,
    o: &Outcome,
    wall: f64,
    violations: usize,
) {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut j = String::new();
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let total: u64 = o.per_space.iter().map(|x| x.2).sum();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \
         \"level\": {},\n \"coverage\": {{\n",
        json_str(prop.id),
        json_str(t),
        seed,
        json_str(prop.level)
    );
    if prop.level == "fault_enumeration" {
        let _ = write!(
            j,
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n",
            o.traces, o.nontrivial
        );
    } else {
        let _ = write!(
            j,
            "  \"states\": {},\n  \"transitions\": {},\n  \
             \"traces_validated_against_impl\": {},\n",
            o.states, o.transitions, o.traces
        );
    }
    let _ = write!(
        j,
        "  \"states_capped\": {},\n  \"units\": {},\n  \"exhaustive\": \
         {},\n  \"rule\": {},\n",
        o.capped,
        total,
        violations == 0,
        json_str(prop.rule)
    );
    j.push_str("  \"spaces\": [\n");
    for (k, (n, w, s, secs)) in o.per_space.iter().enumerate() {
        let _ = write!(
            j,
            "   {{\"name\": {}, \"enumerates\": {}, \"units\": {}, \
             \"wall_s\": {:.2}}}{}\n",
            json_str(n),
            json_str(w),
            s,
            secs,
            if k + 1 < o.per_space.len() { "," } else { "" }
        );
    }
    j.push_str("  ],\n  \"samples\": [");
    for (k, s) in o.samples.iter().enumerate() {
        if k > 0 {
            j.push_str(", ");
        }
        j.push_str(&json_str(s));
    }
    j.push_str("]\n },\n \"assumptions\": [");
    for (k, s) in prop.assumptions.iter().enumerate() {
        if k > 0 {
            j.push_str(", ");
        }
        j.push_str(&json_str(s));
    }
    let _ = write!(
        j,
        "],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        wall, violations
    );
    std::fs::create_dir_all(format!("{VERIF}/evidence")).ok();
    std::fs::write(format!("{VERIF}/evidence/{}.json", prop.id), j)
        .expect("evidence");
}

fn report(prop: &Prop, tier: Tier, o: Outcome, wall: f64) -> i32 {
    write_evidence(prop, tier, &o, wall, o.fails.len());
    for (n, _, s, secs) in &o.per_space {
        println!("{}: space {n}: {s} units, {secs:.2} s", prop.id);
    }
    println!(
        "{}: states={} transitions={} traces={} wall={:.1}s",
        prop.id, o.states, o.transitions, o.traces, wall
    );
    for (sig, msg) in &o.sigs {
        println!(
            "KNOWN-FINDING: property={} {} {}",
            prop.id,
            sig,
            clip(&msg.replace('\n', " | "), 300)
        );
    }
    if let Some((si, i, msg, text)) = o.fails.first() {
        let sp = &o.per_space.last().unwrap().0;
        let p = replay_file(prop.id, tier, sp, *si, *i, msg, text);
        println!("{}: {}", prop.id, clip(msg, 1500));
        println!("case: {}", clip(text, 1500));
        println!(
            "VIOLATION property={} replay={}",
            prop.id,
            p.display()
        );
        return 1;
    }
    0
}

/// Runs one case; exit 0 held, 1 failed.
pub fn single(prop: &Prop, tier: Tier, si: usize, idx: u64) -> i32 {
    let spaces = (prop.spaces)(tier);
    let s = &spaces[si];
    let t0 = Instant::now();
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, || {
                let mut rec = new_rec(std::ptr::null_mut(), t0);
                rec.sample = true;
                let r = run_one(s, idx, &mut rec);
                if let Some(t) = rec.sample_text {
                    println!("case (first of the unit):\n{t}");
                }
                r
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(Fail::Bad(m)) => {
            println!("FAILS: {m}");
            1
        }
        Err(Fail::Sig(g, m)) => {
            println!("FAILS [{g}]: {m}");
            1
        }
    }
}

fn wait_timeout(
    c: &mut std::process::Child,
    secs: u64,
) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed().as_secs() > secs {
            c.kill().ok();
            c.wait().ok();
            return None;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

/// The supervisor: runs the exploring child and turns an abnormal end of the
/// code under test into a violation, after confirming it on the single case.
pub fn supervise(prop: &Prop, tier: Tier) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let dir = std::env::temp_dir()
        .join(format!("mc-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let t0 = Instant::now();
    let mut code = 2;
    for _attempt in 0..2 {
        let st = std::process::Command::new(&exe)
            .arg("child")
            .arg(prop.id)
            .arg(t)
            .arg(&dir)
            .env("MC_SCRATCH", &dir)
            .status()
            .unwrap();
        if let Some(c) = st.code() {
            if c != 77 && c != 101 {
                code = c;
                break;
            }
        }
        // Abnormal end: which worker was running what?
        let n = workers();
        let j = map_journal(&journal_path(&dir), n);
        let spaces = (prop.spaces)(tier);
        let mut verdict = None;
        for w in 0..n {
            let p = unsafe { j.add(w * SLOT) };
            let rd = |o: usize| unsafe {
                (p.add(o) as *const u64).read_volatile()
            };
            let (si, idx, started, len) =
                (rd(0), rd(8), rd(16), rd(24) as usize);
            if si == 0 || started == 0 {
                continue;
            }
            let text = unsafe {
                String::from_utf8_lossy(std::slice::from_raw_parts(
                    p.add(64),
                    len.min(TEXT),
                ))
                .into_owned()
            };
            let mut c = std::process::Command::new(&exe)
                .args([
                    "single",
                    prop.id,
                    t,
                    &(si - 1).to_string(),
                    &idx.to_string(),
                ])
                .env("MC_SCRATCH", &dir)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .unwrap();
            let why = match wait_timeout(&mut c, HANG_S * 2) {
                None => "does not terminate".to_string(),
                Some(s) if s.code().is_none() => {
                    format!("process died: {s}")
                }
                Some(_) => continue,
            };
            verdict = Some((si as usize - 1, idx, why, text));
            break;
        }
        if let Some((si, idx, why, text)) = verdict {
            let o = Outcome {
                states: 0,
                capped: false,
                transitions: 0,
                traces: 0,
                nontrivial: 0,
                samples: vec![text.clone()],
                fails: vec![(si, idx, why, text)],
                sigs: vec![],
                per_space: vec![(
                    spaces[si].name.clone(),
                    spaces[si].what.clone(),
                    spaces[si].size,
                    0.0,
                )],
            };
            code = report(prop, tier, o, t0.elapsed().as_secs_f64());
            break;
        }
        eprintln!(
            "{}: exploring process ended abnormally ({st}) and no case \
             reproduces it",
            prop.id
        );
        code = 2;
    }
    std::fs::remove_dir_all(&dir).ok();
    code
}

/// Scratch directory of this run (created by the supervisor).
pub fn scratch() -> PathBuf {
    let p = std::env::var_os("MC_SCRATCH")
        .map(PathBuf::from)
        .unwrap_or_else(|| {
            std::env::temp_dir()
                .join(format!("mc-scratch-{}", std::process::id()))
        });
    std::fs::create_dir_all(&p).ok();
    p
}
