//! A Python interpreter with the extension module, one per worker.

use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Python {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Python {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}

thread_local! {
    static PY: RefCell<Option<Python>> = const { RefCell::new(None) };
}

fn start() -> Python {
    let mut c = Command::new("python3");
    c.args([
        "-I",
        "-S",
        "-B",
        "/verif/harness/py/driver.py",
        "/verif/target/py/mod",
    ])
    .current_dir(crate::engine::scratch())
    .stdin(Stdio::piped())
    .stdout(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("cannot start python3");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Python { child, to, from }
}

/// Outcomes of programs, or None when the interpreter died.
pub fn run(request: &str) -> Option<Vec<String>> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let py = p.get_or_insert_with(start);
        let mut line = String::new();
        let ok = py
            .to
            .write_all(request.as_bytes())
            .and_then(|_| py.to.write_all(b"\n"))
            .and_then(|_| py.to.flush())
            .and_then(|_| py.from.read_line(&mut line));
        if !matches!(ok, Ok(n) if n > 0) {
            *p = None;
            return None;
        }
        line.pop();
        Some(line.split('\x1e').map(String::from).collect())
    })
}

/// A Python string literal.
pub fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\0' => o.push_str("\\x00"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn opt(s: &Option<String>) -> String {
    match s {
        Some(x) => lit(x),
        None => "None".into(),
    }
}
pub fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

// The driver's encoding of values.
pub fn es(s: &str) -> String {
    format!(
        "\"{}\"",
        s.replace('\\', "\\\\")
            .replace('\n', "\\n")
            .replace('\r', "\\r")
            .replace('"', "\\\"")
    )
}
pub fn eo(s: &Option<String>) -> String {
    match s {
        Some(x) => es(x),
        None => "N".into(),
    }
}
pub fn eb(b: bool) -> String {
    if b { "T" } else { "F" }.into()
}
pub fn ey(b: &[u8]) -> String {
    let mut o = String::from("b");
    for x in b {
        o.push_str(&format!("{x:02x}"));
    }
    o
}
