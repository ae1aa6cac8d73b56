//! The parsers in Go, JavaScript and Python against the Rust one.
use super::cli::{X, read_sexp, sexp_document};
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P19", name: "documents", quick: 120_000, thorough: 2_000_000, run: p19_documents, shrink: 2000, rule: "a well-formed document; non-trivial: at least two entries" },
    Suite { prop: "P19", name: "malformed", quick: 120_000, thorough: 2_000_000, run: p19_malformed, shrink: 2000, rule: "a document with one malformed construct, or a history of dotted root paths or of keys; non-trivial: the document has other entries, or three in the history" },
    Suite { prop: "P19", name: "texts", quick: 120_000, thorough: 2_000_000, run: p19_texts, shrink: 2000, rule: "any text; non-trivial: at least 8 bytes" },
];

pub fn oracle(_name: &str) -> Option<super::Oracle> {
    None
}

const PORTS: &[&str] = &["go", "js", "py"];

struct Port {
    child: Child,
    answers: mpsc::Receiver<String>,
}

impl Port {
    fn start(name: &str) -> Port {
        let target = super::verif_dir().join("target/ports");
        let drivers = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../drivers");
        let mut c = match name {
            "go" => Command::new(target.join("godriver")),
            "js" => {
                let mut c = Command::new("node");
                c.arg("--disable-wasm-trap-handler").arg(drivers.join("js/driver.mjs")).arg(target.join("js"));
                c
            }
            _ => {
                let mut c = Command::new(std::env::var("PY").unwrap_or("/opt/vp/pyenv/bin/python".into()));
                c.arg(drivers.join("py/driver.py")).arg("/repo/implementations/styx-py");
                c
            }
        };
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("cannot start the {name} driver: {e}"));
        let out = child.stdout.take().unwrap();
        let (send, answers) = mpsc::channel();
        std::thread::spawn(move || {
            let mut out = BufReader::new(out);
            loop {
                let mut l = String::new();
                let Ok(n) = out.read_line(&mut l) else { return };
                let Ok(len) = l.trim().parse::<usize>() else { return };
                let mut b = vec![0; len];
                if n == 0 || out.read_exact(&mut b).is_err() || send.send(String::from_utf8_lossy(&b).to_string()).is_err() {
                    return;
                }
            }
        });
        Port { child, answers }
    }
}
impl Drop for Port {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}

thread_local! {
    static RUNNING: RefCell<HashMap<&'static str, Port>> = RefCell::new(HashMap::new());
}

/// What a port makes of a text.
fn ask(name: &'static str, text: &str) -> Result<X, Fail> {
    RUNNING.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.entry(name).or_insert_with(|| Port::start(name));
        let stdin = p.child.stdin.as_mut().unwrap();
        let sent = stdin.write_all(format!("{}\n{text}", text.len()).as_bytes()).and_then(|_| stdin.flush());
        let got = if sent.is_ok() { p.answers.recv_timeout(Duration::from_secs(std::env::var("VH_WAIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60))) } else { Err(mpsc::RecvTimeoutError::Disconnected) };
        match got {
            Ok(t) => match read_sexp(&t) {
                Ok(mut v) if v.len() == 1 => Ok(v.pop().unwrap()),
                other => bail!(format!("{name}-unreadable"), "{t:?}: {other:?}"),
            },
            Err(e) => {
                r.remove(name);
                match e {
                    mpsc::RecvTimeoutError::Timeout => bail!(format!("{name}-does-not-terminate"), "no answer after 60 s"),
                    _ => bail!(format!("{name}-dies"), "the process ended"),
                }
            }
        }
    })
}

fn head(x: &X) -> &str {
    match x {
        X::List(l) => match l.first() {
            Some(X::Atom(a)) => a,
            _ => "",
        },
        _ => "",
    }
}

/// Where the spans of a tagged key and its payload lie differs between the implementations.
fn tidy(x: &X) -> X {
    match x {
        X::List(l) => {
            let entry = matches!(l.first(), Some(X::Atom(a)) if a == "entry");
            let tagged = entry && l.get(1).is_some_and(|k| head(k) == "tag");
            X::List(l.iter().enumerate().map(|(i, v)| if tagged && (i == 1 || head(v) == "unit") { spanless(v) } else { tidy(v) }).collect())
        }
        v => v.clone(),
    }
}
fn spanless(x: &X) -> X {
    match x {
        X::List(l) => X::List(l.iter().filter(|v| !matches!(v, X::Span(..))).map(spanless).collect()),
        v => v.clone(),
    }
}

fn compare(text: &str, want: Option<&X>) -> R {
    let want = want.map(tidy);
    for p in PORTS {
        if std::env::var("VH_PORT").is_ok_and(|q| q != *p) {
            continue;
        }
        let got = ask(p, text)?;
        match (head(&got), want.clone()) {
            ("deep", _) => {}
            ("document", Some(w)) => ensure!(tidy(&got) == w, format!("{p}-differs"), "{p}: {got:?}\n  Rust: {w:?}"),
            ("document", None) => bail!(format!("{p}-accepts"), "{p} accepts what Rust rejects: {got:?}"),
            ("error", None) => {}
            ("error", Some(_)) => bail!(format!("{p}-rejects"), "{p} rejects what Rust accepts: {got:?}"),
            _ => bail!(format!("{p}-crashes"), "{got:?}"),
        }
    }
    Ok(())
}

pub const COMMON: Cfg = Cfg { chains: false, ..FULL };

fn p19_documents(g: &mut G) -> R {
    let d = gen_doc_text(g, COMMON);
    g.nontrivial = d.entries.len() >= 2;
    g.set_input(d.text.clone());
    let v = match styx_tree::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("rust-rejects", "{e}"),
    };
    compare(&d.text, Some(&sexp_document(&v)))
}

fn p19_texts(g: &mut G) -> R {
    let (text, _) = crate::text::arbitrary(g);
    g.nontrivial = text.len() >= 8;
    g.set_input(text.clone());
    for p in PORTS {
        if std::env::var("VH_PORT").is_ok_and(|q| q != *p) {
            continue;
        }
        let got = ask(p, &text)?;
        ensure!(["document", "error", "deep"].contains(&head(&got)), format!("{p}-crashes"), "{got:?}");
    }
    Ok(())
}

/// Kinds of malformed constructs of which the ports accept some.
const TOLERATED: &[&str] = &["dangling doc comment"];

fn p19_malformed(g: &mut G) -> R {
    let (class, text, bad) = match g.below(4) {
        0 => {
            let (t, _, bad) = super::lang::path_history(g, false);
            ("paths", t, bad.is_some())
        }
        1 => {
            let (t, bad) = super::lang::key_history(g);
            ("keys", t, bad.is_some())
        }
        _ => {
            let (class, t, _) = super::lang::planted(g, Cfg { chains: false, ..FULL });
            (class, t, true)
        }
    };
    g.label(class);
    if TOLERATED.contains(&class) {
        return Ok(());
    }
    let v = styx_tree::parse(&text).ok();
    ensure!(v.is_some() != bad, "rust-verdict", "the Rust parser disagrees with the model");
    compare(&text, v.as_ref().map(sexp_document).as_ref()).map_err(|f| Fail { kind: format!("{} ({class})", f.kind), ..f })
}
