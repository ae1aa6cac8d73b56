//! The `styx` command, run as a process in a scratch directory.
use super::schema;
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use serde_json::Value as J;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use styx_format::{FormatOptions, format_source};
use styx_tree::{Payload, Value};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P17", name: "files", quick: 16_000, thorough: 500_000, run: p17_files, shrink: 600, rule: "one run of the command on a generated file or standard input with generated options; non-trivial: the run is expected to write something" },
    Suite { prop: "P17", name: "validate", quick: 10_000, thorough: 300_000, run: p17_validate, shrink: 600, rule: "one run with --validate on a generated schema and document; non-trivial: a schema is found and read" },
    Suite { prop: "P17", name: "inspect", quick: 8_000, thorough: 250_000, run: p17_inspect, shrink: 600, rule: "one run of tree, events, tokens, lexemes or cst; non-trivial: the input has at least 8 bytes" },
];

pub fn oracle(_name: &str) -> Option<super::Oracle> {
    None
}

pub fn binary(name: &str) -> String {
    super::verif_dir().join("target/debug").join(name).to_string_lossy().to_string()
}

pub struct Ran {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}

/// Run a command; its output goes through files beside the scratch directory.
pub fn run(dir: &str, program: &str, args: &[String], stdin: &[u8], env: &[(&str, &str)]) -> Result<Ran, Fail> {
    let at = |n: &str| format!("{dir}.{n}");
    std::fs::write(at("in"), stdin).unwrap();
    let open = |n: &str| std::fs::File::create(at(n)).unwrap();
    let mut child = Command::new(program)
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("HOME", dir)
        .env("PATH", "/usr/bin:/bin")
        .env("TMPDIR", format!("{dir}.tmp"))
        .envs(env.iter().copied())
        .stdin(Stdio::from(std::fs::File::open(at("in")).unwrap()))
        .stdout(Stdio::from(open("out")))
        .stderr(Stdio::from(open("err")))
        .spawn()
        .unwrap_or_else(|e| panic!("cannot run {program}: {e}"));
    let start = Instant::now();
    let mut pause = 200;
    let code = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s.code();
        }
        if start.elapsed() > Duration::from_secs(120) {
            child.kill().ok();
            child.wait().ok();
            bail!("does-not-terminate", "still running after 120 s");
        }
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause * 5 / 4).min(20_000);
    };
    Ok(Ran { code, out: std::fs::read(at("out")).unwrap(), err: String::from_utf8_lossy(&std::fs::read(at("err")).unwrap()).to_string() })
}

/// Everything below a directory, by path relative to it; links by what they point to.
pub type Files = BTreeMap<String, Vec<u8>>;
pub fn snapshot(dir: &str) -> Files {
    fn go(base: &Path, at: &Path, out: &mut Files) {
        for e in std::fs::read_dir(at).unwrap().flatten() {
            let p = e.path();
            let name = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            let t = e.file_type().unwrap();
            if t.is_symlink() {
                out.insert(name, format!("-> {}", std::fs::read_link(&p).unwrap().display()).into_bytes());
            } else if t.is_dir() {
                out.insert(format!("{name}/"), vec![]);
                go(base, &p, out);
            } else {
                out.insert(name, std::fs::read(&p).unwrap());
            }
        }
    }
    let mut out = Files::new();
    go(Path::new(dir), Path::new(dir), &mut out);
    out
}
pub fn fresh(dir: &str) {
    std::fs::remove_dir_all(dir).ok();
    std::fs::create_dir_all(dir).unwrap();
}

fn show(files: &Files) -> String {
    files.iter().map(|(k, v)| format!("  {k:?}: {:?}", String::from_utf8_lossy(v))).collect::<Vec<_>>().join("\n")
}

// --- what a document is in JSON --------------------------------------------------------------

/// None: the JSON form of the document is not specified (two keys with one spelling, tagged text as a key).
pub fn json_of(s: &S) -> Option<J> {
    Some(match s {
        S::Scalar(t) => J::String(t.clone()),
        S::Unit => J::Null,
        S::Seq(v) => J::Array(v.iter().map(json_of).collect::<Option<_>>()?),
        S::Tag(n, p) => {
            let mut m = serde_json::Map::new();
            m.insert("$tag".into(), J::String(n.clone()));
            if let Some(p) = p {
                m.insert("$payload".into(), json_of(p)?);
            }
            J::Object(m)
        }
        S::Obj(es) => {
            let mut m = serde_json::Map::new();
            for (k, v, _) in es {
                let key = match (&k.tag, &k.text) {
                    (None, None) => "@".to_string(),
                    (None, Some(t)) => t.clone(),
                    (Some(n), None) => format!("@{n}"),
                    _ => return None,
                };
                if m.insert(key, json_of(v)?).is_some() {
                    return None;
                }
            }
            J::Object(m)
        }
    })
}
/// Sibling dotted paths joined.
fn join(s: S) -> S {
    let S::Obj(es) = s else { return s };
    let mut out: Vec<(SKey, S, Option<String>)> = vec![];
    for e in es {
        if let Some(l) = out.last_mut()
            && l.0 == e.0
            && l.0.tag.is_none()
            && l.0.text.is_some()
            && let (S::Obj(a), S::Obj(b)) = (&mut l.1, &e.1)
        {
            a.extend(b.iter().cloned());
            l.1 = join(l.1.clone());
        } else {
            out.push(e);
        }
    }
    S::Obj(out)
}

// --- file mode -------------------------------------------------------------------------------

pub const CLI: Cfg = Cfg { chains: false, ..FULL };

#[derive(Debug, Clone, PartialEq)]
enum To {
    Nothing,
    Styx(String),
    Json(String),
    InPlace,
}

/// What the input turned out to be.
struct Input {
    text: Option<String>,
    /// Meaning, if the text is a document.
    means: Option<S>,
}

struct Expected {
    code: i32,
    /// What goes to standard output; None for JSON that is not specified.
    out: Out,
    /// Files written: path relative to the directory, content.
    write: Option<(String, Out)>,
}
#[derive(Clone)]
enum Out {
    Text(String),
    Json(Option<J>),
}
impl Expected {
    fn fails(code: i32) -> Expected {
        Expected { code, out: Out::Text(String::new()), write: None }
    }
}

/// What a run that got as far as its output does.
fn output(input: &Input, path: &str, to: &To, compact: bool, target_ok: bool) -> Expected {
    let text = input.text.as_ref().unwrap();
    let body = match to {
        To::Json(_) => Out::Json(input.means.clone().and_then(|m| json_of(&join(m)))),
        _ => Out::Text(format_source(text, if compact { FormatOptions::default().inline() } else { FormatOptions::default() })),
    };
    match to {
        To::Nothing => Expected { code: 0, out: body, write: None },
        To::InPlace => Expected { code: 0, out: Out::Text(String::new()), write: Some((path.to_string(), body)) },
        To::Styx(t) | To::Json(t) if t == "-" => Expected { code: 0, out: body, write: None },
        _ if !target_ok => Expected::fails(3),
        To::Styx(t) | To::Json(t) => Expected { code: 0, out: Out::Text(String::new()), write: Some((t.clone(), body)) },
    }
}

fn same(what: &str, want: &Out, got: &[u8]) -> R {
    match want {
        Out::Text(t) => ensure!(t.as_bytes() == got, format!("{what}-differs"), "{what} is {:?},\n  expected {t:?}", String::from_utf8_lossy(got)),
        Out::Json(j) => match serde_json::from_slice::<J>(got) {
            Err(e) => bail!(format!("{what}-not-json"), "{e} in {:?}", String::from_utf8_lossy(got)),
            Ok(v) => {
                if let Some(j) = j {
                    ensure!(v == *j, format!("{what}-json-differs"), "{what} is {v},\n  expected {j}");
                }
            }
        },
    }
    Ok(())
}

fn judge(dir: &str, before: &Files, want: &Expected, r: &Ran) -> R {
    ensure!(r.code.is_some(), "killed-by-signal", "stderr {:?}", r.err);
    ensure!(!r.err.contains("panicked at"), "panics", "{}", r.err);
    ensure!(r.code == Some(want.code), format!("exit-code-{}-not-{}", r.code.unwrap(), want.code), "stderr {:?}", r.err);
    if want.code == 0 {
        same("stdout", &want.out, &r.out)?;
    } else {
        ensure!(r.out.is_empty(), "output-of-failed-run", "{:?}", String::from_utf8_lossy(&r.out));
        ensure!(!r.err.trim().is_empty(), "silent-failure", "nothing on standard error");
    }
    let mut after = snapshot(dir);
    let mut before = before.clone();
    if let Some((p, body)) = &want.write {
        // Through a link, the file it points to is written.
        let mut p = p.trim_start_matches("./").to_string();
        if let Some(t) = before.get(&p).and_then(|b| String::from_utf8_lossy(b).strip_prefix("-> ").map(|s| s.to_string())) {
            p = t;
        }
        let Some(got) = after.remove(&p) else { bail!("not-written", "no file {p:?} after the run") };
        before.remove(&p);
        same("file", body, &got)?;
    }
    ensure!(before == after, "other-files-changed", "before:\n{}\nafter:\n{}", show(&before), show(&after));
    Ok(())
}

/// A target for output: (argument, whether it can be written).
fn target(g: &mut G, dir: &str) -> (String, bool) {
    match g.weighted(&[4, 2, 2, 1, 1, 1, 1]) {
        0 => ("out.styx".into(), true),
        1 => ("other.styx".into(), true),
        2 => ("sub/out".into(), true),
        3 => (format!("{dir}/out.json"), true),
        4 => ("sub".into(), false),
        5 => ("nowhere/out.styx".into(), false),
        _ => ("- x".into(), true),
    }
}

fn to_arg(args: &mut Vec<Vec<String>>, g: &mut G, to: &To) {
    match to {
        To::Nothing => {}
        To::Styx(t) => args.push(vec![if g.coin() { "-o" } else { "--output" }.into(), t.clone()]),
        To::Json(t) => args.push(vec!["--json-out".into(), t.clone()]),
        To::InPlace => args.push(vec!["--in-place".into()]),
    }
}
fn flat(g: &mut G, path: &str, mut args: Vec<Vec<String>>) -> Vec<String> {
    for i in (1..args.len()).rev() {
        let j = g.below(i as u64 + 1) as usize;
        args.swap(i, j);
    }
    std::iter::once(path.to_string()).chain(args.into_iter().flatten()).collect()
}

fn describe(g: &mut G, args: &[String], files: &Files, stdin: Option<&str>) {
    let s = format!("styx {}\n{}{}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "), show(files), stdin.map(|s| format!("\n  stdin: {s:?}")).unwrap_or_default());
    let s = s.replace(&g.dir, "$DIR");
    g.set_input(s);
}

fn p17_files(g: &mut G) -> R {
    let dir = format!("{}/c", g.dir);
    fresh(&dir);
    std::fs::create_dir(format!("{dir}/sub")).unwrap();
    std::fs::write(format!("{dir}/other.styx"), "keep  me\n").unwrap();
    let path = g.pick(&["in.styx", "./in.styx", "sub/in.styx", "-", "@abs", "./noext", "a b.styx", "link.styx"]).to_string();
    let (real, path) = match path.as_str() {
        "@abs" => ("in.styx".to_string(), format!("{dir}/in.styx")),
        "link.styx" => {
            std::os::unix::fs::symlink("in.styx", format!("{dir}/link.styx")).unwrap();
            ("in.styx".to_string(), path)
        }
        p => (p.trim_start_matches("./").to_string(), path.clone()),
    };
    let stdin = path == "-";
    // The input
    let mut bytes: Option<Vec<u8>> = None;
    let mut input = Input { text: None, means: None };
    match g.weighted(&[10, 5, 1, 1, 1]) {
        0 => {
            let d = gen_doc_text(g, CLI);
            input.means = Some(S::Obj(sem_entries(&d.tree)));
            bytes = Some(d.text.clone().into_bytes());
            input.text = Some(d.text);
        }
        1 => {
            let (t, _) = crate::text::arbitrary(g);
            input.means = styx_tree::parse(&t).ok().map(|v| from_tree(&v));
            bytes = Some(t.clone().into_bytes());
            input.text = Some(t);
        }
        2 => {
            let mut b = gen_doc_text(g, CLI).text.into_bytes();
            let at = g.below(b.len() as u64 + 1) as usize;
            b.insert(at, *g.pick(&[0xffu8, 0xc0, 0xf8, 0xfe]));
            bytes = Some(b);
        }
        3 if !stdin => {}
        _ if !stdin => std::fs::create_dir(format!("{dir}/{real}")).unwrap(),
        _ => {
            bytes = Some(vec![]);
            input.text = Some(String::new());
            input.means = Some(S::Obj(vec![]));
        }
    }
    if let Some(b) = &bytes
        && !stdin
    {
        std::fs::write(format!("{dir}/{real}"), b).unwrap();
    }
    // The options
    let (mut target_ok, mut usage) = (true, false);
    let to = match g.weighted(&[4, 4, 1, 3, 3, 4, 2]) {
        0 => To::Nothing,
        1 => {
            let (t, ok) = target(g, &dir);
            target_ok = ok;
            To::Styx(t)
        }
        2 => To::Styx("-".into()),
        3 => {
            let (t, ok) = target(g, &dir);
            target_ok = ok;
            To::Json(t)
        }
        4 => To::Json("-".into()),
        5 => To::InPlace,
        _ => {
            // The input itself, however it is spelled
            let exists = bytes.is_some() && !stdin;
            let t = match g.below(4) {
                0 => format!("./{real}"),
                1 => format!("{dir}/{real}"),
                2 => format!("sub/../{real}"),
                _ => real.clone(),
            };
            if !exists {
                To::Nothing
            } else {
                usage = true;
                To::Styx(t)
            }
        }
    };
    let compact = g.chance(1, 3);
    let mut args = vec![];
    to_arg(&mut args, g, &to);
    if compact {
        args.push(vec!["--compact".into()]);
    }
    match g.below(24) {
        23 => {
            args.push(vec!["--schema".into(), "other.styx".into()]);
            usage = true;
        }
        22 => {
            args.push(vec![g.pick(&["--nope", "-x", "--inplace"]).to_string()]);
            usage = true;
        }
        21 => {
            args.push(vec!["extra.styx".into()]);
            usage = true;
        }
        _ => {}
    }
    usage |= to == To::InPlace && stdin;
    let args = flat(g, &path, args);
    let before = snapshot(&dir);
    let at_stdin = if stdin { bytes.clone() } else { None };
    describe(g, &args, &before, at_stdin.as_ref().map(|b| String::from_utf8_lossy(b).to_string()).as_deref());
    let want = if usage {
        g.label("usage");
        Expected::fails(1)
    } else if input.text.is_none() {
        g.label("unreadable");
        Expected::fails(3)
    } else if input.means.is_none() {
        g.label("syntax error");
        Expected::fails(1)
    } else {
        g.label(match (&to, target_ok) {
            (_, false) => "unwritable",
            (To::Nothing, _) => "print",
            (To::Styx(_), _) => "styx",
            (To::Json(_), _) => "json",
            (To::InPlace, _) => "in place",
        });
        let w = match &to {
            To::Styx(t) if t.starts_with(&dir) => To::Styx(t[dir.len() + 1..].into()),
            To::Json(t) if t.starts_with(&dir) => To::Json(t[dir.len() + 1..].into()),
            o => o.clone(),
        };
        output(&input, &real, &w, compact, target_ok)
    };
    g.nontrivial = want.code == 0;
    let r = run(&dir, &binary("styx"), &args, &at_stdin.unwrap_or_default(), &[])?;
    judge(&dir, &before, &want, &r)?;
    if want.code == 0 {
        ensure!(r.err.is_empty(), "stderr-of-good-run", "{:?}", r.err);
    }
    Ok(())
}

// --- validation ------------------------------------------------------------------------------

/// Where a run finds its schema.
enum Found {
    Schema(String),
    Code(i32),
}
fn p17_validate(g: &mut G) -> R {
    let dir = format!("{}/c", g.dir);
    fresh(&dir);
    std::fs::create_dir(format!("{dir}/sub")).unwrap();
    std::fs::create_dir(format!("{dir}/bin")).unwrap();
    let depth = g.size(1, 2);
    let (types, root) = schema::gen_types(g, depth);
    let stext = schema::schema_text(g, &types, &root);
    let mut doc = schema::conform(g, &types, &root, 5);
    if g.coin() {
        schema::mutate(g, &mut doc);
    }
    let mut es = match doc {
        V::Obj(es) => es,
        _ => vec![],
    };
    // Another schema, which accepts anything or nothing.
    let other = if g.coin() { "meta {id other}\nschema {@ @object{@ @any}}\n" } else { "meta {id other}\nschema {@ @object{never-there @int{min 3, max 2}}}\n" };
    let path = g.pick(&["in.styx", "sub/in.styx", "-", "@abs"]).to_string();
    let base = if path == "sub/in.styx" { "sub" } else { "." };
    let put = |rel: &str, text: &str| {
        std::fs::write(format!("{dir}/{rel}"), text).unwrap();
    };
    let bad = *g.pick(&["schema {@ @object{", "meta {id x}", "schema {@ @nope(1)}", "meta {id x}\nschema {@ @object(1)}"]);
    // The declaration in the document
    let entry = |val: V| E { key: K::Tag("schema".into()), val, doc: vec![] };
    let scalar = |s: &str| V::Scalar(s.to_string());
    let pair = |k: &str, v: &str| E { key: K::Scalar(k.into()), val: V::Scalar(v.into()), doc: vec![] };
    let mut found = Found::Code(2);
    let decl = match g.weighted(&[8, 2, 1, 1, 1, 1, 6, 1]) {
        0 => {
            let name = g.pick(&["s.styx", "./s.styx", "../c/s.styx", "@abs", "schema file"]).to_string();
            let (rel, arg) = match name.as_str() {
                "@abs" => ("abs.styx".to_string(), format!("{dir}/abs.styx")),
                "../c/s.styx" if base == "sub" => ("s.styx".to_string(), "../s.styx".to_string()),
                "../c/s.styx" => ("s.styx".to_string(), name.clone()),
                n => (format!("{base}/{n}"), name.clone()),
            };
            match g.weighted(&[8, 1, 1]) {
                0 => {
                    put(&rel, &stext);
                    found = Found::Schema(stext.clone());
                }
                1 => found = Found::Code(3),
                _ => {
                    put(&rel, bad);
                    found = Found::Code(1);
                }
            }
            // A relative path is relative to the document, not to the working directory.
            if base == "sub" && rel.starts_with("sub/") && g.coin() {
                put(rel.trim_start_matches("sub/"), other);
            }
            g.label("declared path");
            Some(entry(scalar(&arg)))
        }
        1 => None,
        2 => {
            found = Found::Code(1);
            Some(entry(scalar(g.pick(&["http://example.invalid/s.styx", "https://example.invalid/s.styx"]))))
        }
        3 => Some(entry(V::Unit)),
        4 => Some(entry(V::Seq(vec![scalar("s.styx")]))),
        5 => Some(entry(V::Obj(vec![pair("id", "test")]))),
        6 => {
            // In a binary on the PATH
            g.label("declared binary");
            let mut blob: Vec<u8> = vec![0x7f; g.size(0, 30)];
            let kind = g.weighted(&[6, 2, 1, 1, 1]);
            let id = g.coin();
            let mut fields = vec![pair("cli", "tool")];
            if id {
                fields.insert(g.below(2) as usize, pair("id", "test"));
            }
            let own = styx_embed::build_embedded_blob(&stext);
            let second = styx_embed::build_embedded_blob(other);
            match kind {
                0 => {
                    // With an id, the one that has it; without, the first.
                    let order = g.below(3);
                    if order == 1 && id {
                        blob.extend(&second);
                        blob.extend(&own);
                    } else {
                        blob.extend(&own);
                        if order == 2 {
                            blob.extend([1, 2, 3]);
                            blob.extend(&second);
                        }
                    }
                    found = Found::Schema(stext.clone());
                }
                1 if id => blob.extend(&second),
                1 => {
                    blob.extend(styx_embed::build_embedded_blob(bad));
                    found = Found::Code(1);
                }
                2 => {}
                3 => fields = vec![pair("cli", "absent-tool")],
                _ => blob.extend(&own[..own.len() - 1]),
            }
            let tool = format!("{dir}/bin/tool");
            std::fs::write(&tool, &blob).unwrap();
            std::fs::set_permissions(&tool, std::fs::Permissions::from_mode(0o755)).unwrap();
            Some(entry(V::Obj(fields)))
        }
        _ => Some(entry(V::Tag("other".into(), None))),
    };
    if let Some(d) = decl {
        let at = if g.coin() { 0 } else { g.below(es.len() as u64 + 1) as usize };
        es.insert(at, d);
    }
    let d = render(g, CLI, es);
    let broken = g.chance(1, 12);
    let text = if broken { format!("{}\n)", d.text) } else { d.text.clone() };
    let mut args: Vec<Vec<String>> = vec![vec!["--validate".into()]];
    // A schema given on the command line takes precedence.
    if g.chance(1, 3) {
        g.label("--schema");
        let arg = match g.weighted(&[6, 1, 1, 1]) {
            0 => {
                put("cmd.styx", &stext);
                found = Found::Schema(stext.clone());
                "cmd.styx"
            }
            1 => {
                found = Found::Code(3);
                "absent.styx"
            }
            2 => {
                found = Found::Code(3);
                "sub"
            }
            _ => {
                put("cmd.styx", bad);
                found = Found::Code(1);
                "cmd.styx"
            }
        };
        args.push(vec!["--schema".into(), arg.into()]);
    }
    let stdin = path == "-";
    let real = if path == "@abs" { "in.styx".to_string() } else { path.clone() };
    let path = if path == "@abs" { format!("{dir}/in.styx") } else { path };
    if !stdin {
        put(&real, &text);
    }
    let to = match g.weighted(&[6, 2, 1, 1, if stdin { 0 } else { 2 }]) {
        0 => To::Nothing,
        1 => To::Styx("out.styx".into()),
        2 => To::Styx("-".into()),
        3 => To::Json("-".into()),
        _ => To::InPlace,
    };
    to_arg(&mut args, g, &to);
    let args = flat(g, &path, args);
    let before = snapshot(&dir);
    describe(g, &args, &before, stdin.then_some(text.as_str()));
    let input = Input { text: Some(text.clone()), means: Some(S::Obj(sem_entries(&d.tree))) };
    g.nontrivial = matches!(found, Found::Schema(_)) && !broken;
    let want = if broken {
        g.label("syntax error");
        Expected::fails(1)
    } else {
        match found {
            Found::Code(c) => Expected::fails(c),
            Found::Schema(s) => {
                let schema = match facet_styx::from_str::<facet_styx::SchemaFile>(&s) {
                    Ok(s) => s,
                    Err(e) => bail!("schema-rejected", "{e}"),
                };
                let mut value = match styx_tree::parse(&text) {
                    Ok(v) => v,
                    Err(e) => bail!("document-rejected", "{e}"),
                };
                if let Some(o) = value.as_object_mut() {
                    o.entries.retain(|e| e.key.tag_name() != Some("schema"));
                }
                let valid = facet_styx::validate(&value, &schema).is_valid();
                g.label(if valid { "valid" } else { "invalid" });
                match (valid, &to) {
                    (false, _) => Expected::fails(2),
                    (true, To::Nothing) => Expected { code: 0, out: Out::Text(String::new()), write: None },
                    (true, to) => output(&input, &real, to, false, true),
                }
            }
        }
    };
    let bin = format!("{dir}/bin");
    let r = run(&dir, &binary("styx"), &args, if stdin { text.as_bytes() } else { b"" }, &[("PATH", &bin)])?;
    judge(&dir, &before, &want, &r)
}

// --- inspection ------------------------------------------------------------------------------

/// The compliance form, read back.
#[derive(Debug, PartialEq, Clone)]
pub enum X {
    List(Vec<X>),
    Atom(String),
    Str(String),
    Span(i64, i64),
}
pub fn read_sexp(t: &str) -> Result<Vec<X>, String> {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut stack: Vec<Vec<X>> = vec![vec![]];
    while i < cs.len() {
        match cs[i] {
            ';' => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1;
                }
            }
            c if c.is_whitespace() => i += 1,
            '(' => {
                stack.push(vec![]);
                i += 1;
            }
            ')' => {
                let l = stack.pop().unwrap();
                stack.last_mut().ok_or("unbalanced )")?.push(X::List(l));
                i += 1;
            }
            '[' => {
                let e = cs[i..].iter().position(|c| *c == ']').ok_or("unclosed [")? + i;
                let body: String = cs[i + 1..e].iter().collect();
                let (a, b) = body.split_once(", ").ok_or("bad span")?;
                stack.last_mut().unwrap().push(X::Span(a.parse().map_err(|_| "bad span")?, b.parse().map_err(|_| "bad span")?));
                i = e + 1;
            }
            '"' => {
                i += 1;
                let mut s = String::new();
                loop {
                    match cs.get(i).ok_or("unclosed string")? {
                        '"' => break,
                        '\\' => {
                            i += 1;
                            match cs.get(i).ok_or("unclosed string")? {
                                'n' => s.push('\n'),
                                'r' => s.push('\r'),
                                't' => s.push('\t'),
                                '0' => s.push('\0'),
                                'u' if cs.get(i + 1) != Some(&'{') => {
                                    let h: String = cs[i + 1..].iter().take(4).collect();
                                    s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad \\u")?);
                                    i += 4;
                                }
                                'u' => {
                                    let e = cs[i..].iter().position(|c| *c == '}').ok_or("bad \\u")? + i;
                                    let h: String = cs[i + 2..e].iter().collect();
                                    s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad \\u")?);
                                    i = e;
                                }
                                c => s.push(*c),
                            }
                        }
                        c => s.push(*c),
                    }
                    i += 1;
                }
                i += 1;
                stack.last_mut().unwrap().push(X::Str(s));
            }
            _ => {
                let mut a = String::new();
                while i < cs.len() && !cs[i].is_whitespace() && !"()[]\"".contains(cs[i]) {
                    a.push(cs[i]);
                    i += 1;
                }
                stack.last_mut().unwrap().push(X::Atom(a));
            }
        }
    }
    if stack.len() != 1 {
        return Err("unbalanced (".into());
    }
    Ok(stack.pop().unwrap())
}
fn atom(s: &str) -> X {
    X::Atom(s.into())
}
fn span(s: Option<styx_parse::Span>) -> X {
    s.map_or(X::Span(-1, -1), |s| X::Span(s.start as i64, s.end as i64))
}
fn sexp_entries(o: &styx_tree::Object) -> Vec<X> {
    o.entries.iter().map(|e| X::List(vec![atom("entry"), sexp_value(&e.key), sexp_value(&e.value)])).collect()
}
fn sexp_payload(p: &Payload, at: Option<X>) -> X {
    use styx_parse::ScalarKind::*;
    X::List(match p {
        Payload::Scalar(s) => {
            let k = match s.kind {
                Bare => "bare",
                Quoted => "quoted",
                Raw => "raw",
                Heredoc => "heredoc",
            };
            vec![atom("scalar"), at.unwrap_or(span(s.span)), atom(k), X::Str(s.text.clone())]
        }
        Payload::Sequence(s) => [atom("sequence"), at.unwrap_or(span(s.span))].into_iter().chain(s.items.iter().map(sexp_value)).collect(),
        Payload::Object(o) => [atom("object"), at.unwrap_or(span(o.span))].into_iter().chain(sexp_entries(o)).collect(),
    })
}
fn sexp_value(v: &Value) -> X {
    match (&v.tag, &v.payload) {
        (None, None) => X::List(vec![atom("unit"), span(v.span)]),
        (None, Some(p)) => sexp_payload(p, Some(span(v.span))),
        (Some(t), p) => {
            let mut l = vec![atom("tag"), span(v.span), X::Str(t.name.clone())];
            l.extend(p.as_ref().map(|p| sexp_payload(p, None)));
            X::List(l)
        }
    }
}

pub fn sexp_document(v: &Value) -> X {
    let X::List(mut l) = sexp_value(v) else { unreachable!() };
    if v.as_object().is_some() {
        l[0] = atom("document");
    }
    X::List(l)
}

fn p17_inspect(g: &mut G) -> R {
    let dir = format!("{}/c", g.dir);
    fresh(&dir);
    let (text, _) = crate::text::arbitrary(g);
    g.nontrivial = text.len() >= 8;
    let stdin = g.chance(1, 4);
    let file = if stdin { "-" } else { *g.pick(&["in.styx", "plain"]) };
    if !stdin {
        std::fs::write(format!("{dir}/{file}"), &text).unwrap();
    }
    let what = *g.pick(&["sexp", "sexp", "sexp", "debug", "tokens", "lexemes", "events", "cst", "absent"]);
    g.label(what);
    let args: Vec<String> = match what {
        "sexp" | "debug" => {
            let mut a = vec![vec!["--format", what], vec![file]];
            if g.coin() {
                a.reverse();
            }
            std::iter::once("tree").chain(a.into_iter().flatten()).map(|s| s.to_string()).collect()
        }
        "absent" => vec![g.pick(&["tree", "tokens", "lexemes", "events", "cst"]).to_string(), "absent.styx".into()],
        w => vec![w.to_string(), file.to_string()],
    };
    let before = snapshot(&dir);
    describe(g, &args, &before, stdin.then_some(text.as_str()));
    let r = run(&dir, &binary("styx"), &args, if stdin { text.as_bytes() } else { b"" }, &[])?;
    ensure!(!r.err.contains("panicked at") && r.code.is_some(), "panics", "{:?} {}", r.code, r.err);
    ensure!(snapshot(&dir) == before, "files-changed", "");
    let parsed = styx_tree::parse(&text);
    let code = match (what, &parsed) {
        ("absent", _) => 3,
        ("debug", Err(_)) => 1,
        _ => 0,
    };
    ensure!(r.code == Some(code), format!("exit-code-{}-not-{code}", r.code.unwrap()), "{}", r.err);
    let Ok(out) = String::from_utf8(r.out) else { bail!("stdout-not-utf8", "") };
    if code != 0 {
        ensure!(out.is_empty() && !r.err.is_empty(), "failed-run-output", "stdout {out:?} stderr {:?}", r.err);
        return Ok(());
    }
    let lines = |it: Vec<String>| it.into_iter().map(|l| l + "\n").collect::<String>();
    let want = match what {
        "tokens" => lines(styx_tokenizer::Tokenizer::new(&text).map(|t| format!("{t:?}")).collect()),
        "lexemes" => lines(styx_parse::Lexer::new(&text).map(|t| format!("{t:?}")).collect()),
        "events" => {
            let mut p = styx_parse::Parser::new(&text);
            lines(std::iter::from_fn(move || p.next_event()).map(|e| format!("{e:?}")).collect())
        }
        "cst" => {
            let p = styx_cst::parse(&text);
            let start = format!("{:#?}\n", p.syntax());
            ensure!(out.starts_with(&start), "cst-differs", "{out:?} does not start with {start:?}");
            ensure!((out.len() == start.len()) == p.errors().is_empty(), "cst-errors-differ", "{:?} reported as {:?}", p.errors(), &out[start.len()..]);
            return Ok(());
        }
        "debug" => return Ok(()),
        _ => {
            let want = match &parsed {
                Ok(v) => sexp_document(v),
                Err(e) => {
                    let (a, b) = match e {
                        styx_tree::BuildError::Parse(_, s) => (s.start as i64, s.end as i64),
                        _ => (0, 0),
                    };
                    X::List(vec![atom("error"), X::Span(a, b), X::Str(e.to_string())])
                }
            };
            match read_sexp(&out) {
                Err(m) => bail!("sexp-malformed", "{m}: {out:?}"),
                Ok(got) => ensure!(got == vec![want.clone()], "sexp-differs", "printed {got:?}\nexpected {want:?}"),
            }
            return Ok(());
        }
    };
    ensure!(out == want, format!("{what}-differ"), "printed {out:?}\nexpected {want:?}");
    Ok(())
}
