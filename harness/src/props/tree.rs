//! Looking values up and editing trees, in Rust and through the C interface.
use super::ports::COMMON;
use super::value::to_value;
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdout, Command, Stdio};
use styx_tree::{Document, Payload, Value};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P20", name: "lookup", quick: 1_600_000, thorough: 20_000_000, run: p20_lookup, shrink: 2000, rule: "a document in random spelling and paths into it and past it; non-trivial: a path of at least two segments" },
    Suite { prop: "P20", name: "edits", quick: 1_200_000, thorough: 20_000_000, run: p20_edits, shrink: 2000, rule: "a history of lookups and edits of a tree; non-trivial: at least three edits" },
    Suite { prop: "P21", name: "documents", quick: 300_000, thorough: 8_000_000, run: p21_documents, shrink: 1500, rule: "a document and paths, read through the C interface; non-trivial: at least two entries" },
    Suite { prop: "P21", name: "texts", quick: 300_000, thorough: 8_000_000, run: p21_texts, shrink: 1500, rule: "any text, read through the C interface; non-trivial: at least 8 bytes" },
];

pub fn oracle(_name: &str) -> Option<super::Oracle> {
    None
}

// ---------------------------------------------------------------------------------------------
// Paths
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Seg {
    Key(String),
    Index(usize),
    /// Brackets around what is no index.
    Odd(&'static str),
}

/// Spell a path: segments are joined by dots, which may be left out before an index.
fn spell(g: &mut G, path: &[Seg]) -> String {
    let mut s = String::new();
    for (i, p) in path.iter().enumerate() {
        match p {
            Seg::Key(k) => {
                if i > 0 {
                    s.push('.');
                }
                s.push_str(k);
            }
            Seg::Odd(n) => {
                if i > 0 && g.chance(1, 4) {
                    s.push('.');
                }
                s.push_str(&format!("[{n}]"));
            }
            Seg::Index(n) => {
                if i > 0 && g.chance(1, 4) {
                    s.push('.');
                }
                s.push_str(&format!("[{n}]"));
            }
        }
    }
    s
}

/// Keys that a path can name.
fn addressable(k: &str) -> bool {
    !k.is_empty() && !k.contains(['.', '[', ']'])
}

/// Every path into a tree with the values it names, in order; and whether a key could be mistaken for something else.
fn paths(v: &S, at: &mut Vec<Seg>, out: &mut Vec<(Vec<Seg>, S)>, odd: &mut bool) {
    let body = match v {
        S::Tag(_, Some(b)) => b,
        v => v,
    };
    match body {
        S::Seq(x) => {
            for (i, y) in x.iter().enumerate() {
                at.push(Seg::Index(i));
                out.push((at.clone(), y.clone()));
                paths(y, at, out, odd);
                at.pop();
            }
        }
        S::Obj(x) => {
            for (k, y, _) in x {
                if k.tag.is_some() {
                    continue;
                }
                let Some(k) = &k.text else { continue };
                if !addressable(k) {
                    *odd = true;
                    continue;
                }
                at.push(Seg::Key(k.clone()));
                out.push((at.clone(), y.clone()));
                paths(y, at, out, odd);
                at.pop();
            }
        }
        _ => {}
    }
}

struct Paths {
    all: Vec<(Vec<Seg>, S)>,
    /// Number of values each path names: several if sibling dotted paths share a prefix.
    count: BTreeMap<String, usize>,
    odd: bool,
}
fn all_paths(root: &S) -> Paths {
    let (mut all, mut odd) = (vec![], false);
    paths(root, &mut vec![], &mut all, &mut odd);
    let mut count = BTreeMap::new();
    for (p, _) in &all {
        *count.entry(plain(p)).or_insert(0) += 1;
    }
    Paths { all, count, odd }
}
fn plain(p: &[Seg]) -> String {
    format!("{p:?}")
}

/// A path near an existing one that may lead nowhere.
fn stray(g: &mut G, p: &Paths) -> Vec<Seg> {
    let mut path = if p.all.is_empty() { vec![] } else { g.pick(&p.all).0.clone() };
    let seg = match g.below(5) {
        4 => Seg::Odd(*g.pick(&["-1", "-0", "-2", "", " 0", "0 ", "x", "0x0", "1e0", "0.0", "18446744073709551616", "²", "*"])),
        0 => Seg::Index(g.size(0, 4)),
        1 => Seg::Key(format!("no{}", g.below(3))),
        2 => Seg::Key(g.pick(&["a", "b", "key", "x", "0", "A", " a", "a "]).to_string()),
        _ => Seg::Index(*g.pick(&[9, 1 << 20, usize::MAX])),
    };
    if g.coin() && !path.is_empty() {
        let i = g.below(path.len() as u64) as usize;
        path[i] = seg;
    } else {
        path.push(seg);
    }
    path
}

// ---------------------------------------------------------------------------------------------
// P20
// ---------------------------------------------------------------------------------------------

fn p20_lookup(g: &mut G) -> R {
    let d = gen_doc_text(g, COMMON);
    let root = S::Obj(sem_entries(&d.tree));
    let found = all_paths(&root);
    g.nontrivial = found.all.iter().any(|p| p.0.len() >= 2);
    g.set_input(d.text.clone());
    let mut doc = match styx_tree::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("rejected", "{e}"),
    };
    let document = match Document::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("rejected", "{e}"),
    };
    ensure!(doc.get("").map(from_tree) == Some(root.clone()), "root", "the empty path is not the root");
    for (path, want) in &found.all {
        if found.count[&plain(path)] > 1 {
            g.label("shared prefix");
            continue;
        }
        let s = spell(g, path);
        let want = Some(want.clone());
        let got = doc.get(&s).map(from_tree);
        ensure!(got == want, "lookup", "Value::get({s:?}) = {got:?}, expected {want:?}");
        let got = doc.get_mut(&s).map(|v| from_tree(v));
        ensure!(got == want, "lookup-mut", "Value::get_mut({s:?}) = {got:?}, expected {want:?}");
        let got = document.get(&s).map(from_tree);
        ensure!(got == want, "document-lookup", "Document::get({s:?}) = {got:?}, expected {want:?}");
        // In two steps.
        let cut = g.below(path.len() as u64 + 1) as usize;
        if path[..cut].is_empty() || found.count[&plain(&path[..cut])] == 1 {
            let (a, b) = (spell(g, &path[..cut]), spell(g, &path[cut..]));
            let got = doc.get(&a).and_then(|v| v.get(&b)).map(from_tree);
            ensure!(got == want, "lookup-steps", "get({a:?}).get({b:?}) = {got:?}, expected {want:?}");
        }
    }
    for _ in 0..3 {
        let path = stray(g, &found);
        if found.odd || found.count.contains_key(&plain(&path)) {
            continue;
        }
        let s = spell(g, &path);
        g.label("stray");
        let got = (doc.get(&s).map(from_tree), doc.get_mut(&s).map(|v| from_tree(v)), document.get(&s).map(from_tree));
        ensure!(got == (None, None, None), "found-nothing", "get({s:?}) = {got:?}, but there is no such value");
    }
    // Sibling paths joined.
    let joined = from_tree(&doc.with_joined_paths());
    let want = S::Obj(sem_entries(&join_paths(d.tree)));
    ensure!(joined == want, "joined-paths", "joined {joined:?}\n  expected {want:?}");
    Ok(())
}

fn value_of(v: &V) -> S {
    from_tree(&to_value(v))
}
fn body(v: &mut S) -> Option<&mut S> {
    match v {
        S::Tag(_, p) => p.as_deref_mut(),
        v => Some(v),
    }
}
fn reach<'a>(v: &'a mut S, path: &[Seg]) -> Option<&'a mut S> {
    let Some((first, rest)) = path.split_first() else { return Some(v) };
    match (body(v)?, first) {
        (S::Seq(x), Seg::Index(i)) => reach(x.get_mut(*i)?, rest),
        (S::Obj(x), Seg::Key(k)) => reach(&mut x.iter_mut().find(|e| e.0.tag.is_none() && e.0.text.as_deref() == Some(k))?.1, rest),
        _ => None,
    }
}

fn p20_edits(g: &mut G) -> R {
    let cfg = Cfg { chains: false, siblings: false, docs: true, ..FULL };
    let (mut real, mut model) = if g.coin() {
        let d = gen_doc_text(g, cfg);
        g.set_input(d.text.clone());
        match styx_tree::parse(&d.text) {
            Ok(v) => (v, S::Obj(sem_entries(&d.tree))),
            Err(e) => bail!("rejected", "{e}"),
        }
    } else {
        let v = V::Obj(gen_entries(g, &cfg, 2));
        (to_value(&v), value_of(&v))
    };
    let n = g.size(1, 12);
    let mut log = vec![];
    let mut edits = 0;
    for _ in 0..n {
        let p = all_paths(&model);
        let path = if p.all.is_empty() || g.chance(1, 4) { vec![] } else { g.pick(&p.all).0.clone() };
        let s = spell(g, &path);
        let new = gen_val(g, &Cfg { chains: false, ..cfg }, 1);
        let target = match real.get_mut(&s) {
            Some(t) => t,
            None => bail!("lost", "after {log:?}: {s:?} is not found"),
        };
        let key = match g.below(3) {
            0 => g.pick(&["a", "b", "", "a.b", "[0]", "é"]).to_string(),
            _ => match body(reach(&mut model, &path).unwrap()) {
                Some(S::Obj(x)) if !x.is_empty() => g.pick(x).0.text.clone().unwrap_or("u".into()),
                _ => word(g),
            },
        };
        let place = reach(&mut model, &path).unwrap();
        edits += 1;
        match g.below(9) {
            0 if !path.is_empty() => {
                log.push(format!("{s}: replaced by {new:?}"));
                *target = to_value(&new);
                *place = value_of(&new);
            }
            1 if !path.is_empty() => {
                let t = tag_name(g);
                log.push(format!("{s}: tagged {t}"));
                let old = target.clone();
                *target = old.with_tag(t.as_str());
                let old = std::mem::replace(place, S::Unit);
                *place = match old {
                    S::Tag(_, p) => S::Tag(t, p),
                    S::Unit => S::Tag(t, None),
                    o => S::Tag(t, Some(Box::new(o))),
                };
            }
            2..=4 => match (target.as_object_mut(), body(place)) {
                (Some(o), Some(S::Obj(x))) => {
                    log.push(format!("{s}: insert {key:?} {new:?}"));
                    o.insert(key.as_str(), to_value(&new));
                    match x.iter_mut().find(|e| e.0.tag.is_none() && e.0.text.as_ref() == Some(&key)) {
                        Some(e) => e.1 = value_of(&new),
                        None => x.push((SKey { tag: None, text: Some(key.clone()) }, value_of(&new), None)),
                    }
                    let got = o.get(&key).map(from_tree);
                    ensure!(got == Some(value_of(&new)) && o.contains_key(&key), "insert", "{log:?}: then get gives {got:?}");
                }
                (Some(_), _) => bail!("kind", "{log:?}: {s:?} is not an object"),
                (None, b) => {
                    ensure!(!matches!(b, Some(S::Obj(_))), "kind", "{log:?}: {s:?} should be an object");
                    edits -= 1;
                }
            },
            5 => match (target.as_object_mut(), body(place)) {
                (Some(o), Some(S::Obj(x))) => {
                    log.push(format!("{s}: insert_unit {new:?}"));
                    let unit = SKey { tag: None, text: None };
                    let had = x.iter().find(|e| e.0 == unit).map(|e| e.1.clone());
                    let got = (o.get_unit().map(from_tree), o.get_unit_mut().map(|v| from_tree(v)), o.contains_unit_key());
                    ensure!(got == (had.clone(), had.clone(), had.is_some()), "unit-key", "{log:?}: {got:?}, expected {had:?}");
                    o.insert_unit(to_value(&new));
                    match x.iter_mut().find(|e| e.0 == unit) {
                        Some(e) => e.1 = value_of(&new),
                        None => x.push((unit, value_of(&new), None)),
                    }
                }
                (a, b) => {
                    ensure!(a.is_some() == matches!(b, Some(S::Obj(_))), "kind", "{log:?}: {s:?}");
                    edits -= 1;
                }
            },
            _ => match (target.as_sequence_mut(), body(place)) {
                (Some(o), Some(S::Seq(x))) => {
                    let i = g.size(0, x.len() + 1);
                    let got = (o.get(i).map(from_tree), o.get_mut(i).map(|v| from_tree(v)));
                    let want = x.get(i).cloned();
                    ensure!(got == (want.clone(), want.clone()), "item", "{log:?}: item {i} is {got:?}, expected {want:?}");
                    if i < x.len() && g.coin() {
                        log.push(format!("{s}: [{i}] = {new:?}"));
                        *o.get_mut(i).unwrap() = to_value(&new);
                        x[i] = value_of(&new);
                    } else {
                        log.push(format!("{s}: push {new:?}"));
                        o.push(to_value(&new));
                        x.push(value_of(&new));
                    }
                }
                (a, b) => {
                    ensure!(a.is_some() == matches!(b, Some(S::Seq(_))), "kind", "{log:?}: {s:?}");
                    edits -= 1;
                }
            },
        }
        let got = from_tree(&real);
        ensure!(got == model, "edits", "after {log:?}:\n  {got:?}\n  expected {model:?}");
        views(&real, &model).map_err(|f| Fail { msg: format!("after {log:?}: {}", f.msg), ..f })?;
    }
    g.nontrivial = edits >= 3;
    Ok(())
}

/// Every way of looking at a value agrees with the model.
fn views(v: &Value, m: &S) -> R {
    let (tag, b) = match m {
        S::Tag(t, p) => (Some(t.as_str()), p.as_deref()),
        S::Unit => (None, None),
        m => (None, Some(m)),
    };
    ensure!(v.tag_name() == tag, "tag_name", "{:?} for {m:?}", v.tag_name());
    ensure!(v.is_unit() == (*m == S::Unit), "is_unit", "{m:?}");
    ensure!(v.is_schema_tag() == (tag == Some("schema")), "is_schema_tag", "{m:?}");
    let text = match b {
        Some(S::Scalar(t)) => Some(t.as_str()),
        _ => None,
    };
    ensure!(v.scalar_text() == text, "scalar_text", "{:?} for {m:?}", v.scalar_text());
    ensure!(v.as_str() == if tag.is_none() { text } else { None }, "as_str", "{:?} for {m:?}", v.as_str());
    ensure!(v.as_object().is_some() == matches!(b, Some(S::Obj(_))), "as_object", "{m:?}");
    ensure!(v.as_sequence().is_some() == matches!(b, Some(S::Seq(_))), "as_sequence", "{m:?}");
    if let (Some(o), Some(S::Obj(x))) = (v.as_object(), b) {
        ensure!(o.len() == x.len() && o.is_empty() == x.is_empty() && o.iter().count() == x.len(), "object-length", "{m:?}");
        for ((k, v), (mk, mv, _)) in o.iter().zip(x) {
            ensure!(k.scalar_text() == mk.text.as_deref() && k.tag_name() == mk.tag.as_deref(), "object-order", "{k:?} for {mk:?}");
            views(v, mv)?;
        }
        for k in ["a", "b", "key", "", "zz"] {
            let has = x.iter().any(|e| e.0.tag.is_none() && e.0.text.as_deref() == Some(k));
            ensure!(o.contains_key(k) == has && o.get(k).is_some() == has, "contains_key", "{k:?} in {m:?}");
        }
        ensure!(o.contains_unit_key() == x.iter().any(|e| e.0.tag.is_none() && e.0.text.is_none()), "contains_unit_key", "{m:?}");
    }
    if let (Some(o), Some(S::Seq(x))) = (v.as_sequence(), b) {
        ensure!(o.len() == x.len() && o.is_empty() == x.is_empty() && o.iter().count() == x.len(), "sequence-length", "{m:?}");
        ensure!(o.get(x.len()).is_none(), "sequence-end", "{m:?}");
        for (v, m) in o.iter().zip(x) {
            views(v, m)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P21
// ---------------------------------------------------------------------------------------------

struct C {
    child: Child,
    out: BufReader<ChildStdout>,
}
impl Drop for C {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
thread_local! {
    static DRIVER: RefCell<Option<C>> = const { RefCell::new(None) };
}

/// What a C program sees of a text and of the values at paths.
fn ask(fields: &[&str]) -> Result<Vec<String>, Fail> {
    DRIVER.with(|d| {
        let mut d = d.borrow_mut();
        let c = d.get_or_insert_with(|| {
            let mut child = Command::new(super::verif_dir().join("target/ffi/driver"))
                .env("MALLOC_PERTURB_", "165")
                .env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| panic!("cannot start the C driver: {e}"));
            let out = BufReader::new(child.stdout.take().unwrap());
            C { child, out }
        });
        let body: Vec<u8> = fields.iter().flat_map(|f| f.bytes().chain([0])).collect();
        let mut msg = format!("{} {}\n", fields.len(), body.len()).into_bytes();
        msg.extend(body);
        let stdin = c.child.stdin.as_mut().unwrap();
        let sent = stdin.write_all(&msg).and_then(|_| stdin.flush());
        let mut l = String::new();
        let mut b = vec![];
        let ok = sent.is_ok() && c.out.read_line(&mut l).is_ok() && l.trim().parse::<usize>().is_ok_and(|n| {
            b.resize(n, 0);
            c.out.read_exact(&mut b).is_ok()
        });
        if !ok {
            let how = c.child.wait().map(|s| s.to_string()).unwrap_or_default();
            *d = None;
            bail!("crash", "the C program ended: {how}");
        }
        Ok(String::from_utf8_lossy(&b).lines().map(|s| s.to_string()).collect())
    })
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
/// A string as C sees it: none if it has a NUL.
fn c_string(s: Option<&str>) -> String {
    match s {
        Some(s) if !s.contains('\0') => format!("x{}", hex(s)),
        _ => "-".into(),
    }
}
fn dump(m: &S, out: &mut String) {
    let (tag, b) = match m {
        S::Tag(t, p) => (Some(t.as_str()), p.as_deref()),
        S::Unit => (None, None),
        m => (None, Some(m)),
    };
    out.push_str(&format!("({}{} ", if *m == S::Unit { "u" } else { "v" }, c_string(tag)));
    match b {
        Some(S::Scalar(t)) => out.push_str(&format!("s{}", c_string(Some(t)))),
        Some(S::Seq(x)) => {
            out.push('q');
            for v in x {
                dump(v, out);
            }
        }
        Some(S::Obj(x)) => {
            out.push('o');
            for (k, v, _) in x {
                let key = match (&k.tag, &k.text) {
                    (None, None) => S::Unit,
                    (None, Some(t)) => S::Scalar(t.clone()),
                    (Some(g), t) => S::Tag(g.clone(), t.as_ref().map(|t| Box::new(S::Scalar(t.clone())))),
                };
                dump(&key, out);
                dump(v, out);
            }
        }
        _ => out.push('n'),
    }
    out.push(')');
}
fn dumped(m: &S) -> String {
    let mut s = String::new();
    dump(m, &mut s);
    s
}

fn check_c(fields: &[&str], want: &[Option<String>]) -> R {
    let got = ask(fields)?;
    ensure!(got.len() == want.len() + 1, "driver", "{got:?}");
    ensure!(got.last().unwrap() == "ok", got.last().unwrap().split(':').next().unwrap().to_string(), "{}", got.last().unwrap());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if let Some(w) = w {
            ensure!(g == w, if i == 0 { "tree" } else { "path" }, "{:?}: C sees {g}\n  expected {w}", fields[i]);
        }
    }
    Ok(())
}

fn p21_documents(g: &mut G) -> R {
    let d = gen_doc_text(g, COMMON);
    if d.text.contains('\0') {
        return Ok(());
    }
    g.nontrivial = d.entries.len() >= 2;
    let root = S::Obj(sem_entries(&d.tree));
    let found = all_paths(&root);
    let mut fields = vec![d.text.clone()];
    let mut want = vec![Some(dumped(&root))];
    for _ in 0..4 {
        if g.coin() && !found.all.is_empty() {
            let (p, v) = g.pick(&found.all).clone();
            if found.count[&plain(&p)] == 1 {
                fields.push(spell(g, &p));
                want.push(Some(dumped(&v)));
            }
        } else {
            let p = stray(g, &found);
            if !found.odd && !found.count.contains_key(&plain(&p)) {
                fields.push(spell(g, &p));
                want.push(Some("none".into()));
            }
        }
    }
    g.set_input(fields.join("\n=====\n"));
    if fields[1..].iter().any(|f| f.contains('\0')) {
        return Ok(());
    }
    check_c(&fields.iter().map(|f| f.as_str()).collect::<Vec<_>>(), &want)
}

fn p21_texts(g: &mut G) -> R {
    let (text, _) = crate::text::arbitrary(g);
    let text = text.replace('\0', "");
    g.nontrivial = text.len() >= 8;
    g.set_input(text.clone());
    let path = g.pick(&["a", "key", "a.b", "[0]", "a[0]", "", ".", "[", "]", "[]", "a[", "a]", "[18446744073709551616]", "..", "a..b", "[0", "[-1]"]).to_string();
    let tree = styx_tree::parse(&text).ok();
    let want = match &tree {
        Some(v) => vec![Some(dumped(&from_tree(v))), None],
        None => vec![Some("error".into()), Some("none".into())],
    };
    if tree.as_ref().is_some_and(|v| !matches!(v.payload, Some(Payload::Object(_)))) {
        bail!("root", "the root is not an object");
    }
    check_c(&[&text, &path], &want)
}
