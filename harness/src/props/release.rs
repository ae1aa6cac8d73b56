//! `styx diff`, `styx publish` and `styx package`: what a new version of a schema does to its
//! users decides its version number, and what is released is the schema itself.
use super::cli::{Files, Ran, binary, fresh, run, snapshot};
use super::schema::{Sc, Types, conform, gen_type, gen_types, mutate, read, to_v};
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use std::os::unix::fs::PermissionsExt;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P26", name: "diff", quick: 6_000, thorough: 200_000, run: p26_diff, shrink: 300, rule: "one run of styx diff on two versions of a schema, with documents valid under one or both; non-trivial: the versions differ in what they accept" },
    Suite { prop: "P26", name: "publish", quick: 3_000, thorough: 100_000, run: p26_publish, shrink: 300, rule: "one run of styx publish against a registry that has another version, none, or fails; non-trivial: something is published" },
    Suite { prop: "P26", name: "package", quick: 2_000, thorough: 50_000, run: p26_package, shrink: 300, rule: "one run of styx package; non-trivial: a crate is made" },
];

// --- archives ----------------------------------------------------------------------------------

fn crc32(b: &[u8]) -> u32 {
    !b.iter().fold(!0u32, |c, x| (0..8).fold(c ^ *x as u32, |c, _| (c >> 1) ^ (0xedb88320 & 0u32.wrapping_sub(c & 1))))
}
fn gzip(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let n = b.chunks(60_000).count();
    for (i, c) in b.chunks(60_000).enumerate() {
        o.push((i + 1 == n) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(c);
    }
    o.extend(crc32(b).to_le_bytes());
    o.extend((b.len() as u32).to_le_bytes());
    o
}
fn tar(files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (name, data) in files {
        let mut h = [0u8; 512];
        h[..name.len()].copy_from_slice(name.as_bytes());
        h[100..108].copy_from_slice(b"0000644\0");
        h[108..116].copy_from_slice(b"0000000\0");
        h[116..124].copy_from_slice(b"0000000\0");
        h[124..136].copy_from_slice(format!("{:011o}\0", data.len()).as_bytes());
        h[136..148].copy_from_slice(b"00000000000\0");
        h[148..156].copy_from_slice(b"        ");
        h[156] = b'0';
        h[257..265].copy_from_slice(b"ustar\x0000");
        let sum: u32 = h.iter().map(|b| *b as u32).sum();
        h[148..156].copy_from_slice(format!("{sum:06o}\0 ").as_bytes());
        o.extend(h);
        o.extend(data);
        o.resize(o.len().next_multiple_of(512), 0);
    }
    o.resize(o.len() + 1024, 0);
    o
}

// --- the registry ------------------------------------------------------------------------------

/// Stand-ins for curl and cargo beside the scratch directory; nothing goes over a network.
struct Registry {
    /// The scratch directory of the run, and that of the stand-ins.
    dir: String,
    fake: String,
}
const CURL: &str = "#!/bin/sh\nfor a; do u=$a; done\nprintf '%s\\n' \"$u\" >> \"$FAKE/curl.log\"\ncase \"$u\" in\n*/download) cat \"$FAKE/crate.tgz\" 2>/dev/null || exit 22 ;;\n*) cat \"$FAKE/api.json\" 2>/dev/null || exit 22 ;;\nesac\n";
const CARGO: &str = "#!/bin/sh\nprintf '%s\\n' \"$@\" > \"$FAKE/cargo.args\"\nprintf '%s' \"$CARGO_REGISTRIES_STAGING_TOKEN\" > \"$FAKE/cargo.token\"\ncp -r . \"$FAKE/crate\"\nexit $(cat \"$FAKE/cargo.code\")\n";

impl Registry {
    fn new(g: &G) -> Registry {
        let r = Registry { dir: format!("{}/c", g.dir), fake: format!("{}/f", g.dir) };
        fresh(&r.dir);
        fresh(&r.fake);
        fresh(&format!("{}.tmp", r.dir));
        std::fs::create_dir(format!("{}/bin", r.fake)).unwrap();
        for (n, t) in [("curl", CURL), ("cargo", CARGO)] {
            let p = format!("{}/bin/{n}", r.fake);
            std::fs::write(&p, t).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        r.put("cargo.code", b"0");
        r
    }
    fn put(&self, name: &str, data: &[u8]) {
        std::fs::write(format!("{}/{name}", self.fake), data).unwrap();
    }
    fn get(&self, name: &str) -> Option<String> {
        std::fs::read(format!("{}/{name}", self.fake)).ok().map(|b| String::from_utf8_lossy(&b).to_string())
    }
    fn serve(&self, name: &str, version: &str, schema: Option<&str>) {
        let mut files = vec![(format!("{name}-{version}/Cargo.toml"), b"[package]\n".to_vec()), (format!("{name}-{version}/src/lib.rs"), b"\n".to_vec())];
        if let Some(s) = schema {
            files.push((format!("{name}-{version}/schema.styx"), s.as_bytes().to_vec()));
        }
        self.put("crate.tgz", &gzip(&tar(&files)));
        self.latest(version);
    }
    fn latest(&self, version: &str) {
        self.put("api.json", serde_json::json!({"crate": {"id": "x", "newest_version": "9.9.9", "max_version": version}, "versions": []}).to_string().as_bytes());
    }
    fn run(&self, args: &[String], stdin: &[u8], token: Option<&str>) -> Result<Ran, Fail> {
        let path = format!("{}/bin:/usr/bin:/bin", self.fake);
        let mut env = vec![("PATH", path.as_str()), ("FAKE", self.fake.as_str())];
        if let Some(t) = token {
            env.push(("STYX_STAGING_TOKEN", t));
        }
        run(&self.dir, &binary("styx"), args, stdin, &env)
    }
    /// Only what was asked for has changed, and nothing is left behind.
    fn tidy(&self, before: &Files) -> R {
        let after = snapshot(&self.dir);
        ensure!(&after == before, "files-changed", "before {:?}, after {:?}", before.keys(), after.keys());
        let left = snapshot(&format!("{}.tmp", self.dir));
        ensure!(left.is_empty(), "left-behind", "{:?}", left.keys());
        Ok(())
    }
}

// --- versions of a schema ----------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Level {
    Zero,
    Patch,
    Minor,
    Major,
}
use Level::*;

/// A change: how much it changes, the words its report has, whether it adds a field.
struct Change {
    level: Level,
    words: Vec<String>,
    field: bool,
    /// Whether it is inside a variant of an enum.
    variant: bool,
}
fn change(level: Level, words: &[&str]) -> Option<Change> {
    Some(Change { level, words: words.iter().map(|s| s.to_string()).collect(), field: false, variant: false })
}
fn same(a: &Sc, b: &Sc) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
fn simple(g: &mut G) -> Sc {
    g.pick(&[Sc::Bool, Sc::Str(None, None), Sc::Int(None, None), Sc::Float(None, None)]).clone()
}
fn plain(t: &Sc) -> bool {
    !matches!(t, Sc::Opt(_) | Sc::Default(..) | Sc::Deprecated(..) | Sc::Flatten(_))
}

/// One change somewhere in a type, of a known weight.
fn edit(g: &mut G, t: &mut Sc) -> Option<Change> {
    let is_enum = matches!(t, Sc::Enum(_));
    let mut parts: Vec<&mut Sc> = match t {
        Sc::Obj(fs, x) => fs.iter_mut().map(|f| &mut f.1).chain(x.iter_mut().map(|x| &mut *x.1)).collect(),
        Sc::Enum(fs) => fs.iter_mut().map(|f| &mut f.1).collect(),
        Sc::Tuple(ts) => ts.iter_mut().collect(),
        Sc::Seq(t) | Sc::Opt(t) | Sc::Default(_, t) | Sc::Deprecated(_, t) => vec![t],
        Sc::Map(k, v) => k.iter_mut().map(|k| &mut **k).chain([&mut **v]).collect(),
        _ => vec![],
    };
    parts.retain(|t| !matches!(t, Sc::Flatten(_)));
    if !parts.is_empty() && g.chance(3, 5) {
        let i = g.below(parts.len() as u64) as usize;
        let mut c = edit(g, parts.swap_remove(i))?;
        c.variant |= is_enum;
        return Some(c);
    }
    // Another type in its place
    let whole = plain(t);
    if whole && g.chance(1, 4) {
        let old = t.clone();
        match g.below(3) {
            0 if !same(t, &Sc::Any) && !matches!(t, Sc::Union(_)) => {
                *t = Sc::Any;
                return change(Minor, &[]);
            }
            1 if !matches!(t, Sc::Union(_) | Sc::Any) => {
                let other = if same(t, &Sc::Bool) { Sc::Str(None, None) } else { Sc::Bool };
                *t = Sc::Union(if g.coin() { vec![old, other] } else { vec![other, old] });
                return change(Minor, &[]);
            }
            _ => {
                *t = simple(g);
                if std::mem::discriminant(t) == std::mem::discriminant(&old) {
                    *t = old;
                    return None;
                }
                return change(Major, &[]);
            }
        }
    }
    match t {
        Sc::Str(lo, hi) => match (g.below(4), &lo, &hi) {
            (0, None, _) => { *lo = Some(2); change(Major, &["minLen"]) }
            (0, Some(n), _) => { let n = *n; *lo = Some(n + 1); change(Major, &["minLen"]) }
            (1, Some(n), _) => { let n = *n; *lo = if n == 0 || g.coin() { None } else { Some(n - 1) }; change(Minor, &["minLen"]) }
            (2, _, None) => { *hi = Some(4); change(Major, &["maxLen"]) }
            (2, _, Some(n)) if *n > 0 => { let n = *n; *hi = Some(n - 1); change(Major, &["maxLen"]) }
            (3, _, Some(n)) => { let n = *n; *hi = if g.coin() { None } else { Some(n + 1) }; change(Minor, &["maxLen"]) }
            _ => None,
        },
        Sc::Int(lo, hi) => match (g.below(4), &lo, &hi) {
            (0, None, _) => { *lo = Some(-3); change(Major, &["min"]) }
            (0, Some(n), _) => { let n = *n; *lo = Some(n.checked_add(1)?); change(Major, &["min"]) }
            (1, Some(n), _) => { let n = *n; *lo = if g.coin() { None } else { Some(n.checked_sub(1)?) }; change(Minor, &["min"]) }
            (2, _, None) => { *hi = Some(7); change(Major, &["max"]) }
            (2, _, Some(n)) => { let n = *n; *hi = Some(n.checked_sub(1)?); change(Major, &["max"]) }
            (3, _, Some(n)) => { let n = *n; *hi = if g.coin() { None } else { Some(n.checked_add(1)?) }; change(Minor, &["max"]) }
            _ => None,
        },
        Sc::Float(lo, hi) => match (g.below(4), &lo, &hi) {
            (0, None, _) => { *lo = Some(-1.5); change(Major, &["min"]) }
            (1, Some(_), _) => { *lo = None; change(Minor, &["min"]) }
            (2, _, None) => { *hi = Some(7.25); change(Major, &["max"]) }
            (3, _, Some(_)) => { *hi = None; change(Minor, &["max"]) }
            _ => None,
        },
        Sc::Any => {
            *t = simple(g);
            change(Major, &[])
        }
        Sc::Obj(fs, extra) => {
            let i = if fs.is_empty() { None } else { Some(g.below(fs.len() as u64) as usize) };
            match (g.below(8), i) {
                (0, Some(i)) => {
                    let f = fs.remove(i);
                    change(Major, &["removed", &format!("`{}`", f.0)])
                }
                (1, Some(i)) => match &fs[i].1 {
                    Sc::Opt(x) | Sc::Default(_, x) if plain(x) => {
                        fs[i].1 = (**x).clone();
                        change(Major, &[&fs[i].0])
                    }
                    x if plain(x) => {
                        fs[i].1 = if g.coin() { Sc::Opt(Box::new(x.clone())) } else { Sc::Default(any_text(g), Box::new(x.clone())) };
                        change(Minor, &[&fs[i].0])
                    }
                    _ => None,
                },
                (2, Some(i)) => match &mut fs[i].1 {
                    Sc::Flatten(_) => None,
                    Sc::Deprecated(_, x) => {
                        let x = (**x).clone();
                        if matches!(x, Sc::Flatten(_) | Sc::Deprecated(..)) {
                            return None;
                        }
                        fs[i].1 = x;
                        change(Patch, &["deprecated", &fs[i].0])
                    }
                    x => {
                        *x = Sc::Deprecated(any_text(g), Box::new(x.clone()));
                        change(Patch, &["deprecated", &fs[i].0])
                    }
                },
                (3, Some(i)) => match &mut fs[i].1 {
                    Sc::Default(v, _) | Sc::Deprecated(v, _) => {
                        v.push('x');
                        change(Patch, &[&fs[i].0])
                    }
                    _ => None,
                },
                (4, _) if extra.is_none() => {
                    *extra = Some((g.coin(), Box::new(simple(g))));
                    Some(Change { field: true, ..change(Minor, &["added"])? })
                }
                (4, _) => {
                    *extra = None;
                    change(Major, &["removed"])
                }
                _ => {
                    let name = g.pick(&["fresh", "fresh field", "Fresh", "host2"]).to_string();
                    if fs.iter().any(|f| f.0 == name) {
                        return None;
                    }
                    let x = match g.below(4) {
                        0 => g.pick(&[Sc::Any, Sc::At, Sc::Unit, Sc::Obj(vec![], None), Sc::Seq(Box::new(Sc::Any)), Sc::Union(vec![Sc::Bool, Sc::Opt(Box::new(Sc::Unit))])]).clone(),
                        _ => simple(g),
                    };
                    let (x, level) = match g.below(5) {
                        0 => (Sc::Opt(Box::new(x)), Minor),
                        1 => (Sc::Default("1".into(), Box::new(x)), Minor),
                        2 => (Sc::Deprecated("old".into(), Box::new(Sc::Opt(Box::new(x)))), Minor),
                        3 => (Sc::Deprecated("old".into(), Box::new(x)), Major),
                        _ => (x, Major),
                    };
                    let at = g.below(fs.len() as u64 + 1) as usize;
                    fs.insert(at, (name.clone(), x));
                    Some(Change { field: true, ..change(level, &["added", &format!("`{name}`")])? })
                }
            }
        }
        Sc::Enum(vs) => {
            if vs.len() > 1 && g.coin() {
                let i = g.below(vs.len() as u64) as usize;
                let v = vs.remove(i);
                change(Major, &["removed", &format!("`{}`", v.0)])
            } else {
                let name = *g.pick(&["fresh", "Ok2", "okk"]);
                if vs.iter().any(|v| v.0 == name) {
                    return None;
                }
                let at = g.below(vs.len() as u64 + 1) as usize;
                vs.insert(at, (name.into(), if g.coin() { Sc::At } else { simple(g) }));
                change(Minor, &["added", &format!("`{name}`")])
            }
        }
        Sc::Union(ts) => {
            let x = simple(g);
            if ts.len() > 1 && g.coin() {
                let i = g.below(ts.len() as u64) as usize;
                let x = ts.remove(i);
                if ts.iter().any(|t| same(t, &x)) {
                    ts.insert(i, x);
                    return None;
                }
                change(Major, &[])
            } else if ts.iter().any(|t| same(t, &x)) {
                None
            } else {
                let at = g.below(ts.len() as u64 + 1) as usize;
                ts.insert(at, x);
                change(Minor, &[])
            }
        }
        _ => None,
    }
}

/// Anything else in the place of a part of a type.
fn replace(g: &mut G, t: &mut Sc, names: &[String]) {
    match t {
        Sc::Obj(fs, _) if !fs.is_empty() && g.chance(4, 5) => {
            let i = g.below(fs.len() as u64) as usize;
            replace(g, &mut fs[i].1, names)
        }
        Sc::Enum(fs) if !fs.is_empty() && g.chance(3, 4) => {
            let i = g.below(fs.len() as u64) as usize;
            replace(g, &mut fs[i].1, names)
        }
        Sc::Tuple(ts) | Sc::Union(ts) if !ts.is_empty() && g.chance(3, 4) => {
            let i = g.below(ts.len() as u64) as usize;
            replace(g, &mut ts[i], names)
        }
        Sc::Seq(t) | Sc::Opt(t) | Sc::Default(_, t) | Sc::Deprecated(_, t) | Sc::Map(_, t) if g.chance(3, 4) => replace(g, t, names),
        _ => *t = gen_type(g, 1, names),
    }
}

fn any_part(t: &Sc, f: fn(&Sc) -> bool) -> bool {
    f(t) || match t {
        Sc::Obj(fs, x) => fs.iter().any(|t| any_part(&t.1, f)) || x.iter().any(|x| any_part(&x.1, f)),
        Sc::Enum(fs) => fs.iter().any(|t| any_part(&t.1, f)),
        Sc::Tuple(ts) | Sc::Union(ts) => ts.iter().any(|t| any_part(t, f)),
        Sc::Seq(t) | Sc::Opt(t) | Sc::Default(_, t) | Sc::Deprecated(_, t) | Sc::OneOf(t, _) => any_part(t, f),
        Sc::Map(k, t) => k.iter().any(|k| any_part(k, f)) || any_part(t, f),
        _ => false,
    }
}
/// Whether a type's fields become those of another object.
fn flattens(t: &Sc) -> bool {
    any_part(t, |t| matches!(t, Sc::Flatten(_)))
}
/// Whether objects take undeclared fields.
fn elastic(t: &Sc) -> bool {
    any_part(t, |t| matches!(t, Sc::Obj(_, Some(_))))
}
/// Whether the names in a type fit on a line.
fn one_line(t: &Sc) -> bool {
    !format!("{t:?}").contains("\\n") && !format!("{t:?}").contains("\\r")
}

struct Versions {
    old: (Types, Sc),
    new: (Types, Sc),
    /// None: a change of any kind.
    changes: Option<Vec<Change>>,
    elastic: bool,
    flattens: bool,
    enums: bool,
    one_line: bool,
}
fn versions(g: &mut G) -> Versions {
    let depth = g.size(1, 3);
    let old = gen_types(g, depth);
    let mut new = old.clone();
    let names: Vec<String> = old.0.0.iter().map(|t| t.0.clone()).collect();
    let mut free = false;
    let mut changes = vec![];
    match g.weighted(&[2, 8, 3, 3]) {
        0 => {}
        1 | 2 if g.chance(1, 8) => {
            if g.coin() && !new.0.0.is_empty() {
                let i = g.below(new.0.0.len() as u64) as usize;
                let t = new.0.0.remove(i);
                changes.extend(change(Major, &["removed", &format!("`{}`", t.0)]));
            } else {
                new.0.0.push(("Brand-new".into(), simple(g)));
                changes.extend(change(Minor, &["added", "`Brand-new`"]));
            }
        }
        n @ (1 | 2) => {
            let mut places: Vec<usize> = (0..=names.len()).collect();
            for _ in 0..n {
                if places.is_empty() {
                    break;
                }
                let i = g.below(places.len() as u64) as usize;
                let p = places.remove(i);
                let (name, t) = if p == names.len() { ("(root)", &mut new.1) } else { (names[p].as_str(), &mut new.0.0[p].1) };
                for _ in 0..8 {
                    let kept = t.clone();
                    if let Some(mut c) = edit(g, t) {
                        c.words.push(name.to_string());
                        changes.push(c);
                        break;
                    }
                    *t = kept;
                }
            }
        }
        _ => {
            free = true;
            let p = g.below(names.len() as u64 + 1) as usize;
            let t = if p == names.len() { &mut new.1 } else { &mut new.0.0[p].1 };
            replace(g, t, &names);
        }
    }
    let all = |f: fn(&Sc) -> bool| [&old, &new].iter().map(|v| f(&v.1) || v.0.0.iter().any(|t| f(&t.1))).collect::<Vec<_>>();
    let elastic = all(elastic).contains(&true);
    let flattens = all(flattens).contains(&true);
    let enums = all(|t| any_part(t, |t| matches!(t, Sc::Enum(_)))).contains(&true);
    let one_line = !all(|t| !one_line(t)).contains(&true);
    Versions { old, new, changes: if free { None } else { Some(changes) }, elastic, flattens, enums, one_line }
}

fn schema_file(g: &mut G, v: &(Types, Sc), name: Option<&str>) -> String {
    let e = |k: &str, val: V| E { key: K::Scalar(k.into()), val, doc: vec![] };
    let mut es: Vec<E> = v.0.0.iter().map(|(n, t)| e(n, to_v(t))).collect();
    let at = g.below(es.len() as u64 + 1) as usize;
    es.insert(at, E { key: K::Unit, val: to_v(&v.1), doc: vec![] });
    let mut meta = vec![e("id", V::Scalar("test".into()))];
    if let Some(n) = name {
        let at = g.below(2) as usize;
        meta.insert(at, e("crate", V::Scalar(n.into())));
    }
    if g.coin() {
        meta.push(e("version", V::Scalar(g.pick(&["1", "0.9.0", "2026-01-11"]).to_string())));
    }
    let mut doc = vec![e("meta", V::Obj(meta)), e("schema", V::Obj(es))];
    if g.chance(1, 6) {
        doc.reverse();
    }
    let mut v = V::Obj(doc);
    super::schema::sprinkle_docs(g, &mut v);
    let V::Obj(doc) = v else { unreachable!() };
    render(g, FULL, doc).text
}

/// The lists of changes that the command prints.
#[derive(Debug, Default)]
struct Report {
    breaking: Vec<String>,
    additive: Vec<String>,
    patch: Vec<String>,
    bump: Option<String>,
    none: bool,
}
fn report(err: &str) -> Report {
    let mut r = Report::default();
    let mut section = 0;
    for l in err.lines() {
        if l.starts_with("Breaking changes") {
            section = 1;
        } else if l.starts_with("Additive changes") {
            section = 2;
        } else if l.starts_with("Patch changes") {
            section = 3;
        } else if let Some(b) = l.strip_prefix("Suggested bump: ") {
            r.bump = Some(b.to_string());
            section = 0;
        } else if l.starts_with("Version bump: ") {
            r.bump = Some(l.rsplit(' ').next().unwrap().to_string());
            section = 0;
        } else if l.starts_with("No changes detected") {
            r.none = true;
        } else if l.starts_with("  ") && section > 0 {
            [&mut r.breaking, &mut r.additive, &mut r.patch][section - 1].push(l.to_string());
        }
    }
    r
}
impl Report {
    fn level(&self) -> Level {
        match (self.breaking.is_empty(), self.additive.is_empty(), self.patch.is_empty()) {
            (false, _, _) => Major,
            (_, false, _) => Minor,
            (_, _, false) => Patch,
            _ => Zero,
        }
    }
}

/// The report against the changes made and against documents.
fn judge(g: &mut G, v: &Versions, (old, new): (&str, &str), r: &Report) -> R {
    let level = r.level();
    ensure!((level == Zero) == r.none, "contradiction", "{r:?}");
    ensure!(old != new || level == Zero, "difference-in-itself", "{r:?}");
    if let Some(changes) = &v.changes {
        let mut want: Vec<(Level, &Change)> = changes.iter().map(|c| (c.level, c)).collect();
        want.sort_by_key(|w| w.0);
        let top = want.last().map(|w| w.0).unwrap_or(if old == new { Zero } else { Patch });
        ensure!(level == top, "wrong-level", "the changes are {:?}, the report {r:?}", want.iter().map(|w| (w.0, &w.1.words)).collect::<Vec<_>>());
        if v.one_line {
            let lists = [(Major, &r.breaking), (Minor, &r.additive), (Patch, &r.patch)];
            for (l, list) in lists {
                let n = want.iter().filter(|w| w.0 == l).count().max((l == Patch && top == Patch) as usize);
                ensure!(list.len() == n, "wrong-count", "{l:?}: {n} changes were made, {list:?} reported; the changes are {:?}", want.iter().map(|w| (w.0, &w.1.words)).collect::<Vec<_>>());
                for (_, c) in want.iter().filter(|w| w.0 == l) {
                    ensure!(list.iter().any(|x| c.words.iter().all(|w| x.contains(w.as_str()))), "not-named", "{:?} is not in {list:?}", c.words);
                }
            }
        }
    }
    // Documents. Open is what a change of a type does to the objects that take its fields, what
    // a new field does where undeclared ones were allowed, and what a variant's payload has to
    // do with the enum's bare values.
    let any = |f: fn(&Change) -> bool| v.changes.as_ref().is_none_or(|c| c.iter().any(f));
    if v.flattens || v.elastic && any(|c| c.field) || v.enums && any(|c| c.variant) {
        return Ok(());
    }
    let (so, sn) = (read(old)?, read(new)?);
    for i in 0..6 {
        let of = if i % 2 == 0 { &v.old } else { &v.new };
        let mut d = conform(g, &of.0, &of.1, 5);
        if g.chance(1, 3) {
            mutate(g, &mut d);
        }
        let V::Obj(es) = d else { continue };
        let text = render(g, FULL, es).text;
        let Ok(value) = styx_tree::parse(&text) else { continue };
        let (a, b) = (facet_styx::validate(&value, &so).is_valid(), facet_styx::validate(&value, &sn).is_valid());
        if a && !b {
            g.label("document broken");
            g.nontrivial = true;
            ensure!(level == Major, "breaks-documents", "{text:?} is valid under the old schema only: {r:?}");
        }
        if b && !a {
            g.label("document allowed");
            g.nontrivial = true;
            ensure!(level >= Minor, "allows-documents", "{text:?} is valid under the new schema only: {r:?}");
        }
    }
    Ok(())
}

fn crate_name(g: &mut G) -> String {
    g.pick(&["app-schema", "a", "x_y", "a b", "it's", "a'; touch pwned; '", "$(touch pwned)", "`touch pwned`", "é"]).to_string()
}
const BROKEN: &[&str] = &["a {", "schema {@ @object{", "a 1\na 2", "\"x"];

fn p26_diff(g: &mut G) -> R {
    g.nontrivial = false;
    let v = versions(g);
    let old = schema_file(g, &v.old, None);
    let new = if matches!(&v.changes, Some(c) if c.is_empty()) && g.chance(1, 4) { old.clone() } else { schema_file(g, &v.new, None) };
    let name = crate_name(g);
    let version = g.pick(&["0.1.0", "1.2.3", "10.0.0-rc.1", "1'.2"]).to_string();
    let reg = Registry::new(g);
    let (dir, baseline) = (reg.dir.clone(), g.coin());
    let fault = if g.chance(1, 6) { g.below(8) } else { 99 };
    let mut code = 0;
    reg.serve(&name, &version, Some(&old));
    let mut local = Some(new.as_str());
    match fault {
        0 => {
            local = Some(*g.pick(BROKEN));
            code = 1;
        }
        1 => {
            local = None;
            code = 3;
        }
        2 => {
            std::fs::remove_file(format!("{}/crate.tgz", reg.fake)).unwrap();
            code = 1;
        }
        3 => {
            let b = std::fs::read(format!("{}/crate.tgz", reg.fake)).unwrap();
            reg.put("crate.tgz", &b[..b.len() / 3]);
            code = 1;
        }
        4 => {
            reg.serve(&name, &version, None);
            code = 3;
        }
        5 => {
            reg.serve(&name, &version, Some(*g.pick(BROKEN)));
            code = 1;
        }
        6 if !baseline => {
            std::fs::remove_file(format!("{}/api.json", reg.fake)).unwrap();
            code = 1;
        }
        7 if !baseline => {
            reg.put("api.json", g.pick(&["", "{}", "{\"crate\":{}}", "[1"]).as_bytes());
            code = 1;
        }
        _ => {}
    }
    if baseline {
        reg.latest("7.7.7");
    }
    if let Some(t) = local {
        std::fs::write(format!("{dir}/new.styx"), t).unwrap();
    }
    let mut args: Vec<String> = ["diff", "new.styx", "--crate", &name].map(String::from).to_vec();
    if baseline {
        args.extend(["--baseline".to_string(), version.clone()]);
    }
    g.set_input(format!("styx {args:?} (the other version is {version}, fault {fault})\n{old}\n=====\n{}", local.unwrap_or("(no file)")));
    let before = snapshot(&dir);
    let r = reg.run(&args, b"", None)?;
    ensure!(r.code == Some(code), format!("exit-code-{:?}-not-{code}", r.code), "{}", r.err);
    reg.tidy(&before)?;
    let asked = reg.get("curl.log").unwrap_or_default();
    if local.is_some() && code == 0 {
        let last = asked.lines().last().unwrap_or("");
        ensure!(last.ends_with(&format!("/{name}/{version}/download")) && asked.lines().count() == if baseline { 1 } else { 2 }, "wrong-baseline", "asked for {asked:?}");
    }
    if code != 0 {
        g.label("fault");
        ensure!(r.err.contains("error: "), "no-message", "{:?}", r.err);
        return Ok(());
    }
    let rep = report(&r.err);
    let bump = match rep.level() {
        Major => Some("major"),
        Minor => Some("minor"),
        Patch => Some("patch"),
        Zero => None,
    };
    ensure!(rep.bump.as_deref() == bump, "wrong-bump", "{rep:?}");
    g.label(["no change", "patch", "minor", "major"][rep.level() as usize]);
    judge(g, &v, (&old, &new), &rep)
}

fn p26_publish(g: &mut G) -> R {
    g.nontrivial = false;
    let v = versions(g);
    let name = g.pick(&["app-schema", "a", "x_y", "my-app-2"]).to_string();
    let meta = if g.chance(1, 12) { None } else { Some(name.as_str()) };
    let old = schema_file(g, &v.old, Some(&name));
    let new = if matches!(&v.changes, Some(c) if c.is_empty()) && g.coin() && meta.is_some() { old.clone() } else { schema_file(g, &v.new, meta) };
    let n = |g: &mut G| *g.pick(&[0u64, 0, 1, 2, 9, 10, 99, 4_000_000_000]);
    let (a, b, c) = (n(g), n(g), n(g));
    let odd = g.chance(1, 12).then(|| g.pick(&["1.2", "1.2.3.4", "1.x.3", "1.2.3-beta.1", ""]).to_string());
    let version = odd.clone().unwrap_or(format!("{a}.{b}.{c}"));
    let reg = Registry::new(g);
    let dir = reg.dir.clone();
    reg.serve(&name, &version, Some(&old));
    let first = g.chance(1, 6);
    if first {
        std::fs::remove_file(format!("{}/api.json", reg.fake)).unwrap();
    }
    let token = if g.chance(1, 12) { None } else { Some("s3cret token") };
    let cargo = if g.chance(1, 10) { 101 } else { 0 };
    reg.put("cargo.code", cargo.to_string().as_bytes());
    let yes = g.coin();
    let answer = *g.pick(&["y\n", "Y\n", "y", " y \n", "n\n", "\n", "", "no\n", "yes\n", "ny\n"]);
    let broken = g.chance(1, 20);
    let local = if broken { g.pick(BROKEN).to_string() } else { new.clone() };
    std::fs::write(format!("{dir}/new.styx"), &local).unwrap();
    let mut args: Vec<String> = ["publish", "new.styx"].map(String::from).to_vec();
    if yes {
        let at = 1 + g.below(2) as usize;
        args.insert(at, g.pick(&["-y", "--yes"]).to_string());
    }
    g.set_input(format!("styx {args:?} answering {answer:?}; token: {}, latest: {}, cargo ends with {cargo}\n{old}\n=====\n{local}", token.is_some(), if first { "none" } else { &version }));
    let before = snapshot(&dir);
    let r = reg.run(&args, answer.as_bytes(), token)?;
    reg.tidy(&before)?;
    let rep = report(&r.err);
    let done = reg.get("cargo.args");
    let ready = token.is_some() && !broken && meta.is_some();
    let mut next = Some("0.1.0".to_string());
    if ready && !first {
        judge(g, &v, (&old, &new), &rep)?;
        next = match rep.level() {
            _ if odd.is_some() => None,
            Zero => None,
            Major if a > 0 => Some(format!("{}.0.0", a + 1)),
            Major | Minor => Some(format!("{a}.{}.0", b + 1)),
            Patch => Some(format!("{a}.{b}.{}", c + 1)),
        };
        ensure!(rep.bump == next, "wrong-version", "{version} to {next:?}: {rep:?}");
    }
    if !ready {
        ensure!(reg.get("curl.log").is_none(), "asked-early", "{:?}", r.err);
        next = None;
    }
    let Some(next) = next else {
        g.label("nothing to publish");
        ensure!(r.code == Some(1) && done.is_none(), "published-nevertheless", "exit {:?}, {done:?}: {}", r.code, r.err);
        return Ok(());
    };
    if !yes && !matches!(answer.trim(), "y" | "Y") {
        g.label("declined");
        ensure!(r.code == Some(0) && done.is_none(), "published-undecided", "exit {:?}, {done:?}: {}", r.code, r.err);
        return Ok(());
    }
    g.label("published");
    g.nontrivial = true;
    let Some(done) = done else { bail!("not-published", "exit {:?}: {}", r.code, r.err) };
    ensure!(done == "publish\n--registry\nstaging\n" && reg.get("cargo.token").as_deref() == token, "cargo-call", "{done:?}");
    ensure!(r.code == Some(if cargo == 0 { 0 } else { 1 }), "exit-code", "cargo ended with {cargo}, styx with {:?}", r.code);
    let config = reg.get("crate/.cargo/config.toml").unwrap_or_default();
    ensure!(config.contains("[registries.staging]") && config.contains("staging.crates.io"), "registry", "{config:?}");
    is_crate(&snapshot(&format!("{}/crate", reg.fake)), &name, &next, &local)
}

/// The crate has the name, the version and the schema.
fn is_crate(files: &Files, name: &str, version: &str, schema: &str) -> R {
    let get = |p: &str| files.get(p).map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
    ensure!(files.get("schema.styx").map(|b| &b[..]) == Some(schema.as_bytes()), "schema-changed", "{:?}", get("schema.styx"));
    let toml = get("Cargo.toml");
    ensure!(toml.starts_with("[package]\n") && toml.lines().any(|l| l == format!("name = {name:?}")) && toml.lines().any(|l| l == format!("version = {version:?}")), "manifest", "{toml}");
    ensure!(get("src/lib.rs").contains("pub const SCHEMA: &str = include_str!(\"../schema.styx\");"), "library", "{}", get("src/lib.rs"));
    ensure!(files.contains_key("README.md"), "readme", "{:?}", files.keys());
    Ok(())
}

fn p26_package(g: &mut G) -> R {
    g.nontrivial = false;
    let dir = format!("{}/c", g.dir);
    fresh(&dir);
    let name = g.pick(&["app-schema", "a", "x_y"]).to_string();
    let version = g.pick(&["0.1.0", "12.0.3-rc.1"]).to_string();
    let types = gen_types(g, 1);
    let fault = if g.chance(1, 4) { g.below(4) } else { 99 };
    let text = if fault == 0 { g.pick(BROKEN).to_string() } else { schema_file(g, &types, None) };
    if fault != 1 {
        std::fs::write(format!("{dir}/s.styx"), &text).unwrap();
    }
    let output = g.coin().then(|| g.pick(&["out", "sub/deep/out", "./out", "a b"]).to_string());
    let target = output.clone().unwrap_or(name.clone());
    let target = target.trim_start_matches("./");
    // What is there already
    match fault {
        2 => {
            if let Some((up, _)) = target.rsplit_once('/') {
                std::fs::create_dir_all(format!("{dir}/{up}")).unwrap();
            }
            std::fs::write(format!("{dir}/{target}"), "a file").unwrap()
        }
        _ if g.coin() => {
            std::fs::create_dir_all(format!("{dir}/{target}/src")).unwrap();
            for f in ["src/other.rs", "keep", "schema.styx"] {
                std::fs::write(format!("{dir}/{target}/{f}"), "before").unwrap();
            }
        }
        _ => {}
    }
    let mut opts = vec![vec!["--name".to_string(), name.clone()], vec!["--version".into(), version.clone()]];
    if let Some(o) = &output {
        opts.push(vec!["--output".into(), o.clone()]);
    }
    let i = g.below(opts.len() as u64) as usize;
    opts.rotate_left(i);
    let args: Vec<String> = ["package".to_string(), "s.styx".into()].into_iter().chain(opts.into_iter().flatten()).collect();
    g.set_input(format!("styx {args:?} (fault {fault})\n{text}"));
    let before = snapshot(&dir);
    let r = run(&dir, &binary("styx"), &args, b"", &[])?;
    let after = snapshot(&dir);
    let code = match fault {
        0 => 1,
        1 | 2 => 3,
        _ => 0,
    };
    ensure!(r.code == Some(code), format!("exit-code-{:?}-not-{code}", r.code), "{}", r.err);
    if code != 0 {
        g.label("fault");
        ensure!(before == after, "files-changed", "{:?}", after.keys());
        return Ok(());
    }
    g.nontrivial = true;
    let at = format!("{target}/");
    let made: Files = after.iter().filter_map(|(k, v)| Some((k.strip_prefix(&at)?.to_string(), v.clone()))).collect();
    is_crate(&made, &name, &version, &text)?;
    let ours = ["Cargo.toml", "src/lib.rs", "README.md", "schema.styx"].map(|f| format!("{at}{f}"));
    let parent = |k: &str| k.ends_with('/') && format!("{at}src/").starts_with(k);
    for k in before.keys().chain(after.keys()) {
        ensure!(ours.contains(k) || parent(k) || before.get(k) == after.get(k), "files-changed", "{k:?}");
    }
    Ok(())
}
