//! Schema validation against a reference validator over abstract schemas.
use super::typed::damage;
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use facet_styx::{SchemaFile, ValidationErrorKind, ValidationResult};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P13", name: "verdict", quick: 250_000, thorough: 10_000_000, run: p13_verdict, shrink: 3000, rule: "a generated schema in random spelling and a document near it; non-trivial: at least 4 nodes in the document and 3 in the schema" },
    Suite { prop: "P13", name: "scalars", quick: 250_000, thorough: 10_000_000, run: p13_scalars, shrink: 2000, rule: "a scalar type with constraints and a text at its limits; every case counts" },
    Suite { prop: "P13", name: "robust", quick: 100_000, thorough: 4_000_000, run: p13_robust, shrink: 2000, rule: "a damaged or self-referring schema text; non-trivial: the damaged text is still read as a schema" },
];

#[derive(Debug, Clone, PartialEq)]
pub enum Sc {
    Str(Option<u64>, Option<u64>),
    Int(Option<i128>, Option<i128>),
    Float(Option<f64>, Option<f64>),
    Bool,
    Unit,
    At,
    Any,
    /// Named fields, catch-all (with its spelling: `@` or `@string`).
    Obj(Vec<(String, Sc)>, Option<(bool, Box<Sc>)>),
    Seq(Box<Sc>),
    Tuple(Vec<Sc>),
    Map(Option<Box<Sc>>, Box<Sc>),
    Union(Vec<Sc>),
    Opt(Box<Sc>),
    Enum(Vec<(String, Sc)>),
    OneOf(Box<Sc>, Vec<String>),
    Default(String, Box<Sc>),
    Deprecated(String, Box<Sc>),
    Flatten(String),
    Lit(String),
    Ref(String),
}
#[derive(Debug, Clone)]
pub struct Types(pub Vec<(String, Sc)>);
impl Types {
    fn get(&self, n: &str) -> Option<&Sc> {
        self.0.iter().find(|t| t.0 == n).map(|t| &t.1)
    }
}

const FIELDS: &[&str] = &["a", "b", "host", "hosts", "port", "name", "x", "é漢", "two words", "A", "type", "a-b", "k1", "k2"];
const NAMES: &[&str] = &["Foo", "Bar", "Node", "baz", "T_1", "a-b"];
const VARIANTS: &[&str] = &["ok", "err", "pending", "a", "B2", "some-thing"];

fn scalar_type(g: &mut G) -> Sc {
    match g.weighted(&[3, 3, 2, 2, 1, 1, 1]) {
        0 => {
            if g.coin() {
                return Sc::Str(None, None);
            }
            let lo = if g.coin() { Some(g.below(5)) } else { None };
            let hi = if g.coin() { Some(g.below(8)) } else { None };
            Sc::Str(lo, hi)
        }
        1 => {
            if g.coin() {
                return Sc::Int(None, None);
            }
            let mut b = || {
                let n = match g.weighted(&[5, 2, 2, 1]) {
                    0 => g.range(-20, 20) as i128,
                    1 => *g.pick(&[65535, 65536, 255, 1 << 31, -(1 << 31)]),
                    2 => *g.pick(&[i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, u64::MAX as i128]),
                    _ => *g.pick(&[i128::MAX, i128::MIN]),
                };
                if g.chance(2, 3) { Some(n) } else { None }
            };
            Sc::Int(b(), b())
        }
        2 => {
            if g.coin() {
                return Sc::Float(None, None);
            }
            let mut b = || {
                let n = *g.pick(&[0.0, 1.0, -1.5, 0.1, 100.0, -273.15, 1e10]);
                if g.chance(2, 3) { Some(n) } else { None }
            };
            Sc::Float(b(), b())
        }
        3 => Sc::Bool,
        4 => Sc::Unit,
        5 => Sc::Any,
        _ => Sc::Lit(any_text(g)),
    }
}

/// A name that differs little: in the case of a letter, its length or its punctuation.
fn close_to(g: &mut G, name: &str) -> String {
    let mut c: Vec<char> = name.chars().collect();
    let i = g.below(c.len().max(1) as u64) as usize;
    match g.below(5) {
        0 if c.len() > 1 => {
            c.pop();
        }
        1 => c.push('s'),
        2 => c = c.into_iter().map(|c| if c == '-' { '_' } else { c }).collect(),
        3 => c = c.into_iter().map(|c| c.to_ascii_uppercase()).collect(),
        _ if !c.is_empty() => c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() },
        _ => {}
    }
    c.into_iter().collect()
}
/// One of the names, or one close to a name in use.
fn pick_name(g: &mut G, names: &[&str], used: &[String]) -> String {
    if !used.is_empty() && g.chance(1, 5) {
        let n = g.pick(used).clone();
        close_to(g, &n)
    } else {
        g.pick(names).to_string()
    }
}

pub fn gen_type(g: &mut G, depth: usize, names: &[String]) -> Sc {
    if depth == 0 {
        return if !names.is_empty() && g.chance(1, 4) { Sc::Ref(g.pick(names).clone()) } else { scalar_type(g) };
    }
    let d = depth - 1;
    match g.weighted(&[4, 5, 2, 2, 2, 2, 2, 3, 2, 1, 1, 2, 1]) {
        0 => scalar_type(g),
        1 => {
            let n = g.size(0, 4);
            let mut fs: Vec<(String, Sc)> = vec![];
            for _ in 0..n {
                let used: Vec<String> = fs.iter().map(|f| f.0.clone()).collect();
                let k = if g.chance(1, 10) { any_text(g) } else { pick_name(g, FIELDS, &used) };
                if k.is_empty() || fs.iter().any(|f| f.0 == k) {
                    continue;
                }
                let t = match g.weighted(&[5, 2, 1, 1, if names.is_empty() { 0 } else { 1 }]) {
                    0 => gen_type(g, d, names),
                    1 => Sc::Opt(Box::new(gen_type(g, d, names))),
                    2 => Sc::Default(any_text(g), Box::new(gen_type(g, d, names))),
                    3 => {
                        let t = gen_type(g, d, names);
                        let t = match g.below(3) {
                            0 => t,
                            1 => Sc::Opt(Box::new(t)),
                            _ => Sc::Default(word(g), Box::new(t)),
                        };
                        Sc::Deprecated(any_text(g), Box::new(t))
                    }
                    _ => Sc::Flatten(g.pick(names).clone()),
                };
                fs.push((k, t));
            }
            let extra = if g.chance(1, 4) { Some((g.coin(), Box::new(gen_type(g, d, names)))) } else { None };
            Sc::Obj(fs, extra)
        }
        2 => Sc::Seq(Box::new(gen_type(g, d, names))),
        3 => {
            let n = g.size(0, 3);
            Sc::Tuple((0..n).map(|_| gen_type(g, d, names)).collect())
        }
        4 => {
            let k = match g.below(4) {
                0 => None,
                1 => Some(Sc::Int(None, None)),
                2 => Some(Sc::Bool),
                _ => Some(Sc::Str(if g.coin() { Some(g.below(3)) } else { None }, None)),
            };
            Sc::Map(k.map(Box::new), Box::new(gen_type(g, d, names)))
        }
        5 => {
            let n = g.size(1, 3);
            Sc::Union((0..n).map(|_| gen_type(g, d, names)).collect())
        }
        6 => Sc::Opt(Box::new(gen_type(g, d, names))),
        7 => {
            let n = g.size(1, 3);
            let mut vs: Vec<(String, Sc)> = vec![];
            for _ in 0..n {
                let used: Vec<String> = vs.iter().map(|f| f.0.clone()).collect();
                let k = pick_name(g, VARIANTS, &used);
                if vs.iter().any(|f| f.0 == k) {
                    continue;
                }
                let t = if g.chance(1, 3) { Sc::At } else { gen_type(g, d, names) };
                vs.push((k, t));
            }
            Sc::Enum(vs)
        }
        8 => {
            let t = *g.pick(&[0, 1, 2]);
            let n = g.size(0, 4);
            let (t, vs) = match t {
                0 => (Sc::Str(None, None), (0..n).map(|_| any_text(g)).collect()),
                1 => (Sc::Int(None, None), (0..n).map(|_| g.range(0, 12).to_string()).collect()),
                _ => (Sc::Bool, (0..n).map(|_| g.pick(&["true", "false"]).to_string()).collect()),
            };
            Sc::OneOf(Box::new(t), vs)
        }
        9 => Sc::At,
        10 => Sc::Deprecated(word(g), Box::new(gen_type(g, d, names))),
        11 if !names.is_empty() => Sc::Ref(g.pick(names).clone()),
        11 => scalar_type(g),
        _ => Sc::Ref(if g.chance(1, 8) { "Nowhere".into() } else { names.first().cloned().unwrap_or("Foo".into()) }),
    }
}

fn num(f: f64) -> String {
    format!("{f:?}")
}

/// The schema as an abstract document value.
pub fn to_v(s: &Sc) -> V {
    fn tag(n: &str, p: Option<V>) -> V {
        V::Tag(n.into(), p.map(Box::new))
    }
    fn entry(k: &str, v: V) -> E {
        E { key: K::Scalar(k.into()), val: v, doc: vec![] }
    }
    fn cons(n: &str, lo: Option<String>, hi: Option<String>, names: (&str, &str)) -> V {
        let mut es = vec![];
        if let Some(x) = lo {
            es.push(entry(names.0, V::Scalar(x)));
        }
        if let Some(x) = hi {
            es.push(entry(names.1, V::Scalar(x)));
        }
        tag(n, if es.is_empty() { None } else { Some(V::Obj(es)) })
    }
    match s {
        Sc::Str(a, b) => cons("string", a.map(|x| x.to_string()), b.map(|x| x.to_string()), ("minLen", "maxLen")),
        Sc::Int(a, b) => cons("int", a.map(|x| x.to_string()), b.map(|x| x.to_string()), ("min", "max")),
        Sc::Float(a, b) => cons("float", a.map(num), b.map(num), ("min", "max")),
        Sc::Bool => tag("bool", None),
        Sc::Unit => tag("unit", None),
        Sc::At => V::Unit,
        Sc::Any => tag("any", None),
        Sc::Obj(fs, extra) => {
            let mut es: Vec<E> = fs.iter().map(|(k, t)| entry(k, to_v(t))).collect();
            if let Some((typed, t)) = extra {
                es.push(E { key: if *typed { K::Tag("string".into()) } else { K::Unit }, val: to_v(t), doc: vec![] });
            }
            tag("object", Some(V::Obj(es)))
        }
        Sc::Seq(t) => tag("seq", Some(V::Seq(vec![to_v(t)]))),
        Sc::Tuple(ts) => tag("tuple", Some(V::Seq(ts.iter().map(to_v).collect()))),
        Sc::Map(k, v) => tag("map", Some(V::Seq(k.iter().map(|k| to_v(k)).chain([to_v(v)]).collect()))),
        Sc::Union(ts) => tag("union", Some(V::Seq(ts.iter().map(to_v).collect()))),
        Sc::Opt(t) => tag("optional", Some(V::Seq(vec![to_v(t)]))),
        Sc::Enum(vs) => tag("enum", Some(V::Obj(vs.iter().map(|(k, t)| entry(k, to_v(t))).collect()))),
        Sc::OneOf(t, vs) => tag("one-of", Some(V::Seq(vec![to_v(t), V::Seq(vs.iter().map(|v| V::Scalar(v.clone())).collect())]))),
        Sc::Default(v, t) => tag("default", Some(V::Seq(vec![V::Scalar(v.clone()), to_v(t)]))),
        Sc::Deprecated(v, t) => tag("deprecated", Some(V::Seq(vec![V::Scalar(v.clone()), to_v(t)]))),
        Sc::Flatten(n) => tag("flatten", Some(V::Seq(vec![tag(n, None)]))),
        Sc::Lit(t) => tag("literal", Some(V::Scalar(t.clone()))),
        Sc::Ref(n) => tag(n, None),
    }
}

/// Text that surely starts a fresh entry: documentation on schema entries.
pub fn sprinkle_docs(g: &mut G, v: &mut V) {
    match v {
        V::Obj(es) => {
            for e in es {
                if g.chance(1, 12) {
                    e.doc = vec![word(g)];
                }
                sprinkle_docs(g, &mut e.val);
            }
        }
        V::Seq(x) => x.iter_mut().for_each(|x| sprinkle_docs(g, x)),
        V::Tag(_, Some(p)) => sprinkle_docs(g, p),
        _ => {}
    }
}

pub fn schema_text(g: &mut G, types: &Types, root: &Sc) -> String {
    schema_doc(g, types, root).text
}
pub fn schema_doc(g: &mut G, types: &Types, root: &Sc) -> Doc {
    let mut es: Vec<E> = types.0.iter().map(|(n, t)| E { key: K::Scalar(n.clone()), val: to_v(t), doc: vec![] }).collect();
    let at = g.below(es.len() as u64 + 1) as usize;
    es.insert(at, E { key: K::Unit, val: to_v(root), doc: vec![] });
    let mut meta = vec![E { key: K::Scalar("id".into()), val: V::Scalar("test".into()), doc: vec![] }];
    if g.coin() {
        meta.push(E { key: K::Scalar("version".into()), val: V::Scalar("2026-01-11".into()), doc: vec![] });
    }
    let mut doc = vec![
        E { key: K::Scalar("meta".into()), val: V::Obj(meta), doc: vec![] },
        E { key: K::Scalar("schema".into()), val: V::Obj(es), doc: vec![] },
    ];
    if g.chance(1, 6) {
        doc.reverse();
    }
    let mut v = V::Obj(doc);
    sprinkle_docs(g, &mut v);
    let V::Obj(doc) = v else { unreachable!() };
    render(g, FULL, doc)
}

// --- documents -----------------------------------------------------------------------------

fn text_len(g: &mut G, n: usize) -> String {
    (0..n).map(|_| *g.pick(&['a', 'é', '漢', '😀', ' ', '"', '1'])).collect()
}
fn near(g: &mut G, lo: Option<i128>, hi: Option<i128>) -> String {
    let base = match (lo, hi, g.below(4)) {
        (Some(l), _, 0) => l,
        (_, Some(h), 1) => h,
        (Some(l), Some(h), 2) if l <= h => l + (h / 2 - l / 2),
        (Some(l), None, 2) => l.saturating_add(5),
        (None, Some(h), 2) => h.saturating_sub(5),
        _ => g.range(-30, 30) as i128,
    };
    base.saturating_add(if g.chance(1, 3) { g.range(-1, 1) as i128 } else { 0 }).to_string()
}
const FLOATS: &[&str] = &["0", "-0", "1", "1.5", "-273.15", "6.022e23", "1E-10", "0.0", "1e5", "1e+5", "007", "+1", ".5", "-.5", "NaN", "nan", "inf", "Infinity", "-inf", "1e999", "-1e999", "1_0", "0x1", "1e", "1.", "--1", "1.5.2", "1e5e5", "", " 1", "e5", "-", "1e-999", "99999999999999999999999999"];
const INTS: &[&str] = &["0", "-0", "7", "007", "-1", "1.0", "1e3", "0x10", "1_000", "", "-", "--1", " 1", "+5", "abc", "true", "９"];

pub fn conform(g: &mut G, ts: &Types, s: &Sc, fuel: usize) -> V {
    if fuel == 0 {
        return match s {
            Sc::Seq(_) => V::Seq(vec![]),
            Sc::Map(..) => V::Obj(vec![]),
            _ => V::Unit,
        };
    }
    let f = fuel - 1;
    match s {
        Sc::Str(lo, hi) => {
            let n = match (lo, hi, g.below(3)) {
                (Some(l), _, 0) => *l as usize,
                (_, Some(h), 1) => *h as usize,
                (Some(l), Some(h), _) => (*l as usize + *h as usize) / 2,
                (Some(l), None, _) => *l as usize + 1,
                (None, Some(h), _) => (*h as usize).saturating_sub(1),
                _ => return V::Scalar(any_text(g)),
            };
            V::Scalar(text_len(g, n))
        }
        Sc::Int(lo, hi) => V::Scalar(if g.chance(1, 10) { g.pick(INTS).to_string() } else { near(g, *lo, *hi) }),
        Sc::Float(lo, hi) => {
            let b = match (lo, hi, g.below(3)) {
                (Some(l), _, 0) => num(*l),
                (_, Some(h), 1) => num(*h),
                (Some(l), Some(h), _) => num((l + h) / 2.0),
                (Some(l), None, _) => num(l + 1.0),
                (None, Some(h), _) => num(h - 1.0),
                _ => g.pick(FLOATS).to_string(),
            };
            V::Scalar(b)
        }
        Sc::Bool => V::Scalar(g.pick(&["true", "false"]).to_string()),
        Sc::Unit | Sc::At => V::Unit,
        Sc::Any => gen_val(g, &Cfg { chains: false, odd_keys: false, ..FULL }, 2),
        Sc::Obj(fs, extra) => {
            let mut es: Vec<E> = vec![];
            obj_fields(g, ts, fs, extra, f, &mut es, 3);
            if g.chance(1, 4) && es.len() > 1 {
                let i = g.below(es.len() as u64) as usize;
                es.rotate_left(i);
            }
            V::Obj(es)
        }
        Sc::Seq(t) => {
            let n = g.size(0, 3);
            V::Seq((0..n).map(|_| conform(g, ts, t, f)).collect())
        }
        Sc::Tuple(x) => V::Seq(x.iter().map(|t| conform(g, ts, t, f)).collect()),
        Sc::Map(k, v) => {
            let n = g.size(0, 3);
            let mut es: Vec<E> = vec![];
            for i in 0..n {
                let key = match k.as_deref() {
                    Some(k) => match conform(g, ts, k, 2) {
                        V::Scalar(t) => t,
                        _ => format!("{i}"),
                    },
                    None => word(g),
                };
                if es.iter().any(|e| e.key == K::Scalar(key.clone())) {
                    continue;
                }
                es.push(E { key: K::Scalar(key), val: conform(g, ts, v, f), doc: vec![] });
            }
            V::Obj(es)
        }
        Sc::Union(x) => {
            let t = g.pick(x).clone();
            conform(g, ts, &t, f)
        }
        Sc::Opt(t) => {
            if g.chance(1, 4) { V::Unit } else { conform(g, ts, t, f) }
        }
        Sc::Enum(vs) => {
            if g.chance(1, 6) {
                // The untagged form of a variant
                let i = g.below(vs.len() as u64) as usize;
                return conform(g, ts, &vs[i].1.clone(), f);
            }
            let (n, t) = g.pick(vs).clone();
            match conform(g, ts, &t, f) {
                V::Unit => V::Tag(n, if g.chance(1, 4) { Some(Box::new(V::Unit)) } else { None }),
                V::Tag(..) => V::Tag(n, None),
                v => V::Tag(n, Some(Box::new(v))),
            }
        }
        Sc::OneOf(t, vs) => {
            if vs.is_empty() || g.chance(1, 4) { conform(g, ts, t, f) } else { V::Scalar(g.pick(vs).clone()) }
        }
        Sc::Default(_, t) | Sc::Deprecated(_, t) => conform(g, ts, t, f),
        Sc::Flatten(n) | Sc::Ref(n) => match ts.get(n) {
            Some(t) => conform(g, ts, &t.clone(), f),
            None => V::Scalar(word(g)),
        },
        Sc::Lit(t) => V::Scalar(t.clone()),
    }
}
fn obj_fields(g: &mut G, ts: &Types, fs: &[(String, Sc)], extra: &Option<(bool, Box<Sc>)>, f: usize, es: &mut Vec<E>, depth: usize) {
    let push = |es: &mut Vec<E>, k: &str, v: V| {
        let key = K::Scalar(k.to_string());
        if !es.iter().any(|e| e.key == key) {
            es.push(E { key, val: v, doc: vec![] });
        }
    };
    for (k, t) in fs {
        if let (Sc::Flatten(n), true) = (t, depth > 0)
            && let Some(Sc::Obj(ifs, iex)) = resolve(ts, n)
        {
            obj_fields(g, ts, &ifs.clone(), &iex.clone(), f, es, depth - 1);
            continue;
        }
        let optional = matches!(t, Sc::Opt(_) | Sc::Default(..)) || matches!(t, Sc::Deprecated(_, t) if matches!(**t, Sc::Opt(_) | Sc::Default(..)));
        if optional && g.chance(1, 3) {
            continue;
        }
        let v = conform(g, ts, t, f);
        push(es, k, v);
    }
    if let Some((_, t)) = extra {
        for i in 0..g.size(0, 2) {
            let v = conform(g, ts, t, f);
            push(es, &format!("extra{i}"), v);
        }
    }
}
fn resolve<'a>(ts: &'a Types, n: &str) -> Option<&'a Sc> {
    let mut n = n.to_string();
    for _ in 0..=ts.0.len() {
        match ts.get(&n)? {
            Sc::Ref(m) => n = m.clone(),
            t => return Some(t),
        }
    }
    None
}

fn random_leaf(g: &mut G) -> V {
    match g.below(8) {
        0 => V::Scalar(g.pick(INTS).to_string()),
        1 => V::Scalar(g.pick(FLOATS).to_string()),
        2 => V::Scalar(g.pick(&["true", "false", "True", "x"]).to_string()),
        3 => V::Unit,
        4 => V::Seq(vec![]),
        5 => V::Obj(vec![]),
        6 => V::Tag(g.pick(VARIANTS).to_string(), None),
        _ => V::Scalar(any_text(g)),
    }
}
/// One edit somewhere in the value.
pub fn mutate(g: &mut G, v: &mut V) {
    let inner = match v {
        V::Seq(x) => x.len(),
        V::Obj(x) => x.len(),
        V::Tag(_, Some(_)) => 1,
        _ => 0,
    };
    if inner > 0 && g.chance(3, 5) {
        let i = g.below(inner as u64) as usize;
        match v {
            V::Seq(x) => mutate(g, &mut x[i]),
            V::Obj(x) => mutate(g, &mut x[i].val),
            V::Tag(_, Some(p)) => {
                mutate(g, p);
                if matches!(**p, V::Tag(..)) {
                    **p = V::Unit;
                }
            }
            _ => unreachable!(),
        }
        return;
    }
    match v {
        V::Obj(x) => match g.below(4) {
            0 if !x.is_empty() => {
                let i = g.below(x.len() as u64) as usize;
                x.remove(i);
            }
            1 if !x.is_empty() => {
                // A typing error in a key
                let i = g.below(x.len() as u64) as usize;
                if let K::Scalar(k) = &x[i].key {
                    let key = K::Scalar(if g.chance(1, 5) { format!("X{k}") } else { close_to(g, k) });
                    if !x.iter().any(|e| e.key == key) {
                        x[i].key = key;
                    }
                }
            }
            2 => {
                let key = match g.below(6) {
                    0 => K::Unit,
                    1 => K::Tag("t".into()),
                    2 => K::Scalar(any_text(g)),
                    _ => K::Scalar(g.pick(FIELDS).to_string()),
                };
                if !x.iter().any(|e| e.key == key) {
                    let val = random_leaf(g);
                    x.push(E { key, val, doc: vec![] });
                }
            }
            _ => *v = random_leaf(g),
        },
        V::Seq(x) => match g.below(3) {
            0 if !x.is_empty() => {
                x.pop();
            }
            1 => {
                let l = random_leaf(g);
                x.push(l);
            }
            _ => *v = random_leaf(g),
        },
        V::Tag(n, p) => match g.below(4) {
            0 if g.coin() => *n = close_to(g, n),
            0 => *n = g.pick(VARIANTS).to_string(),
            1 => *p = None,
            2 => {
                let q = p.take().map(|p| *p).unwrap_or(V::Unit);
                *v = q;
            }
            _ => {
                let l = random_leaf(g);
                *p = Some(Box::new(if matches!(l, V::Tag(..)) { V::Unit } else { l }));
            }
        },
        V::Scalar(t) if g.chance(1, 6) => *t = close_to(g, t),
        _ => {
            if g.chance(1, 6) && !matches!(v, V::Tag(..)) {
                let n = g.pick(VARIANTS).to_string();
                let inner = std::mem::replace(v, V::Unit);
                *v = V::Tag(n, Some(Box::new(inner)));
            } else {
                *v = random_leaf(g);
            }
        }
    }
}

// --- the reference validator ---------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Exp {
    path: String,
    kind: &'static str,
    span: Option<Span>,
}
/// The specification leaves this verdict open.
#[derive(Debug)]
pub struct Open(&'static str);

struct Ref<'a> {
    ts: &'a Types,
    errs: Vec<Exp>,
    warns: Vec<Exp>,
    active: Vec<(String, *const T)>,
}

/// Where a value's errors point, unless that is open (the root, implied objects, tagged values).
fn span_of(t: &T) -> Option<Span> {
    if t.span.0 == u32::MAX || matches!(t.v, TV::Tag { payload: Some(_), .. }) { None } else { Some(t.span) }
}
fn join(p: &str, k: &str) -> String {
    if p.is_empty() { k.into() } else { format!("{p}.{k}") }
}
fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}
/// Some(Some(n)): the number; Some(None): no number; None: open.
fn int_of(t: &str) -> Option<Option<i128>> {
    let u = t.strip_prefix(['-', '+']).unwrap_or(t);
    if !digits(u) {
        return Some(None);
    }
    if t.starts_with('+') {
        return None;
    }
    t.parse::<i128>().ok().map(Some)
}
fn float_of(t: &str) -> Option<Option<f64>> {
    // -? (0|[1-9][0-9]*) (. [0-9]+)? ([eE] [+-]? [0-9]+)?   (the grammar as printed lets the digits be missing: open)
    let b = t.as_bytes();
    let mut i = 0;
    let run = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    let mut open = false;
    if b.first() == Some(&b'-') {
        i = 1;
    }
    let s = i;
    let n = run(&mut i);
    if n == 0 || (n > 1 && b[s] == b'0') {
        return Some(None);
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        open |= run(&mut i) == 0;
    }
    if i < b.len() && (b[i] | 32) == b'e' {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        open |= run(&mut i) == 0;
    }
    if i < b.len() {
        return Some(None);
    }
    if open {
        return None;
    }
    Some(t.parse::<f64>().ok().filter(|f| f.is_finite()))
}

impl<'a> Ref<'a> {
    fn err(&mut self, path: &str, kind: &'static str, t: &T) {
        self.errs.push(Exp { path: path.into(), kind, span: span_of(t) });
    }
    /// Whether the value is accepted, leaving no errors or warnings behind.
    fn accepts(&mut self, t: &T, s: &'a Sc) -> Result<bool, Open> {
        let (e, w) = (std::mem::take(&mut self.errs), std::mem::take(&mut self.warns));
        let r = self.check(t, s, "");
        let ok = self.errs.is_empty();
        self.errs = e;
        self.warns = w;
        r.map(|_| ok)
    }
    /// The text of a scalar; an error otherwise.
    fn scalar<'t>(&mut self, t: &'t T, path: &str) -> Result<Option<&'t str>, Open> {
        match &t.v {
            TV::Scalar { text, .. } => Ok(Some(text)),
            TV::Tag { payload: Some(p), .. } if p.v != TV::Unit => Err(Open("tagged value for an untagged type")),
            _ => {
                self.err(path, "ExpectedScalar", t);
                Ok(None)
            }
        }
    }
    fn tagged(t: &T) -> Result<(), Open> {
        match &t.v {
            TV::Tag { payload: Some(p), .. } if p.v != TV::Unit => Err(Open("tagged value for an untagged type")),
            _ => Ok(()),
        }
    }
    fn fields(&self, fs: &'a [(String, Sc)], extra: &'a Option<(bool, Box<Sc>)>, within: &mut Vec<*const Sc>) -> Result<(Vec<(&'a str, &'a Sc)>, Vec<&'a Sc>), Open> {
        let (mut out, mut ex) = (vec![], vec![]);
        if let Some((_, t)) = extra {
            ex.push(&**t);
        }
        for (k, t) in fs {
            if let Sc::Flatten(n) = t {
                match resolve(self.ts, n) {
                    Some(o @ Sc::Obj(ifs, iex)) => {
                        if within.contains(&(o as *const Sc)) {
                            return Err(Open("flattening itself"));
                        }
                        within.push(o);
                        let (a, b) = self.fields(ifs, iex, within)?;
                        within.pop();
                        out.extend(a);
                        ex.extend(b);
                    }
                    _ => return Err(Open("flattening something that is no object")),
                }
            } else {
                out.push((k.as_str(), t));
            }
        }
        Ok((out, ex))
    }
    fn check(&mut self, t: &T, s: &'a Sc, path: &str) -> Result<(), Open> {
        match s {
            Sc::Any => {}
            Sc::Str(lo, hi) => {
                if let Some(x) = self.scalar(t, path)? {
                    let n = x.chars().count() as u64;
                    if lo.is_some_and(|l| n < l) {
                        self.err(path, "InvalidValue", t);
                    }
                    if hi.is_some_and(|h| n > h) {
                        self.err(path, "InvalidValue", t);
                    }
                }
            }
            Sc::Int(lo, hi) => {
                if let Some(x) = self.scalar(t, path)? {
                    match int_of(x).ok_or(Open("integer beyond 128 bits or with a plus sign"))? {
                        None => self.err(path, "InvalidValue", t),
                        Some(n) => {
                            if lo.is_some_and(|l| n < l) {
                                self.err(path, "InvalidValue", t);
                            }
                            if hi.is_some_and(|h| n > h) {
                                self.err(path, "InvalidValue", t);
                            }
                        }
                    }
                }
            }
            Sc::Float(lo, hi) => {
                if let Some(x) = self.scalar(t, path)? {
                    match float_of(x).ok_or(Open("float without digits after its point"))? {
                        None => self.err(path, "InvalidValue", t),
                        Some(n) => {
                            if lo.is_some_and(|l| n < l) {
                                self.err(path, "InvalidValue", t);
                            }
                            if hi.is_some_and(|h| n > h) {
                                self.err(path, "InvalidValue", t);
                            }
                        }
                    }
                }
            }
            Sc::Bool => {
                if let Some(x) = self.scalar(t, path)?
                    && x != "true"
                    && x != "false"
                {
                    self.err(path, "InvalidValue", t);
                }
            }
            Sc::Lit(want) => {
                if let Some(x) = self.scalar(t, path)?
                    && x != want
                {
                    self.err(path, "InvalidValue", t);
                }
            }
            Sc::Unit | Sc::At => {
                if t.v != TV::Unit {
                    self.err(path, "TypeMismatch", t);
                }
            }
            Sc::Obj(fs, extra) => {
                Self::tagged(t)?;
                let TV::Obj(es) = &t.v else {
                    self.err(path, "ExpectedObject", t);
                    return Ok(());
                };
                let (fs, ex) = self.fields(fs, extra, &mut vec![s])?;
                for (i, f) in fs.iter().enumerate() {
                    if fs[..i].iter().any(|x| x.0 == f.0) {
                        return Err(Open("conflicting flattened fields"));
                    }
                }
                if ex.len() > 1 {
                    return Err(Open("conflicting catch-alls"));
                }
                for e in es {
                    let name = match (&e.key.tag, &e.key.payload) {
                        (None, Some((_, k))) => Some(k.as_str()),
                        (None, None) => None,
                        (Some(_), None) => {
                            self.errs.push(Exp { path: path.into(), kind: "InvalidValue", span: Some(e.key.span) });
                            continue;
                        }
                        _ => return Err(Open("tagged scalar key")),
                    };
                    let p = join(path, name.unwrap_or("@"));
                    match fs.iter().find(|f| Some(f.0) == name) {
                        Some((_, ft)) => self.check(&e.val, ft, &p)?,
                        None => match ex.first() {
                            Some(x) => self.check(&e.val, x, &p)?,
                            None => self.errs.push(Exp { path: p, kind: "UnknownField", span: Some(e.key.span) }),
                        },
                    }
                }
                for (k, ft) in &fs {
                    let mut ft = *ft;
                    while let Sc::Deprecated(_, i) = ft {
                        ft = i;
                    }
                    if !matches!(ft, Sc::Opt(_) | Sc::Default(..)) && !es.iter().any(|e| e.key.tag.is_none() && e.key.payload.as_ref().is_some_and(|p| p.1 == *k)) {
                        let p = join(path, k);
                        self.err(&p, "MissingField", t);
                    }
                }
            }
            Sc::Seq(x) => {
                Self::tagged(t)?;
                let TV::Seq(items) = &t.v else {
                    self.err(path, "ExpectedSequence", t);
                    return Ok(());
                };
                for (i, it) in items.iter().enumerate() {
                    self.check(it, x, &format!("{path}[{i}]"))?;
                }
            }
            Sc::Tuple(xs) => {
                Self::tagged(t)?;
                let TV::Seq(items) = &t.v else {
                    self.err(path, "ExpectedSequence", t);
                    return Ok(());
                };
                if items.len() != xs.len() {
                    self.err(path, "InvalidValue", t);
                }
                for (i, (it, x)) in items.iter().zip(xs).enumerate() {
                    self.check(it, x, &format!("{path}[{i}]"))?;
                }
            }
            Sc::Map(k, v) => {
                Self::tagged(t)?;
                let TV::Obj(es) = &t.v else {
                    self.err(path, "ExpectedObject", t);
                    return Ok(());
                };
                for e in es {
                    let Some((sk, text)) = &e.key.payload else {
                        if e.key.tag.is_none() {
                            return Err(Open("unit key of a map"));
                        }
                        self.errs.push(Exp { path: path.into(), kind: "InvalidValue", span: Some(e.key.span) });
                        continue;
                    };
                    if e.key.tag.is_some() {
                        return Err(Open("tagged scalar key"));
                    }
                    if let Some(k) = k {
                        let kt = T { v: TV::Scalar { kind: *sk, text: text.clone() }, span: e.key.span };
                        self.check(&kt, k, path)?;
                    }
                    self.check(&e.val, v, &join(path, text))?;
                }
            }
            Sc::Union(xs) => {
                for x in xs {
                    if self.accepts(t, x)? {
                        return Ok(());
                    }
                }
                self.err(path, "UnionMismatch", t);
            }
            Sc::Opt(x) => {
                if t.v != TV::Unit {
                    self.check(t, x, path)?;
                }
            }
            Sc::Enum(vs) => {
                let TV::Tag { name, payload } = &t.v else {
                    // A bare scalar may stand for the payload of a variant of a scalar type.
                    if let TV::Scalar { text, .. } = &t.v {
                        let mut any = false;
                        for (_, x) in vs {
                            let may = match x {
                                Sc::Str(..) => true,
                                Sc::Int(..) => int_of(text).ok_or(Open("integer"))?.is_some(),
                                Sc::Float(..) => float_of(text).ok_or(Open("float"))?.is_some(),
                                Sc::Bool => text == "true" || text == "false",
                                _ => false,
                            };
                            if may {
                                any = true;
                                if self.accepts(t, x)? {
                                    return Ok(());
                                }
                            }
                        }
                        self.err(path, if any { "*" } else { "ExpectedTagged" }, t);
                        return Ok(());
                    }
                    self.err(path, "ExpectedTagged", t);
                    return Ok(());
                };
                match vs.iter().find(|v| v.0 == *name) {
                    None => self.err(path, "InvalidVariant", t),
                    Some((_, x)) => match payload.as_deref() {
                        Some(p) if p.v != TV::Unit => {
                            // Reported at the payload or at the whole value
                            let q = T { v: p.v.clone(), span: (u32::MAX, u32::MAX) };
                            self.check(&q, x, &join(path, name))?;
                        }
                        _ => {
                            if !self.accepts(&T { v: TV::Unit, span: t.span }, x)? {
                                self.err(path, "TypeMismatch", t);
                            }
                        }
                    },
                }
            }
            Sc::OneOf(x, vs) => {
                let n = self.errs.len();
                self.check(t, x, path)?;
                if self.errs.len() > n || vs.is_empty() {
                    return Ok(());
                }
                if let Some(x) = self.scalar(t, path)?
                    && !vs.iter().any(|v| v == x)
                {
                    self.err(path, "InvalidValue", t);
                }
            }
            Sc::Default(_, x) => self.check(t, x, path)?,
            Sc::Deprecated(_, x) => {
                self.check(t, x, path)?;
                self.warns.push(Exp { path: path.into(), kind: "Deprecated", span: span_of(t) });
            }
            Sc::Flatten(n) | Sc::Ref(n) => match self.ts.get(n) {
                None => self.err(path, "UnknownType", t),
                Some(x) => {
                    let key = (n.clone(), t as *const T);
                    if self.active.contains(&key) {
                        return Err(Open("type defined as itself"));
                    }
                    self.active.push(key);
                    let r = self.check(t, x, path);
                    self.active.pop();
                    r?
                }
            },
        }
        Ok(())
    }
}

fn kind_of(k: &ValidationErrorKind) -> &'static str {
    use ValidationErrorKind::*;
    match k {
        MissingField { .. } => "MissingField",
        UnknownField { .. } => "UnknownField",
        TypeMismatch { .. } => "TypeMismatch",
        InvalidValue { .. } => "InvalidValue",
        UnknownType { .. } => "UnknownType",
        InvalidVariant { .. } => "InvalidVariant",
        UnionMismatch { .. } => "UnionMismatch",
        ExpectedObject => "ExpectedObject",
        ExpectedSequence => "ExpectedSequence",
        ExpectedScalar => "ExpectedScalar",
        ExpectedTagged => "ExpectedTagged",
        WrongTag { .. } => "WrongTag",
        SchemaError { .. } => "SchemaError",
    }
}
fn got(r: &ValidationResult) -> (Vec<Exp>, Vec<Exp>) {
    let sp = |s: &Option<styx_parse::Span>| s.map(|s| (s.start, s.end));
    let mut e: Vec<Exp> = r.errors.iter().map(|e| Exp { path: e.path.clone(), kind: kind_of(&e.kind), span: sp(&e.span) }).collect();
    let mut w: Vec<Exp> = r.warnings.iter().map(|e| Exp { path: e.path.clone(), kind: "Deprecated", span: sp(&e.span) }).collect();
    e.sort();
    w.sort();
    (e, w)
}
/// Expected against found, an expected error without a span or kind matching any.
fn same(want: &[Exp], got: &[Exp]) -> bool {
    if want.len() != got.len() {
        return false;
    }
    let mut left: Vec<&Exp> = got.iter().collect();
    // Exact ones first.
    let mut ws: Vec<&Exp> = want.iter().collect();
    ws.sort_by_key(|w| (w.kind == "*", w.span.is_none()));
    for w in ws {
        match left.iter().position(|x| x.path == w.path && (w.kind == "*" || w.kind == x.kind) && (w.span.is_none() || w.span == x.span)) {
            Some(i) => {
                left.remove(i);
            }
            None => return false,
        }
    }
    true
}

fn compare(what: &str, ts: &Types, t: &T, s: &Sc, r: &ValidationResult) -> Result<Option<bool>, Fail> {
    let mut rf = Ref { ts, errs: vec![], warns: vec![], active: vec![] };
    if rf.check(t, s, "").is_err() {
        return Ok(None);
    }
    let (mut we, mut ww) = (rf.errs, rf.warns);
    we.sort();
    ww.sort();
    let (ge, gw) = got(r);
    // With an open choice of errors only the paths are compared.
    let ok = if we.iter().any(|e| e.kind == "*") {
        let mut a: Vec<_> = we.iter().map(|e| &e.path).collect();
        let mut b: Vec<_> = ge.iter().map(|e| &e.path).collect();
        a.dedup();
        b.dedup();
        a == b
    } else {
        same(&we, &ge)
    };
    if !ok {
        let kind = match (we.is_empty(), ge.is_empty()) {
            (true, false) => "conforming-rejected",
            (false, true) => "nonconforming-accepted",
            _ => "errors-differ",
        };
        bail!(format!("{what}{kind}"), "expected errors {we:?}\n   found {ge:?}\n   messages {:?}", r.errors.iter().map(|e| e.message.clone()).collect::<Vec<_>>());
    }
    ensure!(r.is_valid() == ge.is_empty(), "is-valid", "is_valid() with {} errors", ge.len());
    if !same(&ww, &gw) {
        bail!(format!("{what}warnings-differ"), "expected {ww:?}\n   found {gw:?}");
    }
    Ok(Some(we.is_empty()))
}

fn lev(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut d = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            d[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                (d[i - 1][j] + 1).min(d[i][j - 1] + 1).min(d[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize)
            };
        }
    }
    d[a.len()][b.len()]
}
/// A suggestion is a valid field, close to the unknown one, and none is closer.
fn suggestions(r: &ValidationResult) -> R {
    for e in &r.errors {
        if let ValidationErrorKind::UnknownField { field, valid_fields, suggestion } = &e.kind {
            let d = |v: &str| lev(&field.to_lowercase(), &v.to_lowercase());
            let best = valid_fields.iter().map(|v| d(v)).min();
            match suggestion {
                Some(s) => {
                    ensure!(valid_fields.contains(s), "suggestion-unknown", "{field:?}: {s:?} is no field");
                    ensure!(Some(d(s)) == best && d(s) <= 2, "suggestion-far", "{field:?}: {s:?} of {valid_fields:?}");
                }
                None => ensure!(best.is_none_or(|b| b > 1 || b >= field.chars().count()), "suggestion-missing", "{field:?} of {valid_fields:?}"),
            }
        }
    }
    Ok(())
}

fn has_at(s: &Sc) -> bool {
    match s {
        Sc::At => true,
        Sc::Obj(fs, x) => fs.iter().any(|f| has_at(&f.1)) || x.as_ref().is_some_and(|x| has_at(&x.1)),
        Sc::Seq(x) | Sc::Opt(x) | Sc::Default(_, x) | Sc::Deprecated(_, x) | Sc::OneOf(x, _) => has_at(x),
        Sc::Tuple(x) | Sc::Union(x) => x.iter().any(has_at),
        Sc::Map(k, v) => k.as_ref().is_some_and(|k| has_at(k)) || has_at(v),
        Sc::Enum(vs) => vs.iter().any(|v| has_at(&v.1)),
        _ => false,
    }
}
fn size_sc(s: &Sc) -> usize {
    1 + match s {
        Sc::Obj(fs, x) => fs.iter().map(|f| size_sc(&f.1)).sum::<usize>() + x.as_ref().map_or(0, |x| size_sc(&x.1)),
        Sc::Seq(x) | Sc::Opt(x) | Sc::Default(_, x) | Sc::Deprecated(_, x) | Sc::OneOf(x, _) => size_sc(x),
        Sc::Tuple(x) | Sc::Union(x) => x.iter().map(size_sc).sum(),
        Sc::Map(_, v) => 1 + size_sc(v),
        Sc::Enum(vs) => vs.iter().map(|v| size_sc(&v.1)).sum(),
        _ => 0,
    }
}

pub fn read(text: &str) -> Result<SchemaFile, Fail> {
    facet_styx::from_str::<SchemaFile>(text).map_err(|e| Fail { kind: "schema-rejected".into(), msg: format!("{e}\n{text}") })
}

pub fn gen_types(g: &mut G, depth: usize) -> (Types, Sc) {
    let n = g.size(0, 3);
    let mut names: Vec<String> = vec![];
    for _ in 0..n {
        let k = pick_name(g, NAMES, &names);
        if !names.contains(&k) {
            names.push(k);
        }
    }
    let types = Types(names.iter().map(|k| (k.clone(), if g.coin() { object_type(g, depth, &names) } else { gen_type(g, depth, &names) })).collect());
    let root = if g.chance(5, 6) { object_type(g, depth, &names) } else { gen_type(g, depth, &names) };
    (types, root)
}
fn object_type(g: &mut G, depth: usize, names: &[String]) -> Sc {
    for _ in 0..20 {
        let t = gen_type(g, depth, names);
        if matches!(t, Sc::Obj(..)) {
            return t;
        }
    }
    Sc::Obj(vec![], None)
}

fn p13_verdict(g: &mut G) -> R {
    let depth = g.size(1, 3);
    let (types, root) = gen_types(g, depth);
    let stext = schema_text(g, &types, &root);
    let mut doc = conform(g, &types, &root, 6);
    if g.chance(3, 5) {
        for _ in 0..g.size(1, 3) {
            mutate(g, &mut doc);
        }
    }
    let es = match doc {
        V::Obj(es) => es,
        _ => vec![],
    };
    let d = render(g, FULL, es);
    g.set_input(format!("{stext}\n=====\n{}", d.text));
    g.nontrivial = size_of(&d.tree) >= 4 && size_sc(&root) >= 3;
    let schema = read(&stext)?;
    let value = match styx_tree::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("doc-rejected", "{e}"),
    };
    let t = T { v: TV::Obj(join_paths(d.tree)), span: (u32::MAX, u32::MAX) };
    let r = facet_styx::validate(&value, &schema);
    match compare("", &types, &t, &root, &r)? {
        None => g.label("open"),
        Some(true) => g.label("conforming"),
        Some(false) => g.label("nonconforming"),
    }
    suggestions(&r)?;
    // Every named type, on the values of the root's entries.
    if let (TV::Obj(es), Some(obj)) = (&t.v, value.with_joined_paths().as_object()) {
        for (n, s) in &types.0 {
            for (te, e) in es.iter().zip(&obj.entries) {
                let r = facet_styx::validate_as(&e.value, &schema, n);
                compare("type-", &types, &te.val, s, &r)?;
            }
        }
    }
    // The schema written and read again gives the same verdict.
    if !has_at(&root) && !types.0.iter().any(|t| has_at(&t.1)) {
        let text = match facet_styx::to_string(&schema) {
            Ok(t) => t,
            Err(e) => bail!("schema-not-written", "{e:?}"),
        };
        let again = match facet_styx::from_str::<SchemaFile>(&text) {
            Ok(s) => s,
            Err(e) => bail!("written-schema-rejected", "{e}\n{text}"),
        };
        let r2 = facet_styx::validate(&value, &again);
        ensure!(got(&r) == got(&r2), "written-schema-differs", "{:?}\n   and {:?}\n{text}", got(&r), got(&r2));
    }
    Ok(())
}

fn p13_scalars(g: &mut G) -> R {
    let s = scalar_type(g);
    let s = match g.below(6) {
        0 => Sc::Opt(Box::new(s)),
        1 => Sc::OneOf(Box::new(Sc::Str(None, None)), (0..g.size(0, 3)).map(|_| any_text(g)).collect()),
        2 => Sc::Enum(vec![("a".into(), s), ("b".into(), scalar_type(g))]),
        _ => s,
    };
    let v = if g.chance(1, 4) { random_leaf(g) } else { conform(g, &Types(vec![]), &s, 3) };
    let root = Sc::Obj(vec![("v".into(), s)], None);
    let types = Types(vec![]);
    let stext = schema_text(g, &types, &root);
    let d = render(g, FULL, vec![E { key: K::Scalar("v".into()), val: v, doc: vec![] }]);
    g.set_input(format!("{stext}\n=====\n{}", d.text));
    let schema = read(&stext)?;
    let value = match styx_tree::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("doc-rejected", "{e}"),
    };
    let t = T { v: TV::Obj(join_paths(d.tree)), span: (u32::MAX, u32::MAX) };
    match compare("", &types, &t, &root, &facet_styx::validate(&value, &schema))? {
        None => g.label("open"),
        Some(true) => g.label("conforming"),
        Some(false) => g.label("nonconforming"),
    }
    Ok(())
}

/// A schema whose types may refer to themselves, perhaps damaged, and a document for it.
pub fn twisted(g: &mut G) -> (String, Vec<E>) {
    let (mut types, root) = gen_types(g, 2);
    // Types that refer to themselves without consuming anything
    if g.coin() {
        let n = types.0.len();
        for i in 0..n {
            let to = Sc::Ref(types.0[g.below(n as u64) as usize].0.clone());
            if g.coin() {
                types.0[i].1 = match g.below(8) {
                    6 => Sc::Seq(Box::new(to)),
                    7 => Sc::Enum(vec![("ok".into(), to), ("a".into(), Sc::Ref(types.0[0].0.clone()))]),
                    0 => to,
                    1 => Sc::Opt(Box::new(to)),
                    2 => Sc::Union(vec![to, Sc::Bool]),
                    3 => Sc::Deprecated("x".into(), Box::new(to)),
                    4 => Sc::Obj(vec![("a".into(), Sc::Flatten(types.0[0].0.clone())), ("b".into(), to)], None),
                    _ => Sc::OneOf(Box::new(to), vec!["a".into()]),
                };
            }
        }
    }
    let mut stext = schema_text(g, &types, &root);
    if g.coin() {
        for _ in 0..g.size(1, 3) {
            stext = damage(g, &stext);
        }
    }
    let V::Obj(es) = (match conform(g, &types, &root, 5) {
        V::Obj(es) => V::Obj(es),
        _ => V::Obj(vec![]),
    }) else {
        unreachable!()
    };
    (stext, es)
}

fn p13_robust(g: &mut G) -> R {
    let (stext, es) = twisted(g);
    let d = render(g, FULL, es);
    g.set_input(format!("{stext}\n=====\n{}", d.text));
    let Ok(schema) = facet_styx::from_str::<SchemaFile>(&stext) else {
        g.nontrivial = false;
        return Ok(());
    };
    let value = match styx_tree::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("doc-rejected", "{e}"),
    };
    let r = facet_styx::validate(&value, &schema);
    let again = read(&stext)?;
    let r2 = facet_styx::validate(&value, &again);
    ensure!(got(&r) == got(&r2), "verdict-not-determined", "{:?}\n   and {:?}", got(&r), got(&r2));
    if let Some(obj) = value.as_object() {
        for n in schema.schema.keys().flatten() {
            for e in &obj.entries {
                facet_styx::validate_as(&e.value, &schema, n);
            }
        }
    }
    facet_styx::to_string(&schema).ok();
    Ok(())
}

pub fn oracle(name: &str) -> Option<super::Oracle> {
    Some(match name {
        // schema text, "=====", document, "=====", "valid" or "invalid"
        "schema-verdict" => |t, _| {
            let mut it = t.split("\n=====\n");
            let (s, d, want) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or("").trim());
            let schema = read(s)?;
            let v = styx_tree::parse(d).map_err(|e| Fail { kind: "doc-rejected".into(), msg: format!("{e}") })?;
            let r = facet_styx::validate(&v, &schema);
            match (want, r.is_valid()) {
                ("valid", false) => bail!("conforming-rejected", "{:?}", r.errors),
                ("invalid", true) => bail!("nonconforming-accepted", "no error reported"),
                _ => Ok(()),
            }
        },
        "schema-rewrite" => |t, _| {
            let (s, d) = t.split_once("\n=====\n").unwrap_or((t, ""));
            let schema = read(s)?;
            let again = read(&facet_styx::to_string(&schema).map_err(|e| Fail { kind: "schema-not-written".into(), msg: format!("{e:?}") })?)?;
            let v = styx_tree::parse(d).map_err(|e| Fail { kind: "doc-rejected".into(), msg: format!("{e}") })?;
            let (a, b) = (got(&facet_styx::validate(&v, &schema)), got(&facet_styx::validate(&v, &again)));
            ensure!(a == b, "written-schema-differs", "{a:?}\n   and {b:?}");
            Ok(())
        },
        _ => return None,
    })
}
