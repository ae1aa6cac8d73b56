//! Typed values through facet-styx and serde_styx.
use super::value::{check, options};
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use facet::Facet;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P09", name: "roundtrip", quick: 800_000, thorough: 8_000_000, run: p09_roundtrip, shrink: 3000, rule: "typed values of a random type of the family; non-trivial: at least 4 nodes" },
    Suite { prop: "P10", name: "roundtrip", quick: 800_000, thorough: 8_000_000, run: p10_roundtrip, shrink: 3000, rule: "typed values of a random type of the family; non-trivial: at least 4 nodes" },
    Suite { prop: "P09", name: "read", quick: 800_000, thorough: 8_000_000, run: p09_read, shrink: 3000, rule: "documents that spell a typed value in random ways; non-trivial: at least 4 nodes" },
    Suite { prop: "P10", name: "read", quick: 800_000, thorough: 8_000_000, run: p10_read, shrink: 3000, rule: "documents that spell a typed value in random ways; non-trivial: at least 4 nodes" },
    Suite { prop: "P10", name: "any", quick: 800_000, thorough: 8_000_000, run: p10_any, shrink: 3000, rule: "documents without tags, read without knowing their type; non-trivial: at least 4 nodes" },
    Suite { prop: "P11", name: "write", quick: 800_000, thorough: 8_000_000, run: p11_write, shrink: 3000, rule: "typed values of a random type of the family; non-trivial: at least 4 nodes" },
    Suite { prop: "P11", name: "read", quick: 800_000, thorough: 8_000_000, run: p11_read, shrink: 3000, rule: "documents that spell a typed value, two thirds of them damaged; non-trivial: at least 8 bytes" },
    Suite { prop: "P12", name: "scalars", quick: 6_400_000, thorough: 51_200_000, run: p12_scalars, shrink: 3000, rule: "numbers, booleans and characters near the limits of a type in a random spelling; non-trivial: not a plain small integer" },
];

pub trait Ty: Debug + Sized {
    fn make(g: &mut G, d: usize) -> Self;
    fn sem(&self) -> S;
}
pub fn key(s: &str) -> SKey {
    SKey { tag: None, text: Some(s.to_string()) }
}
macro_rules! num {
    ($($t:ty),*) => { $(impl Ty for $t {
        fn make(g: &mut G, _: usize) -> Self {
            match g.below(5) { 0 => 0, 1 => <$t>::MAX, 2 => <$t>::MIN, 3 => g.below(200) as $t, _ => g.u64() as $t }
        }
        fn sem(&self) -> S { S::Scalar(self.to_string()) }
    })* };
}
num!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
impl Ty for u128 {
    fn make(g: &mut G, _: usize) -> Self {
        match g.below(4) { 0 => g.below(100) as u128, 1 => u128::MAX, 2 => g.u64() as u128, _ => (g.u64() as u128) << 64 | g.u64() as u128 }
    }
    fn sem(&self) -> S { S::Scalar(self.to_string()) }
}
impl Ty for i128 {
    fn make(g: &mut G, _: usize) -> Self {
        match g.below(5) { 0 => g.below(100) as i128, 1 => i128::MAX, 2 => i128::MIN, 3 => g.u64() as i64 as i128, _ => ((g.u64() as u128) << 64 | g.u64() as u128) as i128 }
    }
    fn sem(&self) -> S { S::Scalar(self.to_string()) }
}
impl Ty for bool {
    fn make(g: &mut G, _: usize) -> Self { g.coin() }
    fn sem(&self) -> S { S::Scalar(self.to_string()) }
}
impl Ty for f64 {
    fn make(g: &mut G, _: usize) -> Self {
        match g.below(5) {
            0 => 0.0,
            1 => *g.pick(&[-0.0, 1.5, 1e300, -1e-300, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 0.1, 1e21, 123456789.125]),
            2 => g.below(1000) as f64 / 8.0,
            3 => f64::from_bits(g.u64()),
            _ => g.u64() as i64 as f64,
        }
    }
    fn sem(&self) -> S { S::Scalar(self.to_string()) }
}
impl Ty for f32 {
    fn make(g: &mut G, _: usize) -> Self {
        match g.below(4) {
            0 => 0.0,
            1 => *g.pick(&[-0.0, 1.5, 1e30, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NAN, 0.1, 16777217.0]),
            2 => g.below(1000) as f32 / 8.0,
            _ => f32::from_bits(g.u64() as u32),
        }
    }
    fn sem(&self) -> S { S::Scalar((*self as f64).to_string()) }
}
impl Ty for char {
    fn make(g: &mut G, _: usize) -> Self { any_text(g).chars().next().unwrap_or('x') }
    fn sem(&self) -> S { S::Scalar(self.to_string()) }
}
impl Ty for String {
    fn make(g: &mut G, _: usize) -> Self { any_text(g) }
    fn sem(&self) -> S { S::Scalar(self.clone()) }
}
impl<T: Ty> Ty for Option<T> {
    fn make(g: &mut G, d: usize) -> Self { if g.chance(2, 3) || !NONES.get() { Some(T::make(g, d)) } else { None } }
    fn sem(&self) -> S { self.as_ref().map(|x| x.sem()).unwrap_or(S::Unit) }
}
impl<T: Ty> Ty for Box<T> {
    fn make(g: &mut G, d: usize) -> Self { Box::new(T::make(g, d)) }
    fn sem(&self) -> S { (**self).sem() }
}
impl<T: Ty> Ty for Vec<T> {
    fn make(g: &mut G, d: usize) -> Self {
        let n = if d == 0 { 0 } else { g.size(0, 4) };
        (0..n).map(|_| T::make(g, d - 1)).collect()
    }
    fn sem(&self) -> S { S::Seq(self.iter().map(|x| x.sem()).collect()) }
}
/// Types of map keys.
pub trait KeyTy: Ord + Debug {
    fn make_key(g: &mut G) -> Self;
    fn text(&self) -> String;
}
macro_rules! keys {
    ($($t:ty),*) => { $(impl KeyTy for $t {
        fn make_key(g: &mut G) -> Self { <$t as Ty>::make(g, 0) }
        fn text(&self) -> String { self.to_string() }
    })* };
}
keys!(String, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, bool, char);
impl KeyTy for Plain {
    fn make_key(g: &mut G) -> Self { Ty::make(g, 0) }
    fn text(&self) -> String {
        let S::Tag(n, _) = self.sem() else { unreachable!() };
        n
    }
}
#[derive(Facet, Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
#[facet(transparent)]
pub struct Name(pub String);
impl KeyTy for Name {
    fn make_key(g: &mut G) -> Self { Name(any_text(g)) }
    fn text(&self) -> String { self.0.clone() }
}
impl<N: KeyTy, T: Ty> Ty for BTreeMap<N, T> {
    fn make(g: &mut G, d: usize) -> Self {
        let n = if d == 0 { 0 } else { g.size(0, 3) };
        (0..n).map(|_| (N::make_key(g), T::make(g, d - 1))).collect()
    }
    fn sem(&self) -> S { S::Obj(self.iter().map(|(k, v)| (key(&k.text()), v.sem(), None)).collect()) }
}
impl<A: Ty, B: Ty> Ty for (A, B) {
    fn make(g: &mut G, d: usize) -> Self { (A::make(g, d), B::make(g, d)) }
    fn sem(&self) -> S { S::Seq(vec![self.0.sem(), self.1.sem()]) }
}
impl<A: Ty, const N: usize> Ty for [A; N] {
    fn make(g: &mut G, d: usize) -> Self { std::array::from_fn(|_| A::make(g, d)) }
    fn sem(&self) -> S { S::Seq(self.iter().map(|x| x.sem()).collect()) }
}

macro_rules! st {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Facet, Serialize, Deserialize, Debug, Clone)]
        pub struct $name { $(pub $f: $t),* }
        impl Ty for $name {
            fn make(g: &mut G, d: usize) -> Self { let d = d.saturating_sub(1); $name { $($f: <$t>::make(g, d)),* } }
            fn sem(&self) -> S { fields(vec![$((stringify!($f).trim_start_matches("r#"), self.$f.sem())),*]) }
        }
    };
}
/// The fields of a struct (as opposed to the entries of a map), marked as such.
const FIELD: &str = "field";
pub fn fields(v: Vec<(&str, S)>) -> S {
    S::Obj(v.into_iter().map(|(k, x)| (key(k), x, Some(FIELD.to_string()))).collect())
}
thread_local! {
    /// Whether this case may hold `None`.
    /// Whether documents may have entries that no field of the type is for.
    pub static UNKNOWN: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
    pub static NONES: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

st!(Ints { a: i8, b: u8, c: i16, d: u16, e: i32, f: u32, g: i64, h: u64, i: isize, j: usize });
st!(Wide { a: i128, b: u128 });
st!(Scalars { flag: bool, c: char, s: String, x: f64, y: f32, n: i32 });
st!(Strs { a: String, b: String, c: String });
st!(Inner { x: i32, y: String });
st!(Empty {});
st!(Opts { a: Option<i32>, s: Option<String>, b: Option<bool>, v: Option<Vec<i32>>, n: Option<Inner>, f: Option<f64> });
st!(Colls { v: Vec<String>, vv: Vec<Vec<i32>>, m: BTreeMap<String, i32>, mm: BTreeMap<String, Inner>, mv: BTreeMap<String, Vec<String>>, s: Vec<Inner> });
st!(Tuples { t: (i32, String), a: [u8; 3], v: Vec<(String, bool)> });
st!(Nest { name: String, inner: Inner, list: Vec<Nest>, map: BTreeMap<String, Nest>, opt: Option<Box<Inner>>, e: Empty });
st!(Enums { e: Shape, v: Vec<Shape>, m: BTreeMap<String, Shape>, o: Option<Shape> });
st!(Plains { p: Plain, v: Vec<Plain>, o: Option<Plain>, t: (Plain, i32) });

#[derive(Facet, Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Plain {
    Red,
    Green,
    #[facet(rename = "dark-blue")]
    #[serde(rename = "dark-blue")]
    Blue,
}
impl Ty for Plain {
    fn make(g: &mut G, _: usize) -> Self { g.pick(&[Plain::Red, Plain::Green, Plain::Blue]).clone() }
    fn sem(&self) -> S {
        S::Tag(match self { Plain::Red => "Red", Plain::Green => "Green", Plain::Blue => "dark-blue" }.into(), None)
    }
}

#[derive(Facet, Serialize, Deserialize, Debug, Clone)]
#[facet(rename_all = "snake_case")]
#[serde(rename_all = "snake_case")]
#[repr(u8)]
pub enum Shape {
    Nothing,
    Text(String),
    Number(i64),
    Flag(bool),
    Real(f64),
    Named(Inner),
    List(Vec<i32>),
    Words(Vec<String>),
    Map(BTreeMap<String, i32>),
    Pair(i32, String),
    Point { x: i32, label: String },
    Deep { inner: Inner, more: Vec<Shape> },
    Kind(Plain),
    Chain(Box<Shape>),
    Maybe { o: Option<i32>, p: Option<Plain> },
}
impl Ty for Shape {
    fn make(g: &mut G, d: usize) -> Self {
        let e = d.saturating_sub(1);
        match g.below(if d == 0 { 5 } else { 15 }) {
            0 => Shape::Nothing,
            1 => Shape::Text(any_text(g)),
            2 => Shape::Number(i64::make(g, e)),
            3 => Shape::Flag(g.coin()),
            4 => Shape::Real(f64::make(g, e)),
            5 => Shape::Named(Inner::make(g, e)),
            6 => Shape::List(Ty::make(g, e)),
            7 => Shape::Words(Ty::make(g, e)),
            8 => Shape::Map(Ty::make(g, e)),
            9 => Shape::Pair(i32::make(g, e), any_text(g)),
            10 => Shape::Point { x: i32::make(g, e), label: any_text(g) },
            11 => Shape::Deep { inner: Inner::make(g, e), more: Ty::make(g, e) },
            12 => Shape::Kind(Plain::make(g, e)),
            13 => Shape::Maybe { o: Ty::make(g, e), p: Ty::make(g, e) },
            _ => Shape::Chain(Ty::make(g, e)),
        }
    }
    fn sem(&self) -> S {
        let t = |n: &str, p: S| S::Tag(n.to_string(), Some(Box::new(p)));
        match self {
            Shape::Nothing => S::Tag("nothing".into(), None),
            Shape::Text(x) => t("text", x.sem()),
            Shape::Number(x) => t("number", x.sem()),
            Shape::Flag(x) => t("flag", x.sem()),
            Shape::Real(x) => t("real", x.sem()),
            Shape::Named(x) => t("named", x.sem()),
            Shape::List(x) => t("list", x.sem()),
            Shape::Words(x) => t("words", x.sem()),
            Shape::Map(x) => t("map", x.sem()),
            Shape::Pair(a, b) => t("pair", S::Seq(vec![a.sem(), b.sem()])),
            Shape::Point { x, label } => t("point", fields(vec![("x", x.sem()), ("label", label.sem())])),
            Shape::Deep { inner, more } => t("deep", fields(vec![("inner", inner.sem()), ("more", more.sem())])),
            Shape::Kind(x) => t("kind", x.sem()),
            Shape::Maybe { o, p } => t("maybe", fields(vec![("o", o.sem()), ("p", p.sem())])),
            Shape::Chain(x) => t("chain", x.sem()),
        }
    }
}


st!(IntKeys { m: BTreeMap<i64, String>, b: BTreeMap<bool, i32> });
st!(WideKeys { a: BTreeMap<u64, i32>, b: BTreeMap<usize, Inner>, c: BTreeMap<isize, i32>, d: BTreeMap<u32, Vec<i32>>, e: BTreeMap<i32, bool> });
st!(SmallKeys { a: BTreeMap<u8, i32>, b: BTreeMap<i8, Inner>, c: BTreeMap<u16, BTreeMap<i16, i32>> });
st!(OddKeys { c: BTreeMap<char, i32>, n: BTreeMap<Name, Inner>, p: BTreeMap<Plain, String> });
st!(Units { u: (), v: Vec<()>, o: Option<Newtype> });
st!(Odd { n: Newtype, t: Pair, b: Box<i32>, vo: Vec<Option<i32>>, s: BTreeSet<String>, r#type: String });
impl Ty for () {
    fn make(_: &mut G, _: usize) -> Self {}
    fn sem(&self) -> S { S::Unit }
}
#[derive(Facet, Serialize, Deserialize, Debug, Clone)]
#[facet(transparent)]
pub struct Newtype(pub i32);
impl Ty for Newtype {
    fn make(g: &mut G, d: usize) -> Self { Newtype(Ty::make(g, d)) }
    fn sem(&self) -> S { self.0.sem() }
}
#[derive(Facet, Serialize, Deserialize, Debug, Clone)]
pub struct Pair(pub i32, pub String);
impl Ty for Pair {
    fn make(g: &mut G, d: usize) -> Self { Pair(Ty::make(g, d), Ty::make(g, d)) }
    fn sem(&self) -> S { S::Seq(vec![self.0.sem(), self.1.sem()]) }
}
impl Ty for BTreeSet<String> {
    fn make(g: &mut G, d: usize) -> Self { Vec::<String>::make(g, d).into_iter().collect() }
    fn sem(&self) -> S { S::Seq(self.iter().map(|x| x.sem()).collect()) }
}
#[derive(Facet, Serialize, Deserialize, Debug, Clone)]
#[facet(rename_all = "kebab-case")]
#[serde(rename_all = "kebab-case")]
pub struct Renamed {
    pub first_name: String,
    #[facet(rename = "odd key!")]
    #[serde(rename = "odd key!")]
    pub odd: i32,
    #[facet(rename = "a.b")]
    #[serde(rename = "a.b")]
    pub dotted: Inner,
    #[facet(default)]
    #[serde(default)]
    pub with_default: u16,
    #[facet(default = 7)]
    #[serde(default = "seven")]
    pub with_seven: i32,
    #[facet(default)]
    #[serde(default)]
    pub list_default: Vec<String>,
}
fn seven() -> i32 { 7 }
impl Ty for Renamed {
    fn make(g: &mut G, d: usize) -> Self {
        let e = d.saturating_sub(1);
        Renamed {
            first_name: Ty::make(g, e),
            odd: Ty::make(g, e),
            dotted: Ty::make(g, e),
            with_default: if g.coin() { 0 } else { Ty::make(g, e) },
            with_seven: if g.coin() { 7 } else { Ty::make(g, e) },
            list_default: Ty::make(g, e),
        }
    }
    fn sem(&self) -> S {
        let S::Obj(mut v) = fields(vec![("first-name", self.first_name.sem()), ("odd key!", self.odd.sem()), ("a.b", self.dotted.sem()), ("with-default", self.with_default.sem()), ("with-seven", self.with_seven.sem()), ("list-default", self.list_default.sem())]) else { unreachable!() };
        // Fields that may be left out
        for (i, d) in [self.with_default == 0, self.with_seven == 7, self.list_default.is_empty()].into_iter().enumerate() {
            if d {
                v[3 + i].2 = Some(OPTIONAL.to_string());
            }
        }
        S::Obj(v)
    }
}
pub const OPTIONAL: &str = "optional field";

pub fn has_chain(s: &S) -> bool {
    match s {
        S::Seq(v) => v.iter().any(has_chain),
        S::Obj(v) => v.iter().any(|e| has_chain(&e.1)),
        S::Tag(_, Some(p)) => matches!(**p, S::Tag(..)) || has_chain(p),
        _ => false,
    }
}
/// A unit that no tag encloses: `@`, which facet-styx does not read as `None` (known finding).
fn has_unit(s: &S) -> bool {
    match s {
        S::Unit => true,
        S::Seq(v) => v.iter().any(has_unit),
        S::Obj(v) => v.iter().any(|e| has_unit(&e.1)),
        _ => false,
    }
}
/// The same where it cannot be left out.
pub fn bare_unit(s: &S) -> bool {
    match s {
        S::Unit => true,
        S::Seq(v) => v.iter().any(bare_unit),
        S::Obj(v) => v.iter().any(|e| bare_unit(&e.1) && !(e.1 == S::Unit && e.2.is_some())),
        _ => false,
    }
}
pub fn nodes(v: &S) -> usize {
    1 + match v {
        S::Seq(x) => x.iter().map(nodes).sum(),
        S::Obj(x) => x.iter().map(|e| 1 + nodes(&e.1)).sum(),
        S::Tag(_, Some(p)) => nodes(p),
        _ => 0,
    }
}

/// What was written means the value, for every reader of the tree.
fn written(want: &S, out: &str, expr: bool) -> R {
    if has_chain(want) {
        // The tree keeps only the first tag of a chain
        return Ok(());
    }
    let want = drop_docs(want);
    if expr {
        let doc = format!("k {out}\n");
        return check(&S::Obj(vec![(key("k"), want, None)]), &doc);
    }
    check(&want, out)
}

fn ser(e: impl std::fmt::Display) -> Fail {
    Fail { kind: "not-written".into(), msg: e.to_string() }
}
fn same<T: Debug, E: std::fmt::Display>(what: &str, v: &T, back: Result<T, E>, out: &str) -> R {
    match back {
        Ok(b) => ensure!(format!("{b:?}") == format!("{v:?}"), "value-changed", "{what} {out:?} reads back as {b:?}"),
        Err(e) => bail!("output-rejected", "{e}; {what} {out:?}"),
    }
    Ok(())
}

fn facet_case<T: Ty + Facet<'static>>(g: &mut G) -> R {
    NONES.set(g.chance(1, 4));
    let d = g.size(0, 4);
    let v = T::make(g, d);
    let want = v.sem();
    g.nontrivial = nodes(&want) >= 4;
    let o = options(g);
    let mode = g.below(4);
    g.set_input(format!("mode {mode} {o:?} {v:?}"));
    let (out, back) = match mode {
        0 => {
            let out = facet_styx::to_string(&v).map_err(ser)?;
            (out.clone(), facet_styx::from_str::<T>(&out))
        }
        1 => {
            let out = facet_styx::to_string_with_options(&v, &o).map_err(ser)?;
            (out.clone(), facet_styx::from_str::<T>(&out))
        }
        2 => {
            let out = facet_styx::to_string_compact(&v).map_err(ser)?;
            (out.clone(), facet_styx::from_str::<T>(&out))
        }
        _ => {
            let out = facet_styx::peek_to_string_expr(facet_reflect::Peek::new(&v)).map_err(ser)?;
            (out.clone(), facet_styx::from_str_expr::<T>(&out))
        }
    };
    g.input.push_str(&format!("\n  output {out:?}"));
    written(&want, &out, mode == 3)?;
    if has_unit(&want) {
        g.label("none");
        return Ok(());
    }
    same("output", &v, back, &out)
}

fn serde_case<T: Ty + Serialize + DeserializeOwned>(g: &mut G) -> R {
    NONES.set(true);
    let d = g.size(0, 4);
    let v = T::make(g, d);
    let want = v.sem();
    g.nontrivial = nodes(&want) >= 4;
    let o = options(g);
    let mode = g.below(3);
    g.set_input(format!("mode {mode} {o:?} {v:?}"));
    let out = match mode {
        0 => serde_styx::to_string(&v),
        1 => serde_styx::to_string_with_options(&v, &o),
        _ => serde_styx::to_string_compact(&v),
    }
    .map_err(ser)?;
    g.input.push_str(&format!("\n  output {out:?}"));
    written(&want, &out, false)?;
    same("output", &v, serde_styx::from_str::<T>(&out), &out)
}

pub const SPELL: Cfg = FULL;

/// One of the many documents that mean the value: fields in any order, optional ones left out,
/// unknown ones added.
pub fn spell(g: &mut G, s: &S, unit: bool) -> V {
    match s {
        S::Scalar(t) => V::Scalar(t.clone()),
        S::Unit => V::Unit,
        S::Seq(v) => V::Seq(v.iter().map(|x| spell(g, x, unit)).collect()),
        S::Tag(n, p) => V::Tag(n.clone(), p.as_ref().map(|p| Box::new(spell(g, p, true)))),
        S::Obj(es) => {
            let record = es.first().is_some_and(|e| e.2.is_some());
            let mut out = vec![];
            for (k, x, m) in es {
                let leave_out = record && ((*x == S::Unit && k.text.as_deref() != Some("u") && (!unit || g.coin())) || (m.as_deref() == Some(OPTIONAL) && g.coin()));
                if !leave_out {
                    out.push(E { key: K::Scalar(k.text.clone().unwrap()), val: spell(g, x, unit), doc: gen_doc(g, &SPELL) });
                }
            }
            if record && UNKNOWN.get() && g.chance(1, 6) {
                let val = gen_val(g, &Cfg { chains: true, ..SPELL }, 2);
                out.push(E { key: K::Scalar("unknown".into()), val, doc: vec![] });
                g.label("unknown-field");
            }
            for i in (1..out.len()).rev() {
                let j = g.below(i as u64 + 1) as usize;
                out.swap(i, j);
            }
            V::Obj(out)
        }
    }
}
fn spelled(g: &mut G, want: &S, unit: bool) -> String {
    let V::Obj(mut es) = spell(g, want, unit) else { unreachable!() };
    if g.chance(1, 8) {
        let val = if g.coin() { V::Scalar("id".into()) } else { gen_val(g, &SPELL, 2) };
        let at = g.below(es.len() as u64 + 1) as usize;
        es.insert(at, E { key: K::Tag("schema".into()), val, doc: vec![] });
        g.label("schema-declaration");
    }
    render(g, SPELL, es).text
}

fn facet_read<T: Ty + Facet<'static>>(g: &mut G) -> R {
    NONES.set(true);
    let d = g.size(0, 4);
    let v = T::make(g, d);
    let want = v.sem();
    g.nontrivial = nodes(&want) >= 4;
    let text = spelled(g, &want, false);
    g.set_input(format!("{text:?} for {v:?}"));
    if bare_unit(&want) {
        g.label("none");
        return Ok(());
    }
    same("document", &v, facet_styx::from_str::<T>(&text), &text)
}
fn serde_read<T: Ty + DeserializeOwned>(g: &mut G) -> R {
    NONES.set(true);
    let d = g.size(0, 4);
    let v = T::make(g, d);
    let want = v.sem();
    g.nontrivial = nodes(&want) >= 4;
    let text = spelled(g, &want, true);
    g.set_input(format!("{text:?} for {v:?}"));
    same("document", &v, serde_styx::from_str::<T>(&text), &text)
}

macro_rules! choose {
    ($g:expr, $f:ident, [$($t:ty),*]) => {{
        let fs: &[(&'static str, fn(&mut G) -> R)] = &[$((stringify!($t), $f::<$t>)),*];
        let (n, f) = *$g.pick(fs);
        if let Ok(only) = std::env::var("VH_TYPE") && only != n { return Ok(()); }
        $g.label(n);
        f($g).map_err(|e| Fail { kind: format!("{}-{n}", e.kind), msg: e.msg })
    }};
}
macro_rules! family {
    ($name:ident, $f:ident $(, $more:ty)*) => {
        fn $name(g: &mut G) -> R {
            choose!(g, $f, [$($more,)* Ints, Wide, Scalars, Strs, Inner, Empty, Opts, Colls, Tuples, Nest, Enums, Plains, IntKeys, WideKeys, SmallKeys, OddKeys, Odd, Renamed])
        }
    };
}
family!(p09_roundtrip, facet_case);
family!(p10_roundtrip, serde_case, Units);
family!(p09_read, facet_read);
family!(p10_read, serde_read, Units);

family!(p11_write, same_output);
family!(p11_read, same_reading);

fn same_output<T: Ty + Facet<'static> + Serialize>(g: &mut G) -> R {
    NONES.set(true);
    let d = g.size(0, 4);
    let v = T::make(g, d);
    g.nontrivial = nodes(&v.sem()) >= 4;
    let o = options(g);
    let mode = g.below(3);
    g.set_input(format!("mode {mode} {o:?} {v:?}"));
    let (a, b) = match mode {
        0 => (facet_styx::to_string(&v).map_err(ser)?, serde_styx::to_string(&v).map_err(ser)?),
        1 => (facet_styx::to_string_with_options(&v, &o).map_err(ser)?, serde_styx::to_string_with_options(&v, &o).map_err(ser)?),
        _ => (facet_styx::to_string_compact(&v).map_err(ser)?, serde_styx::to_string_compact(&v).map_err(ser)?),
    };
    ensure!(a == b, "outputs-differ", "facet-styx {a:?}, serde_styx {b:?}");
    Ok(())
}

/// A small random edit of a text.
pub fn damage(g: &mut G, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..g.size(1, 2) {
        let at = g.below(cs.len() as u64 + 1) as usize;
        match g.below(4) {
            0 if at < cs.len() => {
                cs.remove(at);
            }
            1 if at < cs.len() => cs[at] = *g.pick(&DAMAGE),
            2 if at < cs.len() => {
                let to = (at + g.below(8) as usize).min(cs.len());
                let piece: Vec<char> = cs[at..to].to_vec();
                cs.splice(at..at, piece);
            }
            _ => cs.insert(at, *g.pick(&DAMAGE)),
        }
    }
    cs.into_iter().collect()
}
const DAMAGE: [char; 26] = ['a', '0', '1', '-', '+', '.', 'e', '"', '@', '{', '}', '(', ')', ',', '\n', ' ', '/', '>', '\\', '#', 'r', '<', '\t', '\r', 'é', '_'];

fn syntax_error(text: &str) -> Option<String> {
    let mut p = styx_parse::Parser::new(text);
    while let Some(e) = p.next_event() {
        if let styx_parse::EventKind::Error { kind } = e.kind {
            return Some(kind.to_string());
        }
    }
    None
}

fn same_reading<T: Ty + Facet<'static> + DeserializeOwned>(g: &mut G) -> R {
    NONES.set(true);
    let d = g.size(0, 3);
    let v = T::make(g, d);
    let text = spelled(g, &v.sem(), false);
    let text = if g.chance(2, 3) { damage(g, &text) } else { text };
    g.nontrivial = text.len() >= 8;
    g.set_input(format!("{text:?}"));
    let a = facet_styx::from_str::<T>(&text);
    let b = serde_styx::from_str::<T>(&text);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            g.label("accepted");
            let (a, b) = (format!("{a:?}"), format!("{b:?}"));
            ensure!(a == b, "readings-differ", "facet-styx {a}, serde_styx {b}");
        }
        (Err(_), Err(_)) => g.label("rejected"),
        // The two differ in what they convert (unit to numbers and strings, tagged keys)
        (Ok(_), Err(_)) => g.label("only facet-styx accepts"),
        (Err(_), Ok(_)) => g.label("only serde_styx accepts"),
    }
    if (a.is_ok() || b.is_ok()) && let Some(e) = syntax_error(&text) {
        bail!("syntax-error-accepted", "{e}; facet-styx {a:?}, serde_styx {:?}", b.map_err(|e| e.to_string()));
    }
    Ok(())
}

#[derive(Facet, Serialize, Deserialize, Debug, Clone)]
pub struct One<T> {
    pub v: T,
}

fn number_text(g: &mut G) -> String {
    const LIMITS: [i128; 16] = [0, i8::MAX as i128, u8::MAX as i128, i16::MAX as i128, u16::MAX as i128, i32::MAX as i128, u32::MAX as i128, i64::MAX as i128, u64::MAX as i128, i128::MAX, 1 << 53, 100, 1 << 24, 1000000, 1 << 100, 7];
    match g.weighted(&[8, 2, 3, 3, 2]) {
        0 => {
            let n = *g.pick(&LIMITS);
            let n = n.checked_add(g.range(-2, 2) as i128).unwrap_or(n);
            let n = if g.coin() { n.wrapping_neg() } else { n };
            let mut t = n.to_string();
            match g.below(12) {
                0 => t = format!("+{t}"),
                1 => t = format!("00{t}"),
                2 => t.push_str(".0"),
                3 => t.push_str("e0"),
                4 => t.push('_'),
                5 => t = t.replace('-', "\u{2212}"),
                6 => t = format!("0x{t}"),
                7 => t = format!("{t} "),
                _ => {}
            }
            t
        }
        1 => u128::MAX.wrapping_add(g.below(2) as u128).to_string() + g.pick(&["", "0"]),
        2 if g.coin() => {
            // Next to the middle of two neighbouring f32
            let f = f32::from_bits(g.u64() as u32 & 0x7fff_ffff);
            let mid = (f as f64 + f32::from_bits(f.to_bits() + 1) as f64) / 2.0;
            let t = format!("{mid}");
            if t.len() > 60 { format!("{mid:e}") } else if t.contains('.') { t + g.pick(&["", "00000000000000001"]) } else { t + g.pick(&["", ".00000000000000001"]) }
        }
        2 => {
            let bits = g.u64();
            let f = f64::from_bits(bits);
            if g.coin() { format!("{f:e}") } else { format!("{f}") }
        }
        3 => g.pick(&["true", "false", "True", "TRUE", "yes", "on", "1", "0", "null", "none", "nan", "NaN", "inf", "-inf", "infinity", "Infinity", ".5", "5.", "-.5", "1e400", "-1e400", "1e-400", "1e", "e5", "-", "+", ".", "--1", "0x10", "1_000", "1,0", "٣", "１", "", " 1", "1\n", "1e3", "-0", "-0.0", "3.4028236e38", "16777217", "0.1"]).to_string(),
        _ => any_text(g),
    }
}

fn scalar_case<T: std::str::FromStr + Debug + Facet<'static> + DeserializeOwned>(g: &mut G, text: &str) -> R {
    let want = text.parse::<T>().ok().map(|v| format!("{v:?}"));
    let cfg = Cfg { explicit_root: true, ..SPELL };
    let doc = render(g, cfg, vec![E { key: K::Scalar("v".into()), val: V::Scalar(text.to_string()), doc: vec![] }]).text;
    g.set_input(format!("{doc:?} as {}", std::any::type_name::<T>()));
    g.label(if want.is_some() { "in range" } else { "out of range" });
    let a = facet_styx::from_str::<One<T>>(&doc);
    let b = serde_styx::from_str::<One<T>>(&doc);
    let got = [("facet-styx", a.map(|x| format!("{:?}", x.v)).map_err(|e| e.to_string())), ("serde_styx", b.map(|x| format!("{:?}", x.v)).map_err(|e| e.to_string()))];
    for (who, r) in got {
        match (r, &want) {
            (Ok(a), Some(w)) => ensure!(a == *w, "misread", "{who} reads {a}, not {w}"),
            (Ok(a), None) => bail!("not-rejected", "{who} reads {a}"),
            (Err(e), Some(w)) => bail!("rejected", "{who} does not read {w}: {e}"),
            (Err(_), None) => {}
        }
    }
    Ok(())
}
fn p12_scalars(g: &mut G) -> R {
    let text = number_text(g);
    g.nontrivial = !(text.len() < 3 && text.bytes().all(|b| b.is_ascii_digit()));
    macro_rules! types { ($($t:ty),*) => {{
        let fs: &[(&'static str, fn(&mut G, &str) -> R)] = &[$((stringify!($t), scalar_case::<$t>)),*];
        let (n, f) = *g.pick(fs);
        g.label(n);
        f(g, &text).map_err(|e| Fail { kind: format!("{}-{n}", e.kind), msg: e.msg })
    }}; }
    types!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, f32, f64, bool, char, String)
}

/// A document read as self-describing data.
fn json(t: &TV) -> serde_json::Value {
    use serde_json::Value as J;
    match t {
        TV::Unit => J::Null,
        TV::Seq(v) => J::Array(v.iter().map(|x| json(&x.v)).collect()),
        TV::Obj(es) => json_object(es),
        TV::Tag { .. } => unreachable!(),
        TV::Scalar { kind: SK::Bare, text } => match text.as_str() {
            "true" => J::Bool(true),
            "false" => J::Bool(false),
            "null" => J::Null,
            t => {
                if let Ok(n) = t.parse::<i64>() {
                    n.into()
                } else if let Ok(n) = t.parse::<u64>() {
                    n.into()
                } else if let Ok(f) = t.parse::<f64>() {
                    f.into()
                } else {
                    J::String(t.to_string())
                }
            }
        },
        TV::Scalar { text, .. } => J::String(text.clone()),
    }
}
fn json_object(es: &[TE]) -> serde_json::Value {
    serde_json::Value::Object(es.iter().map(|e| (e.key.payload.as_ref().unwrap().1.clone(), json(&e.val.v))).collect())
}
fn numbers(g: &mut G, v: &mut V) {
    match v {
        V::Scalar(t) if g.chance(1, 2) => *t = number_text(g),
        V::Seq(x) => x.iter_mut().for_each(|x| numbers(g, x)),
        V::Obj(x) => x.iter_mut().for_each(|x| numbers(g, &mut x.val)),
        _ => {}
    }
}
fn p10_any(g: &mut G) -> R {
    let c = Cfg { odd_keys: false, tags: false, chains: false, ..SPELL };
    let d = g.size(0, 4);
    let mut es = gen_entries(g, &c, d);
    es.iter_mut().for_each(|e| numbers(g, &mut e.val));
    let unit = !es.is_empty() && g.chance(1, 5);
    if unit {
        let i = g.below(es.len() as u64) as usize;
        es[i].key = K::Unit;
        g.label("unit key");
    }
    let doc = render(g, c, es);
    let tree = join_paths(doc.tree);
    g.nontrivial = size_of(&tree) >= 4;
    g.set_input(format!("{:?}", doc.text));
    if unit {
        let want: BTreeMap<Option<String>, serde_json::Value> = tree.iter().map(|e| (e.key.payload.as_ref().map(|p| p.1.clone()), json(&e.val.v))).collect();
        match serde_styx::from_str::<BTreeMap<Option<String>, serde_json::Value>>(&doc.text) {
            Ok(got) => ensure!(got == want, "misread-unit-key", "read as {got:?}, not {want:?}"),
            Err(e) => bail!("rejected-unit-key", "{e}"),
        }
        return Ok(());
    }
    let want = json_object(&tree);
    match serde_styx::from_str::<serde_json::Value>(&doc.text) {
        Ok(got) => ensure!(got == want, "misread", "read as {got}, not {want}"),
        Err(e) => bail!("rejected", "{e}"),
    }
    Ok(())
}

pub fn oracle(name: &str) -> Option<super::Oracle> {
    Some(match name {
        "facet-option" => |t, _| match facet_styx::from_str::<One<Option<i32>>>(t) {
            Ok(_) => Ok(()),
            Err(e) => bail!("rejected", "{e}"),
        },
        _ => return None,
    })
}
