//! Schemas generated from types accept what the type writes and reads, and reject what it rejects.
use super::typed::*;
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use facet::Facet;
use facet_styx::{SchemaFile, schema_file_from_type, schema_from_type};

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P14", name: "conform", quick: 600_000, thorough: 8_000_000, run: conform, shrink: 3000, rule: "values of a random type, written by facet-styx or spelled at random, against the schema generated from the type; non-trivial: at least 4 nodes" },
    Suite { prop: "P14", name: "mutants", quick: 600_000, thorough: 8_000_000, run: mutants, shrink: 3000, rule: "documents of a value of a random type with one part replaced, removed or added; non-trivial: the type does not read the document" },
];

macro_rules! rec {
    ($name:ident { $($f:ident : $t:ty $(= $d:expr)?),* $(,)? }) => {
        impl Ty for $name {
            fn make(g: &mut G, d: usize) -> Self {
                let d = d.saturating_sub(1);
                $name { $($f: { $(if g.coin() { $d } else)? { <$t>::make(g, d) } }),* }
            }
            fn sem(&self) -> S {
                let v: Vec<(&str, S, bool)> = vec![$((stringify!($f).trim_start_matches("r#"), self.$f.sem(), { let _x = &self.$f; false $(|| format!("{:?}", _x) == format!("{:?}", $d))? })),*];
                let S::Obj(mut o) = fields(v.iter().map(|x| (x.0, x.1.clone())).collect()) else { unreachable!() };
                for (e, x) in o.iter_mut().zip(v) {
                    if x.2 { e.2 = Some(OPTIONAL.to_string()); }
                }
                S::Obj(o)
            }
        }
    };
}

/// The numbers of a thing.
///
/// And more: `"quotes"`, /// slashes, { braces } and @tags.
#[derive(Facet, Debug, Clone)]
pub struct Docs {
    /// One line.
    pub one: i32,
    /// Several
    /// lines
    ///
    ///   indented, with "quotes" \ and @tags.
    pub many: String,
    ///no space
    pub none: Option<bool>,
    /**
     * block style
     */
    pub block: Vec<i32>,
}
rec!(Docs {
    one: i32,
    many: String,
    none: Option<bool>,
    block: Vec<i32>,
});
#[derive(Facet, Debug, Clone)]
#[repr(u8)]
pub enum DocEnum {
    /// One.
    ///
    ///   Two, "quoted" @tag.
    A,
    B,
    ///
    /// After a blank line.
    C(i32),
    /// Of a struct variant.
    D {
        /// Of its field.
        ///
        /// More.
        x: i32,
        y: bool,
    },
}
impl Ty for DocEnum {
    fn make(g: &mut G, d: usize) -> Self {
        match g.below(4) {
            0 => DocEnum::A,
            1 => DocEnum::B,
            2 => DocEnum::C(Ty::make(g, d)),
            _ => DocEnum::D { x: Ty::make(g, d), y: Ty::make(g, d) },
        }
    }
    fn sem(&self) -> S {
        let t = |n: &str, p: S| S::Tag(n.to_string(), Some(Box::new(p)));
        match self {
            DocEnum::A => S::Tag("A".into(), None),
            DocEnum::B => S::Tag("B".into(), None),
            DocEnum::C(x) => t("C", x.sem()),
            DocEnum::D { x, y } => t("D", fields(vec![("x", x.sem()), ("y", y.sem())])),
        }
    }
}
#[derive(Facet, Debug, Clone)]
pub struct DocEnums {
    pub e: DocEnum,
    /// In a list.
    pub v: Vec<DocEnum>,
}
rec!(DocEnums { e: DocEnum, v: Vec<DocEnum> });
#[derive(Facet, Debug, Clone)]
pub struct Defaults {
    #[facet(default = "two\nlines".to_string())]
    pub lines: String,
    #[facet(default = "a \"quoted\" text, with = and > and @x".to_string())]
    pub quoted: String,
    #[facet(default = String::new())]
    pub empty: String,
    #[facet(default = vec![1, 2])]
    pub list: Vec<i32>,
    #[facet(default = Inner { x: 3, y: "a b".to_string() })]
    pub inner: Inner,
    #[facet(default = Shape::Pair(1, "x y".to_string()))]
    pub shape: Shape,
    #[facet(default = Plain::Green)]
    pub plain: Plain,
    #[facet(default = -1.5)]
    pub real: f64,
    #[facet(default = true)]
    pub flag: bool,
    #[facet(default)]
    pub map: BTreeMap<String, i32>,
    #[facet(default = "schema".to_string())]
    pub word: String,
    #[facet(default = '"')]
    pub ch: char,
}
rec!(Defaults {
    lines: String = "two\nlines".to_string(),
    quoted: String = "a \"quoted\" text, with = and > and @x".to_string(),
    empty: String = String::new(),
    list: Vec<i32> = vec![1, 2],
    inner: Inner = Inner { x: 3, y: "a b".to_string() },
    shape: Shape = Shape::Pair(1, "x y".to_string()),
    plain: Plain = Plain::Green,
    real: f64 = -1.5,
    flag: bool = true,
    map: BTreeMap<String, i32> = BTreeMap::<String, i32>::new(),
    word: String = "schema".to_string(),
    ch: char = '"',
});
#[derive(Facet, Debug, Clone)]
pub struct OptDefaults {
    #[facet(default)]
    pub o: Option<i32>,
    #[facet(default = Some(5))]
    pub five: Option<i32>,
    pub p: Option<Plain>,
}
rec!(OptDefaults {
    o: Option<i32> = None::<i32>,
    five: Option<i32> = Some(5),
    p: Option<Plain>,
});
#[derive(Facet, Debug, Clone)]
pub struct Wrap<T> {
    pub v: T,
    pub more: Vec<T>,
}
impl<T: Ty> Ty for Wrap<T> {
    fn make(g: &mut G, d: usize) -> Self {
        Wrap { v: T::make(g, d), more: Ty::make(g, d) }
    }
    fn sem(&self) -> S {
        fields(vec![("v", self.v.sem()), ("more", self.more.sem())])
    }
}
#[derive(Facet, Debug, Clone)]
pub struct Generics {pub a: Wrap<i32>, pub b: Wrap<bool>, pub c: Vec<Wrap<Plain>>, pub d: Option<Wrap<Wrap<i32>>>}
rec!(Generics { a: Wrap<i32>, b: Wrap<bool>, c: Vec<Wrap<Plain>>, d: Option<Wrap<Wrap<i32>>> });
#[derive(Facet, Debug, Clone)]
#[repr(u8)]
pub enum Either<A, B> {
    Left(A),
    Right(B),
}
impl<A: Ty, B: Ty> Ty for Either<A, B> {
    fn make(g: &mut G, d: usize) -> Self {
        if g.coin() { Either::Left(A::make(g, d)) } else { Either::Right(B::make(g, d)) }
    }
    fn sem(&self) -> S {
        match self {
            Either::Left(x) => S::Tag("Left".into(), Some(Box::new(x.sem()))),
            Either::Right(x) => S::Tag("Right".into(), Some(Box::new(x.sem()))),
        }
    }
}
#[derive(Facet, Debug, Clone)]
pub struct Eithers {pub a: Either<i32, bool>, pub b: Either<Inner, Vec<i32>>}
rec!(Eithers { a: Either<i32, bool>, b: Either<Inner, Vec<i32>> });

#[derive(Facet, Debug, Clone)]
pub struct Meters(pub i32);
impl Ty for Meters {
    fn make(g: &mut G, d: usize) -> Self { Meters(Ty::make(g, d)) }
    fn sem(&self) -> S { S::Seq(vec![self.0.sem()]) }
}
#[derive(Facet, Debug, Clone)]
pub struct Tupled {pub p: Pair, pub n: Newtype, pub t: (i32, bool), pub u: (i32, String, Vec<bool>), pub m: Meters}
rec!(Tupled { p: Pair, n: Newtype, t: (i32, bool), u: (i32, String, Vec<bool>), m: Meters });
mod other {
    use super::*;
#[derive(Facet, Debug, Clone)]
pub struct Inner {pub z: bool}
rec!(Inner { z: bool });
}
#[derive(Facet, Debug, Clone)]
pub struct Namesakes {pub a: Inner, pub b: other::Inner, pub c: Vec<other::Inner>}
rec!(Namesakes { a: Inner, b: other::Inner, c: Vec<other::Inner> });
#[derive(Facet, Debug, Clone)]
#[repr(u8)]
pub enum Tree {
    Leaf,
    Node(Box<Tree>, Vec<Tree>),
    Named { name: String, kids: BTreeMap<String, Tree> },
    Maybe(Option<i32>),
    Keyed(BTreeMap<i64, i32>),
    Two((i32, bool)),
}
impl Ty for Tree {
    fn make(g: &mut G, d: usize) -> Self {
        let e = d.saturating_sub(1);
        match g.below(if d == 0 { 1 } else { 6 }) {
            0 => Tree::Leaf,
            1 => Tree::Node(Ty::make(g, e), Ty::make(g, e)),
            2 => Tree::Named { name: Ty::make(g, e), kids: Ty::make(g, e) },
            3 => Tree::Maybe(Ty::make(g, e)),
            4 => Tree::Keyed(Ty::make(g, e)),
            _ => Tree::Two(Ty::make(g, e)),
        }
    }
    fn sem(&self) -> S {
        let t = |n: &str, p: S| S::Tag(n.to_string(), Some(Box::new(p)));
        match self {
            Tree::Leaf => S::Tag("Leaf".into(), None),
            Tree::Node(a, b) => t("Node", S::Seq(vec![a.sem(), b.sem()])),
            Tree::Named { name, kids } => t("Named", fields(vec![("name", name.sem()), ("kids", kids.sem())])),
            Tree::Maybe(None) => S::Tag("Maybe".into(), None),
            Tree::Maybe(x) => t("Maybe", x.sem()),
            Tree::Keyed(x) => t("Keyed", x.sem()),
            Tree::Two(x) => t("Two", x.sem()),
        }
    }
}
#[derive(Facet, Debug, Clone)]
pub struct Trees {pub t: Tree, pub more: Vec<Tree>}
rec!(Trees { t: Tree, more: Vec<Tree> });

#[derive(Facet, Debug, Clone)]
pub struct Common {pub id: i32, pub note: Option<String>, pub inner: Inner}
rec!(Common { id: i32, note: Option<String>, inner: Inner });
#[derive(Facet, Debug, Clone)]
pub struct Flat {
    pub a: i32,
    #[facet(flatten)]
    pub common: Common,
    pub z: Option<bool>,
}
impl Ty for Flat {
    fn make(g: &mut G, d: usize) -> Self {
        Flat { a: Ty::make(g, d), common: Ty::make(g, d), z: Ty::make(g, d) }
    }
    fn sem(&self) -> S {
        let S::Obj(mut v) = fields(vec![("a", self.a.sem()), ("z", self.z.sem())]) else { unreachable!() };
        let S::Obj(c) = self.common.sem() else { unreachable!() };
        v.splice(1..1, c);
        S::Obj(v)
    }
}
#[derive(Facet, Debug, Clone)]
pub struct Flats {pub f: Flat, pub v: Vec<Flat>}
rec!(Flats { f: Flat, v: Vec<Flat> });
#[derive(Facet, Debug, Clone)]
pub struct Rest {
    pub name: String,
    #[facet(flatten)]
    pub rest: BTreeMap<String, i32>,
}
impl Ty for Rest {
    fn make(g: &mut G, d: usize) -> Self {
        let mut r = Rest { name: Ty::make(g, d), rest: Ty::make(g, d) };
        r.rest.remove("name");
        r
    }
    fn sem(&self) -> S {
        let S::Obj(mut v) = fields(vec![("name", self.name.sem())]) else { unreachable!() };
        let S::Obj(c) = self.rest.sem() else { unreachable!() };
        v.extend(c);
        S::Obj(v)
    }
}
#[derive(Facet, Debug, Clone)]
pub struct Rests {pub r: Rest, pub v: Vec<Rest>}
rec!(Rests { r: Rest, v: Vec<Rest> });

macro_rules! family {
    ($g:expr, $f:ident) => {{
        let fs: &[(&'static str, fn(&mut G) -> R)] = types!($f);
        let (n, f) = *$g.pick(fs);
        if let Ok(only) = std::env::var("VH_TYPE") && only != n { return Ok(()); }
        $g.label(n);
        f($g).map_err(|e| Fail { kind: format!("{}-{n}", e.kind), msg: e.msg })
    }};
}
macro_rules! types {
    (mutant_case) => { types!(@ mutant_case, Ints, Wide, Scalars, Strs, Inner, Opts, Colls, Nest, Enums, Plains, IntKeys, Odd, Renamed, Docs, DocEnums, Defaults, OptDefaults, Generics, Eithers, Tupled, Namesakes, Trees, Flat, Flats, Rest, Rests, Maps, Wrap<Tree>) };
    ($f:ident) => { types!(@ $f, Ints, Wide, Scalars, Strs, Inner, Empty, Opts, Colls, Tuples, Nest, Enums, Plains, IntKeys, Odd, Renamed, Docs, DocEnums, Defaults, OptDefaults, Generics, Eithers, Tupled, Namesakes, Trees, Flat, Flats, Rest, Rests, Maps, Wrap<Tree>, UnitsToo) };
    (@ $f:ident, $($t:ty),*) => { &[$((stringify!($t), $f::<$t> as fn(&mut G) -> R)),*] };
}
#[derive(Facet, Debug, Clone)]
pub struct UnitsToo { pub u: (), pub v: Vec<()>, pub o: Option<Newtype> }
rec!(UnitsToo { u: (), v: Vec<()>, o: Option<Newtype> });
type Maps = BTreeMap<String, Inner>;

struct Made {
    text: String,
    /// The schema as generated, and as read from its text.
    direct: SchemaFile,
    read: SchemaFile,
}
thread_local! {
    static SCHEMAS: RefCell<HashMap<&'static str, Result<Rc<Made>, Fail>>> = RefCell::default();
}
fn schema_of<T: Facet<'static> + 'static>() -> Result<Rc<Made>, Fail> {
    let id = std::any::type_name::<T>();
    if let Some(r) = SCHEMAS.with(|s| s.borrow().get(id).cloned()) {
        return r;
    }
    let r = make_schema::<T>().map(Rc::new);
    SCHEMAS.with(|s| s.borrow_mut().insert(id, r.clone()));
    r
}
fn make_schema<T: Facet<'static>>() -> Result<Made, Fail> {
    let text = schema_from_type::<T>();
    let direct = schema_file_from_type::<T>();
    let read: SchemaFile = match facet_styx::from_str(&text) {
        Ok(s) => s,
        Err(e) => bail!("schema-unreadable", "{e}\n{text}"),
    };
    carried(&direct, T::SHAPE.type_identifier)?;
    carried(&read, T::SHAPE.type_identifier)?;
    Ok(Made { text, direct, read })
}

fn errors(doc: &str, s: &SchemaFile) -> Result<Vec<String>, Fail> {
    let v = match styx_tree::parse(doc) {
        Ok(v) => v,
        Err(e) => bail!("not-a-document", "{e}"),
    };
    Ok(facet_styx::validate(&v, s).errors.iter().map(|e| format!("{e:?}")).collect())
}

fn conform_case<T: Ty + Facet<'static>>(g: &mut G) -> R {
    NONES.set(g.chance(1, 2));
    UNKNOWN.set(false);
    let d = g.size(0, 4);
    let v = T::make(g, d);
    let want = v.sem();
    g.nontrivial = nodes(&want) >= 4;
    g.set_input(format!("{v:?}"));
    let s = schema_of::<T>()?;
    if has_chain(&want) || beyond(&want) {
        // The tree keeps only the first tag of a chain; schema numbers are finite and have at most 128 bits
        g.label("no schema value");
        return Ok(());
    }
    let doc = if g.coin() {
        facet_styx::to_string(&v).map_err(|e| Fail { kind: "not-written".into(), msg: format!("{e}") })?
    } else {
        let V::Obj(es) = spell(g, &want, false) else { unreachable!() };
        render(g, SPELL, es).text
    };
    g.input.push_str(&format!("\n  {doc:?}\n  {}", s.text));
    for (what, s) in [("", &s.read), ("-direct", &s.direct)] {
        let e = errors(&doc, s)?;
        ensure!(e.is_empty(), format!("conforming-rejected{what}"), "{e:?}");
    }
    Ok(())
}
fn conform(g: &mut G) -> R {
    family!(g, conform_case)
}

fn mutant_case<T: Ty + Facet<'static>>(g: &mut G) -> R {
    NONES.set(false);
    UNKNOWN.set(false);
    let d = g.size(0, 4);
    let v = T::make(g, d);
    let mut want = v.sem();
    let n = sites(&want);
    let at = g.below(n as u64) as usize;
    if has_chain(&want) {
        return Ok(());
    }
    let mut left = at;
    mutate(g, &mut want, &mut left, true);
    let doc = {
        let V::Obj(es) = spell(g, &want, false) else { return Ok(()) };
        render(g, SPELL, es).text
    };
    if has_chain(&want) {
        return Ok(());
    }
    let s = schema_of::<T>()?;
    let read = facet_styx::from_str::<T>(&doc);
    g.nontrivial = read.is_err();
    g.set_input(format!("{v:?}\n  {doc:?}\n  {}", s.text));
    let e = errors(&doc, &s.read)?;
    match read {
        // facet-styx reads more than it writes: `()` as an empty map, say
        Ok(_) => g.label("read"),
        Err(r) => {
            g.label("not read");
            ensure!(!e.is_empty(), "nonconforming-accepted", "not read: {r}");
        }
    }
    Ok(())
}
fn beyond(s: &S) -> bool {
    match s {
        S::Scalar(t) => ["inf", "-inf", "NaN"].contains(&t.as_str()) || t.parse::<u128>().is_ok_and(|x| x > i128::MAX as u128),
        S::Seq(v) => v.iter().any(beyond),
        S::Obj(v) => v.iter().any(|e| beyond(&e.1)),
        S::Tag(_, Some(p)) => beyond(p),
        _ => false,
    }
}
fn mutants(g: &mut G) -> R {
    family!(g, mutant_case)
}
fn sites(s: &S) -> usize {
    nodes(s)
}
/// Changes the node or entry numbered `left`.
fn mutate(g: &mut G, s: &mut S, left: &mut usize, root: bool) -> bool {
    if *left == 0 {
        if root {
            if let S::Obj(v) = s {
                damage_object(g, v);
            }
            return true;
        }
        damage_node(g, s);
        return true;
    }
    *left -= 1;
    match s {
        S::Seq(v) => v.iter_mut().any(|x| mutate(g, x, left, false)),
        S::Obj(v) => {
            for i in 0..v.len() {
                if *left == 0 {
                    // The entry
                    if g.coin() && v[i].2.is_some() {
                        v.remove(i);
                    } else {
                        damage_node(g, &mut v[i].1);
                    }
                    return true;
                }
                *left -= 1;
                if mutate(g, &mut v[i].1, left, false) {
                    return true;
                }
            }
            false
        }
        S::Tag(_, Some(p)) => mutate(g, p, left, false),
        _ => false,
    }
}
fn damage_object(g: &mut G, v: &mut Vec<(SKey, S, Option<String>)>) {
    if v.is_empty() {
        return;
    }
    let i = g.below(v.len() as u64) as usize;
    if g.coin() {
        v.remove(i);
    } else {
        damage_node(g, &mut v[i].1);
    }
}
fn damage_node(g: &mut G, s: &mut S) {
    if let S::Tag(n, p) = s {
        // Not something untagged: schemas take that for the payload of a variant, the reader does not
        if g.coin() {
            n.push_str("x");
        } else if p.is_some() {
            *p = None;
        } else {
            *p = Some(Box::new(S::Scalar("q".into())));
        }
        return;
    }
    if let S::Seq(v) = s
        && g.coin()
    {
        if g.coin() || v.is_empty() { v.push(S::Tag("q".into(), None)) } else { v.remove(0); }
        return;
    }
    *s = match g.below(5) {
        0 => S::Scalar("q".into()),
        1 => S::Seq(vec![]),
        2 => S::Seq(vec![S::Tag("q".into(), None)]),
        3 => S::Obj(vec![(key("q"), S::Tag("q".into(), None), None)]),
        _ => S::Tag("q".into(), None),
    };
}
impl<A: Ty, B: Ty, C: Ty> Ty for (A, B, C) {
    fn make(g: &mut G, d: usize) -> Self { (A::make(g, d), B::make(g, d), C::make(g, d)) }
    fn sem(&self) -> S { S::Seq(vec![self.0.sem(), self.1.sem(), self.2.sem()]) }
}

/// The documentation and the defaults a generated schema carries.
fn carried(s: &SchemaFile, name: &str) -> R {
    use facet_styx::Schema;
    let Some(Schema::Object(o)) = s.schema.get(&None) else { return Ok(()) };
    let mut docs = BTreeMap::new();
    let mut defaults = BTreeMap::new();
    for (k, v) in &o.0 {
        let field = k.value.value.clone().unwrap_or_default();
        if let Some(d) = &k.doc {
            docs.insert(field.clone(), d.clone());
        }
        if let Schema::Default(d) = v {
            defaults.insert(field, d.0.0.as_str().to_string());
        }
    }
    if name == "Docs" {
        let want: BTreeMap<String, Vec<String>> = [
            ("one", vec!["One line."]),
            ("many", vec!["Several", "lines", "", "  indented, with \"quotes\" \\ and @tags."]),
            ("none", vec!["no space"]),
        ]
        .into_iter()
        .map(|(k, v)| (k.to_string(), v.into_iter().map(String::from).collect()))
        .collect();
        docs.remove("block");
        ensure!(docs == want, "docs-differ", "{docs:?}");
        let d = s.meta.description.clone().unwrap_or_default();
        ensure!(d.starts_with("The numbers of a thing.") && d.ends_with("`\"quotes\"`, /// slashes, { braces } and @tags."), "description-differs", "{d:?}");
    }
    if name == "DocEnums" {
        let lines = |v: &[&str]| Some(v.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        let Some(Schema::Enum(e)) = s.schema.get(&Some("DocEnum".to_string())) else { bail!("docs-differ", "no enum DocEnum: {:?}", s.schema.keys()) };
        let of = |n: &str| e.0.iter().find(|(k, _)| k.value == n).map(|(k, v)| (k.doc.clone(), v));
        let (b, d) = (of("B").and_then(|x| x.0), of("D"));
        ensure!(docs.get("v").cloned() == lines(&["In a list."]) && of("A").and_then(|x| x.0) == lines(&["One.", "", "  Two, \"quoted\" @tag."]) && b.is_none() && of("C").and_then(|x| x.0) == lines(&["", "After a blank line."]), "docs-differ", "{e:?}");
        let Some((doc, Schema::Object(o))) = d else { bail!("docs-differ", "D: {d:?}") };
        let fields: Vec<_> = o.0.iter().map(|(k, _)| (k.value.value.clone().unwrap_or_default(), k.doc.clone())).collect();
        ensure!(doc == lines(&["Of a struct variant."]) && fields.len() == 2 && fields.contains(&("x".to_string(), lines(&["Of its field.", "", "More."]))) && fields.contains(&("y".to_string(), None)), "docs-differ", "{e:?}");
    }
    if name == "Defaults" {
        let d = |k: &str| defaults.get(k).cloned().unwrap_or_default();
        macro_rules! same { ($k:literal, $t:ty, $v:expr) => {
            match facet_styx::from_str_expr::<$t>(&d($k)) {
                Ok(x) => { let v: $t = $v; ensure!(format!("{x:?}") == format!("{v:?}"), "default-differs", "{}: {:?} reads as {x:?}", $k, d($k)) }
                Err(e) => bail!("default-unreadable", "{}: {:?}: {e}", $k, d($k)),
            }
        } }
        same!("lines", String, "two\nlines".to_string());
        same!("quoted", String, "a \"quoted\" text, with = and > and @x".to_string());
        same!("empty", String, String::new());
        same!("list", Vec<i32>, vec![1, 2]);
        same!("inner", Inner, Inner { x: 3, y: "a b".to_string() });
        same!("shape", Shape, Shape::Pair(1, "x y".to_string()));
        same!("plain", Plain, Plain::Green);
        same!("real", f64, -1.5);
        same!("flag", bool, true);
        same!("map", BTreeMap<String, i32>, BTreeMap::new());
        same!("word", String, "schema".to_string());
        same!("ch", char, '"');
    }
    Ok(())
}
