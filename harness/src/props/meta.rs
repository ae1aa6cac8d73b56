//! Metadata containers: spans, doc comments and tags next to typed values.
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use facet::Facet;
use facet_reflect::Span as FSpan;
use facet_styx::Documented;
use std::collections::BTreeMap;
use std::fmt::{Debug, Write};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P24", name: "metadata", quick: 960_000, thorough: 8_000_000, run: p24, shrink: 3000, rule: "documents of a random type of the family with doc comments and tags wherever it has a place for them; non-trivial: at least 4 nodes" },
];

#[derive(Facet, Debug, Clone)]
#[facet(metadata_container)]
pub struct W<T> {
    pub value: T,
    #[facet(metadata = "span")]
    pub span: Option<FSpan>,
    #[facet(metadata = "doc")]
    pub doc: Option<Vec<String>>,
    #[facet(metadata = "tag")]
    pub tag: Option<String>,
}
impl<T: PartialEq> PartialEq for W<T> {
    fn eq(&self, o: &Self) -> bool { self.value == o.value && self.tag == o.tag }
}
impl<T: Eq> Eq for W<T> {}
impl<T: Ord> Ord for W<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering { (&self.value, &self.tag).cmp(&(&o.value, &o.tag)) }
}
impl<T: Ord> PartialOrd for W<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
/// Only the span.
#[derive(Facet, Debug, Clone)]
#[facet(metadata_container)]
pub struct Sp<T> {
    pub value: T,
    #[facet(metadata = "span")]
    pub span: FSpan,
}

/// A doc comment of the entry; `None` where a value can have none.
type Doc<'a> = Option<&'a [String]>;

pub trait Mt: Debug + Sized {
    fn make(g: &mut G, d: usize) -> V;
    /// What was read is what the tree says.
    fn check(&self, t: &T, doc: Doc, p: &str) -> R;
    /// Everything but spans.
    fn plain(&self, out: &mut String);
    fn optional() -> bool { false }
    fn absent(&self) -> bool { false }
}

fn same(doc: &Option<Vec<String>>, want: Doc, p: &str) -> R {
    if let Some(w) = want {
        ensure!(doc.as_deref().unwrap_or(&[]) == w, "doc", "{p}: doc comment {w:?} is read as {doc:?}");
    }
    Ok(())
}
fn span_is(s: &FSpan, t: Span, p: &str) -> R {
    let got = (s.offset, s.offset + s.len);
    ensure!(got == t, "span", "{p}: the text at {t:?} is said to be at {got:?}");
    Ok(())
}
thread_local! {
    /// Leave doc comments out.
    static BARE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn note(out: &mut String, doc: &Option<Vec<String>>, tag: &Option<String>) {
    if BARE.get() {
        return write!(out, "{tag:?} ").unwrap();
    }
    let doc = doc.as_ref().filter(|d| !d.is_empty());
    write!(out, "{doc:?} {tag:?} ").unwrap();
}

macro_rules! scalar {
    ($($t:ty),*) => { $(impl Mt for $t {
        fn make(g: &mut G, _: usize) -> V {
            V::Scalar(<$t as super::typed::Ty>::make(g, 0).to_string())
        }
        fn check(&self, t: &T, _: Doc, p: &str) -> R {
            let TV::Scalar { text, .. } = &t.v else { bail!("value", "{p}: {:?} is read as {self:?}", t.v) };
            ensure!(*text == self.to_string(), "value", "{p}: {text:?} is read as {self:?}");
            Ok(())
        }
        fn plain(&self, out: &mut String) { write!(out, "{self:?};").unwrap() }
    })* };
}
scalar!(String, i64, u16, bool);
impl Mt for () {
    fn make(_: &mut G, _: usize) -> V { V::Unit }
    fn check(&self, t: &T, _: Doc, p: &str) -> R {
        ensure!(t.v == TV::Unit, "value", "{p}: {:?} is read as a unit", t.v);
        Ok(())
    }
    fn plain(&self, out: &mut String) { out.push_str("@;") }
}
impl<X: Mt> Mt for W<X> {
    fn make(g: &mut G, d: usize) -> V {
        let v = X::make(g, d);
        if g.coin() {
            return v;
        }
        let name = tag_name(g);
        g.label("tag");
        V::Tag(name, if v == V::Unit { None } else { Some(Box::new(v)) })
    }
    fn check(&self, t: &T, doc: Doc, p: &str) -> R {
        let unit = T { v: TV::Unit, span: t.span };
        let (tag, payload) = match &t.v {
            TV::Tag { name, payload } => (Some(name), payload.as_deref().unwrap_or(&unit)),
            _ => (None, t),
        };
        self.value.check(payload, None, p)?;
        ensure!(self.tag.as_ref() == tag, "tag", "{p}: tag {tag:?} is read as {:?}", self.tag);
        let Some(s) = &self.span else { bail!("span", "{p}: no span") };
        span_is(s, t.span, p)?;
        same(&self.doc, doc, p)
    }
    fn plain(&self, out: &mut String) {
        note(out, &self.doc, &self.tag);
        self.value.plain(out);
    }
}
impl<X: Mt> Mt for Sp<X> {
    fn make(g: &mut G, d: usize) -> V { X::make(g, d) }
    fn check(&self, t: &T, _: Doc, p: &str) -> R {
        self.value.check(t, None, p)?;
        span_is(&self.span, t.span, p)
    }
    fn plain(&self, out: &mut String) { self.value.plain(out) }
}
impl<X: Mt> Mt for Documented<X> {
    fn make(g: &mut G, d: usize) -> V { X::make(g, d) }
    fn check(&self, t: &T, doc: Doc, p: &str) -> R {
        self.value.check(t, None, p)?;
        same(&self.doc, doc, p)
    }
    fn plain(&self, out: &mut String) {
        note(out, &self.doc, &None);
        self.value.plain(out);
    }
}
impl<X: Mt> Mt for Vec<X> {
    fn make(g: &mut G, d: usize) -> V {
        let n = if d == 0 { 0 } else { g.size(0, 3) };
        V::Seq((0..n).map(|_| X::make(g, d - 1)).collect())
    }
    fn check(&self, t: &T, _: Doc, p: &str) -> R {
        let TV::Seq(v) = &t.v else { bail!("value", "{p}: {:?} is read as {self:?}", t.v) };
        ensure!(v.len() == self.len(), "value", "{p}: {} elements are read as {}", v.len(), self.len());
        for (i, (x, t)) in self.iter().zip(v).enumerate() {
            x.check(t, None, &format!("{p}/{i}"))?;
        }
        Ok(())
    }
    fn plain(&self, out: &mut String) {
        out.push('(');
        self.iter().for_each(|x| x.plain(out));
        out.push(')');
    }
}
impl<X: Mt> Mt for Option<X> {
    fn make(g: &mut G, d: usize) -> V { X::make(g, d) }
    fn check(&self, t: &T, _: Doc, p: &str) -> R {
        match self {
            // (facet-format passes no doc comments on to the value of an option)
            Some(x) => x.check(t, None, p),
            None => bail!("value", "{p}: {:?} is read as None", t.v),
        }
    }
    fn plain(&self, out: &mut String) {
        match self {
            Some(x) => x.plain(out),
            None => out.push_str("none;"), // (strings are in quotes, their own `none;` only skips a case)
        }
    }
    fn optional() -> bool { true }
    fn absent(&self) -> bool { self.is_none() }
}

pub trait Mk: Ord + Debug {
    fn make(g: &mut G) -> K;
    fn find(&self, k: &TK) -> bool;
    fn check(&self, e: &TE, p: &str) -> R;
    fn plain(&self, out: &mut String);
}
impl Mk for String {
    fn make(g: &mut G) -> K { K::Scalar(any_text(g)) }
    fn find(&self, k: &TK) -> bool { k.tag.is_none() && k.payload.as_ref().is_some_and(|p| p.1 == *self) }
    fn check(&self, _: &TE, _: &str) -> R { Ok(()) }
    fn plain(&self, out: &mut String) { write!(out, "{self:?} ").unwrap() }
}
impl Mk for W<String> {
    fn make(g: &mut G) -> K {
        if g.chance(1, 3) {
            g.label("tagged key");
            let t = tag_name(g);
            K::TagS(t, any_text(g))
        } else {
            K::Scalar(any_text(g))
        }
    }
    fn find(&self, k: &TK) -> bool { k.tag == self.tag && k.payload.as_ref().is_some_and(|p| p.1 == self.value) }
    fn check(&self, e: &TE, p: &str) -> R {
        let Some(s) = &self.span else { bail!("span", "{p}: no span of the key") };
        span_is(s, e.key.span, p)?;
        same(&self.doc, Some(e.doc.as_deref().unwrap_or(&[])), p)
    }
    fn plain(&self, out: &mut String) {
        note(out, &self.doc, &self.tag);
        write!(out, "{:?} ", self.value).unwrap();
    }
}
impl Mk for W<Option<String>> {
    fn make(g: &mut G) -> K {
        match g.below(4) {
            0 => K::Unit,
            1 => K::Tag(tag_name(g)),
            2 => {
                let t = tag_name(g);
                K::TagS(t, any_text(g))
            }
            _ => K::Scalar(any_text(g)),
        }
    }
    fn find(&self, k: &TK) -> bool {
        // (a unit key has the empty tag)
        let tag = match (&k.tag, &k.payload) {
            (None, None) => self.tag.as_deref().unwrap_or("") == "",
            (t, _) => *t == self.tag,
        };
        tag && k.payload.as_ref().map(|p| &p.1) == self.value.as_ref()
    }
    fn check(&self, e: &TE, p: &str) -> R {
        let Some(s) = &self.span else { bail!("span", "{p}: no span of the key") };
        span_is(s, e.key.span, p)?;
        same(&self.doc, Some(e.doc.as_deref().unwrap_or(&[])), p)
    }
    fn plain(&self, out: &mut String) {
        note(out, &self.doc, &self.tag);
        write!(out, "{:?} ", self.value).unwrap();
    }
}
impl<N: Mk, X: Mt> Mt for BTreeMap<N, X> {
    fn make(g: &mut G, d: usize) -> V {
        let n = if d == 0 { 0 } else { g.size(0, 3) };
        let mut es: Vec<E> = vec![];
        for _ in 0..n {
            let key = N::make(g);
            let val = X::make(g, d - 1);
            let doc = docs(g);
            if !es.iter().any(|e| e.key == key) {
                es.push(E { key, val, doc });
            }
        }
        V::Obj(es)
    }
    fn check(&self, t: &T, _: Doc, p: &str) -> R {
        let TV::Obj(es) = &t.v else { bail!("value", "{p}: {:?} is read as {self:?}", t.v) };
        ensure!(es.len() == self.len(), "value", "{p}: {} entries are read as {}", es.len(), self.len());
        for e in es {
            let p = format!("{p}/{:?}", e.key.payload.as_ref().map(|p| &p.1));
            let Some((k, x)) = self.iter().find(|x| x.0.find(&e.key)) else { bail!("key", "{p}: {:?} is missing in {self:?}", e.key) };
            k.check(e, &p)?;
            // (facet-format gives the doc comment to the key alone)
            x.check(&e.val, None, &p)?;
        }
        Ok(())
    }
    fn plain(&self, out: &mut String) {
        out.push('{');
        for (k, x) in self {
            k.plain(out);
            x.plain(out);
        }
        out.push('}');
    }
}

fn docs(g: &mut G) -> Vec<String> {
    let v = gen_doc(g, &FULL);
    if !v.is_empty() {
        g.label("doc comment");
    }
    v
}

macro_rules! st {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Facet, Debug, Clone)]
        pub struct $name { $(pub $f: $t),* }
        impl Mt for $name {
            fn make(g: &mut G, d: usize) -> V {
                let d = d.saturating_sub(1);
                let mut es = vec![$({
                    let val = <$t as Mt>::make(g, d);
                    let doc = docs(g);
                    (<$t as Mt>::optional() && g.coin(), E { key: K::Scalar(stringify!($f).into()), val, doc })
                }),*];
                es.retain(|e| !e.0);
                let mut es: Vec<E> = es.into_iter().map(|e| e.1).collect();
                for i in (1..es.len()).rev() {
                    let j = g.below(i as u64 + 1) as usize;
                    es.swap(i, j);
                }
                V::Obj(es)
            }
            fn check(&self, t: &T, _: Doc, p: &str) -> R {
                let TV::Obj(es) = &t.v else { bail!("value", "{p}: {:?} is read as {self:?}", t.v) };
                $({
                    let p = format!("{p}/{}", stringify!($f));
                    match es.iter().find(|e| e.key.payload.as_ref().is_some_and(|p| p.1 == stringify!($f))) {
                        Some(e) => Mt::check(&self.$f, &e.val, Some(e.doc.as_deref().unwrap_or(&[])), &p)?,
                        None => ensure!(self.$f.absent(), "value", "{p}: nothing is read as {:?}", self.$f),
                    }
                })*
                Ok(())
            }
            fn plain(&self, out: &mut String) {
                out.push('{');
                $(Mt::plain(&self.$f, out);)*
                out.push('}');
            }
        }
    };
}
st!(In { x: W<i64>, y: Documented<String> });
st!(Scalars { s: W<String>, n: W<i64>, b: W<bool>, u: W<()>, p: Sp<u16> });
st!(Docs { a: Documented<String>, b: Documented<In>, c: Documented<Vec<i64>>, d: Option<Documented<bool>> });
st!(Lists { v: Vec<W<String>>, w: Vec<W<()>>, n: Vec<Sp<i64>>, i: Vec<In> });
st!(Maps { m: BTreeMap<W<String>, W<String>>, k: BTreeMap<W<String>, String>, v: BTreeMap<String, W<String>>, i: BTreeMap<String, In> });
st!(Opts { o: Option<W<String>>, n: Option<W<i64>>, i: Option<In>, s: Option<Sp<String>> });
st!(Nested { i: W<In>, v: W<Vec<String>>, m: W<BTreeMap<String, i64>>, d: BTreeMap<String, W<In>> });
st!(Units { k: BTreeMap<W<Option<String>>, String>, j: BTreeMap<W<Option<String>>, W<In>> });

fn case<X: Mt + Facet<'static>>(g: &mut G) -> R {
    let d = g.size(1, 4);
    let V::Obj(mut es) = X::make(g, d) else { unreachable!() };
    let c = Cfg { paths: false, ..FULL };
    if g.chance(1, 6) {
        // A declaration belongs to no field, nor does its doc comment
        let val = if g.coin() { V::Scalar("id".into()) } else { gen_val(g, &Cfg { chains: true, ..c }, 2) };
        let doc = docs(g);
        let at = g.below(es.len() as u64 + 1) as usize;
        es.insert(at, E { key: K::Tag("schema".into()), val, doc });
        g.label("schema declaration");
    }
    let doc = render(g, c, es);
    g.set_input(doc.text.as_str());
    g.nontrivial = size_of(&doc.tree) >= 4;
    let root = T { v: TV::Obj(doc.tree), span: (0, 0) };
    let got: X = match facet_styx::from_str(&doc.text) {
        Ok(v) => v,
        Err(e) => bail!("rejected", "{e}"),
    };
    got.check(&root, None, "")?;
    let (mut a, mut b) = (String::new(), String::new());
    got.plain(&mut a);
    if a.contains("none;") {
        // `None` is written as `@`, which is not read as `None` (known finding)
        g.label("none");
        return Ok(());
    }
    // Written and read again.
    let mode = g.below(4);
    g.input.push_str(&format!("\n  mode {mode}"));
    let out = match mode {
        0 => facet_styx::to_string_compact(&got),
        1 => facet_styx::to_string_with_options(&got, &super::value::options(g)),
        2 => facet_styx::peek_to_string_expr(facet_reflect::Peek::new(&got)),
        _ => facet_styx::to_string(&got),
    };
    let out = match out {
        Ok(v) => v,
        Err(e) => bail!("not-written", "{e}"),
    };
    let back = if mode == 2 { facet_styx::from_str_expr::<X>(&out) } else { facet_styx::from_str(&out) };
    let back = match back {
        Ok(v) => v,
        Err(e) => bail!("output-rejected", "{e}; output {out:?}"),
    };
    if mode == 0 || mode == 2 {
        // A doc comment has no place on a single line
        BARE.set(true);
        a.clear();
        got.plain(&mut a);
    }
    back.plain(&mut b);
    BARE.set(false);
    ensure!(a == b, "not-kept", "{a} is written as {out:?}, which reads as {b}");
    Ok(())
}

macro_rules! choose {
    ($g:expr, [$($t:ty),*]) => {{
        let fs: &[(&'static str, fn(&mut G) -> R)] = &[$((stringify!($t), case::<$t>)),*];
        let (n, f) = *$g.pick(fs);
        if let Ok(only) = std::env::var("VH_TYPE") && only != n { return Ok(()); }
        $g.label(n);
        f($g).map_err(|e| Fail { kind: format!("{}-{n}", e.kind), msg: e.msg })
    }};
}
fn p24(g: &mut G) -> R {
    choose!(g, [Scalars, Docs, Lists, Maps, Opts, Nested, Units])
}
