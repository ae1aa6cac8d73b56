//! Formatting of values and the low-level writer: what is written reads back as what was given.
use super::lang;
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use styx_format::{FormatOptions, StyxWriter};
use styx_tree::{Entry, Object, Payload, Scalar, Sequence, Tag, Value};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P08", name: "value", quick: 1_200_000, thorough: 20_000_000, run: p08_value, shrink: 3000, rule: "generated values under random options; non-trivial: at least 4 nodes" },
    Suite { prop: "P08", name: "writer", quick: 1_200_000, thorough: 20_000_000, run: p08_writer, shrink: 3000, rule: "well-nested histories of writer calls under random options; non-trivial: at least 4 nodes" },
];

pub fn oracle(name: &str) -> Option<super::Oracle> {
    Some(match name {
        "value-format" => |t, _| {
            let v = styx_tree::parse(t).map_err(|e| Fail { kind: "rejected".into(), msg: format!("{e:?}") })?;
            check(&from_tree(&v), &styx_format::format_value(&v, FormatOptions::default()))
        },
        _ => return None,
    })
}

pub fn options(g: &mut G) -> FormatOptions {
    let mut o = FormatOptions::default();
    if g.chance(1, 4) {
        return o;
    }
    o.indent = *g.pick(&["    ", "  ", "\t", "", " "]);
    o.max_width = *g.pick(&[80, 40, 10, 0, 200]);
    o.min_inline_width = *g.pick(&[30, 0, 10, 100]);
    o.inline_object_threshold = *g.pick(&[4, 0, 1, 100]);
    o.inline_sequence_threshold = *g.pick(&[8, 0, 1, 100]);
    o.heredoc_line_threshold = *g.pick(&[2, 0, 1, 3, 1000]);
    match g.below(3) {
        0 => o,
        1 => o.inline(),
        _ => o.multiline(),
    }
}

fn scalar(t: &str) -> Value {
    Value { tag: None, payload: Some(Payload::Scalar(Scalar { text: t.to_string(), kind: styx_parse::ScalarKind::Quoted, span: None })), span: None }
}
fn tag(n: &str) -> Option<Tag> {
    Some(Tag { name: n.to_string(), span: None })
}

pub fn to_value(v: &V) -> Value {
    match v {
        V::Scalar(t) => scalar(t),
        V::Unit => Value::unit(),
        V::Seq(x) => Value { tag: None, payload: Some(Payload::Sequence(Sequence { items: x.iter().map(to_value).collect(), span: None })), span: None },
        V::Obj(es) => Value { tag: None, payload: Some(Payload::Object(to_object(es))), span: None },
        V::Tag(n, p) => {
            let mut x = p.as_ref().map(|p| to_value(p)).unwrap_or(Value::unit());
            x.tag = tag(n);
            x
        }
    }
}
pub fn to_object(es: &[E]) -> Object {
    Object {
        entries: es
            .iter()
            .map(|e| Entry {
                key: match &e.key {
                    K::Scalar(t) => scalar(t),
                    K::Unit => Value::unit(),
                    K::Tag(t) => Value::tag(t.as_str()),
                    K::TagS(t, s) => Value { tag: tag(t), ..scalar(s) },
                    K::Snippet(_) => unreachable!(),
                },
                value: to_value(&e.val),
                doc_comment: if e.doc.is_empty() { None } else { Some(e.doc.join("\n")) },
            })
            .collect(),
        span: None,
    }
}
/// A tagged scalar is written as a one-element sequence (known finding): leave it out.
fn tame(v: &mut V) {
    match v {
        V::Seq(x) => x.iter_mut().for_each(tame),
        V::Obj(es) => es.iter_mut().for_each(|e| tame(&mut e.val)),
        V::Tag(_, Some(p)) => {
            if let V::Scalar(_) = **p {
                **p = V::Seq(vec![(**p).clone()]);
            }
            tame(p);
        }
        _ => {}
    }
}
fn count(v: &S) -> usize {
    1 + match v {
        S::Seq(x) => x.iter().map(count).sum(),
        S::Obj(x) => x.iter().map(|e| 1 + count(&e.1)).sum(),
        S::Tag(_, Some(p)) => count(p),
        _ => 0,
    }
}

/// `out` must be an accepted document that means `want`.
pub fn check(want: &S, out: &str) -> R {
    let got = match styx_tree::parse(out) {
        Ok(v) => from_tree(&v),
        Err(e) => bail!("output-rejected", "{e:?}; output {out:?}"),
    };
    if drop_docs(&got) != drop_docs(want) {
        bail!("value-changed", "output {out:?} reads as {:?}", drop_docs(&got));
    }
    ensure!(&got == want, "doc-comments-changed", "output {out:?} reads as {got:?}");
    let p = styx_cst::parse(out);
    ensure!(p.errors().is_empty(), "output-has-syntax-errors", "{:?}; output {out:?}", p.errors());
    Ok(())
}

const VALUES: Cfg = Cfg { paths: false, chains: false, ..FULL };

fn p08_value(g: &mut G) -> R {
    let o = options(g);
    let depth = g.size(0, 4);
    let mut root = V::Obj(gen_entries(g, &VALUES, depth));
    tame(&mut root);
    let V::Obj(es) = &root else { unreachable!() };
    let obj = to_object(es);
    let v = Value { tag: None, payload: Some(Payload::Object(obj.clone())), span: None };
    let want = from_tree(&v);
    g.nontrivial = count(&want) >= 4;
    g.set_input(format!("{o:?} {want:?}"));
    let braced = g.chance(1, 3);
    if braced {
        g.label("braced");
        let out = styx_format::format_object_braced(&obj, o);
        check(&want, &out)?;
        // As a value inside another document.
        let doc = format!("k {out}\n");
        check(&S::Obj(vec![(SKey { tag: None, text: Some("k".into()) }, want.clone(), None)]), &doc)
    } else {
        let out = styx_format::format_value(&v, o.clone());
        check(&want, &out)?;
        ensure!(out.is_empty() || out.ends_with('\n'), "no-final-newline", "output {out:?}");
        // Formatting is a function of the meaning: reading and writing again changes nothing.
        let again = styx_format::format_value(&styx_tree::parse(&out).unwrap(), o);
        ensure!(again == out, "not-stable", "first {out:?}, second {again:?}");
        Ok(())
    }
}

/// Drives the writer with the calls that write `v`.
fn drive(g: &mut G, w: &mut StyxWriter, v: &V) -> S {
    match v {
        V::Scalar(t) => match g.below(9) {
            0 => {
                let b = g.coin();
                w.write_bool(b);
                S::Scalar(b.to_string())
            }
            1 => {
                let x = g.u64() as i64 >> g.below(64);
                w.write_i64(x);
                S::Scalar(x.to_string())
            }
            2 => {
                let x = g.u64() as i128 * g.u64() as i64 as i128;
                w.write_i128(x);
                S::Scalar(x.to_string())
            }
            3 => {
                let c = t.chars().next().unwrap_or('x');
                w.write_char(c);
                S::Scalar(c.to_string())
            }
            4 => {
                w.write_bytes(t.as_bytes());
                S::Scalar(t.bytes().map(|b| format!("{b:02x}")).collect())
            }
            _ => {
                w.write_string(t);
                S::Scalar(t.clone())
            }
        },
        V::Unit => {
            w.write_null();
            S::Unit
        }
        V::Seq(x) => {
            w.begin_seq();
            let r = x.iter().map(|x| drive(g, w, x)).collect();
            w.end_seq().unwrap();
            S::Seq(r)
        }
        V::Obj(es) => {
            let force = g.chance(1, 3);
            w.begin_struct_with_options(false, force);
            let r = drive_entries(g, w, es);
            w.end_struct().unwrap();
            S::Obj(r)
        }
        V::Tag(n, p) => {
            w.write_tag(n);
            let p = match p.as_deref() {
                None | Some(V::Unit) => {
                    w.clear_skip_before_value();
                    None
                }
                Some(V::Scalar(t)) => {
                    w.write_scalar(t);
                    Some(S::Scalar(t.clone()))
                }
                Some(V::Seq(x)) => {
                    w.begin_seq_after_tag();
                    let r = x.iter().map(|x| drive(g, w, x)).collect();
                    w.end_seq().unwrap();
                    Some(S::Seq(r))
                }
                Some(V::Obj(es)) => {
                    let force = g.chance(1, 3);
                    w.begin_struct_after_tag(force);
                    let r = drive_entries(g, w, es);
                    w.end_struct().unwrap();
                    Some(S::Obj(r))
                }
                Some(V::Tag(..)) => unreachable!(),
            };
            S::Tag(n.clone(), p.map(Box::new))
        }
    }
}
fn drive_entries(g: &mut G, w: &mut StyxWriter, es: &[E]) -> Vec<(SKey, S, Option<String>)> {
    let mut out = vec![];
    for e in es {
        let doc = if e.doc.is_empty() { None } else { Some(e.doc.join("\n")) };
        let k = match &e.key {
            K::Scalar(t) => {
                match &doc {
                    Some(d) => w.write_doc_comment_and_key(d, t),
                    None => w.field_key(t).unwrap(),
                }
                SKey { tag: None, text: Some(t.clone()) }
            }
            K::Unit | K::TagS(..) => {
                match &doc {
                    Some(d) => w.write_doc_comment_and_key_raw(d, "@"),
                    None => w.field_key_raw("@").unwrap(),
                }
                SKey { tag: None, text: None }
            }
            K::Tag(t) => {
                let raw = format!("@{t}");
                match &doc {
                    Some(d) => w.write_doc_comment_and_key_raw(d, &raw),
                    None => w.field_key_raw(&raw).unwrap(),
                }
                SKey { tag: Some(t.clone()), text: None }
            }
            K::Snippet(_) => unreachable!(),
        };
        let v = drive(g, w, &e.val);
        out.push((k, v, doc));
    }
    out
}

fn p08_writer(g: &mut G) -> R {
    let o = options(g);
    let depth = g.size(0, 4);
    let mut es = gen_entries(g, &VALUES, depth);
    fn one_unit(es: &mut Vec<E>) {
        let mut seen = false;
        es.retain(|e| !matches!(e.key, K::Unit | K::TagS(..)) || !std::mem::replace(&mut seen, true));
        for e in es {
            units(&mut e.val);
        }
    }
    fn units(v: &mut V) {
        match v {
            V::Seq(x) => x.iter_mut().for_each(units),
            V::Obj(es) => one_unit(es),
            V::Tag(_, Some(p)) => units(p),
            _ => {}
        }
    }
    one_unit(&mut es);
    let mut w = StyxWriter::with_options(o.clone());
    let root = g.coin();
    if root {
        w.begin_struct(true);
    } else {
        w.begin_struct_with_options(false, g.coin());
    }
    let got = drive_entries(g, &mut w, &es);
    w.end_struct().unwrap();
    let want = S::Obj(got);
    g.nontrivial = count(&want) >= 4;
    g.set_input(format!("{o:?} root={root} {want:?}"));
    let depth = w.depth();
    ensure!(depth == 0, "depth-left", "depth {depth} after the last end");
    let out = match String::from_utf8(w.finish_document()) {
        Ok(s) => s,
        Err(e) => bail!("not-utf8", "{e}"),
    };
    check(&want, &out)?;
    let _ = lang::label_used;
    Ok(())
}
