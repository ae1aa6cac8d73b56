//! The typed views of the syntax tree and its warnings.
use super::lang::label_used;
use crate::core::*;
use crate::events;
use crate::model::*;
use crate::{bail, ensure};
use std::collections::BTreeSet;
use styx_tokenizer::TokenKind as TKind;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P23", name: "typed", quick: 960_000, thorough: 8_000_000, run: p23_typed, shrink: 3000, rule: "generated documents, read through the typed wrappers; non-trivial: at least 4 nodes" },
    Suite { prop: "P23", name: "warnings", quick: 1_600_000, thorough: 10_000_000, run: p23_warnings, shrink: 3000, rule: "generated documents, half of them with keys repeated in another spelling, and the exact warnings they deserve; non-trivial: at least one is due, or at least 4 nodes" },
];

fn p23_typed(g: &mut G) -> R {
    let d = gen_doc_text(g, FULL);
    g.set_input(d.text.as_str());
    g.nontrivial = size_of(&d.tree) >= 4;
    label_used(g, &d.used);
    let p = styx_cst::parse(&d.text);
    let got = match crate::cst::typed::tree(p.syntax()) {
        Ok(t) => t,
        Err(m) => bail!("typed-view", "{m}"),
    };
    if let Some((k, m)) = events::diff_entries("", &d.tree, &got) {
        bail!(format!("typed-{k}"), "{m}");
    }
    Ok(())
}

/// Repeat a few keys.
fn repeat_keys(g: &mut G, c: &Cfg, es: &mut Vec<E>) {
    for e in es.iter_mut() {
        in_value(g, c, &mut e.val);
    }
    let n = es.len() as u64;
    if n > 0 && g.chance(1, 3) {
        let k = es[g.below(n) as usize].key.clone();
        let e = E { key: k, val: gen_val(g, c, 1), doc: gen_doc(g, c) };
        let at = g.below(n + 1) as usize;
        es.insert(at, e);
    }
}
fn in_value(g: &mut G, c: &Cfg, v: &mut V) {
    match v {
        V::Seq(x) => x.iter_mut().for_each(|v| in_value(g, c, v)),
        V::Obj(es) => repeat_keys(g, c, es),
        V::Tag(_, Some(p)) => in_value(g, c, p),
        _ => {}
    }
}
/// The spans of keys that an earlier entry of the same object has.
fn repeated(es: &[TE], out: &mut BTreeSet<(Span, String)>) {
    let mut seen = BTreeSet::new();
    for e in es {
        // (tag and unit keys are not looked at)
        if let (None, Some((_, t))) = (&e.key.tag, &e.key.payload)
            && !t.is_empty()
            && !seen.insert(t)
        {
            out.insert((e.key.span, t.clone()));
        }
        repeated_in(&e.val, out);
    }
}
fn repeated_in(v: &T, out: &mut BTreeSet<(Span, String)>) {
    match &v.v {
        TV::Seq(x) => x.iter().for_each(|v| repeated_in(v, out)),
        TV::Obj(es) => repeated(es, out),
        TV::Tag { payload: Some(p), .. } => repeated_in(p, out),
        _ => {}
    }
}
/// Objects with both commas and newlines directly inside: for sure, and if newlines after doc
/// comments count.
fn mixed(t: &str) -> (BTreeSet<Span>, BTreeSet<Span>) {
    let (mut sure, mut maybe) = (BTreeSet::new(), BTreeSet::new());
    let mut stack: Vec<(u32, bool, bool, bool)> = vec![];
    let mut after_doc = false;
    for k in styx_tokenizer::Tokenizer::new(t) {
        match k.kind {
            TKind::LBrace | TKind::LParen => stack.push((k.span.start, false, false, false)),
            TKind::RBrace | TKind::RParen => {
                let Some((a, comma, nl, doc_nl)) = stack.pop() else { continue };
                if k.kind == TKind::RBrace && comma {
                    if nl {
                        sure.insert((a, k.span.end));
                    }
                    if nl || doc_nl {
                        maybe.insert((a, k.span.end));
                    }
                }
            }
            TKind::Comma => stack.iter_mut().next_back().map(|s| s.1 = true).unwrap_or(()),
            TKind::Newline => {
                if let Some(s) = stack.last_mut() {
                    if after_doc { s.3 = true } else { s.2 = true }
                }
            }
            _ => {}
        }
        after_doc = match k.kind {
            TKind::DocComment => true,
            TKind::Whitespace | TKind::Newline | TKind::LineComment => after_doc,
            _ => false,
        };
    }
    (sure, maybe)
}

fn p23_warnings(g: &mut G) -> R {
    // A path is one key to the syntax tree; attributes are no objects to it.
    let c = Cfg { paths: false, attrs: false, ..FULL };
    let depth = g.size(0, c.depth);
    let mut es = gen_entries(g, &c, depth);
    if g.coin() {
        repeat_keys(g, &c, &mut es);
    }
    let d = render(g, c, es);
    g.set_input(d.text.as_str());
    let mut want = BTreeSet::new();
    repeated(&d.tree, &mut want);
    let (sure, maybe) = mixed(&d.text);
    g.nontrivial = size_of(&d.tree) >= 4 || !want.is_empty() || !sure.is_empty();
    if !want.is_empty() {
        g.label("repeated-key");
    }
    if !sure.is_empty() {
        g.label("mixed-separators");
    }
    let p = styx_cst::parse(&d.text);
    let mut got = BTreeSet::new();
    let mut got_mixed = BTreeSet::new();
    for x in styx_cst::validate(&p.syntax()) {
        let span = (u32::from(x.range.start()), u32::from(x.range.end()));
        ensure!(x.severity == styx_cst::Severity::Warning, "severity", "{x:?}");
        if x.message.starts_with("duplicate") {
            ensure!(got.insert(span), "reported-twice", "{x:?}");
            let text = want.iter().find(|w| w.0 == span).map(|w| &w.1);
            ensure!(text.is_some_and(|t| x.message.contains(t)), "false-duplicate", "{x:?}");
        } else if x.message.contains("separators") {
            ensure!(got_mixed.insert(span), "reported-twice", "{x:?}");
            ensure!(maybe.contains(&span), "false-mixed", "{x:?}");
        } else {
            bail!("other-warning", "{x:?}");
        }
    }
    for (span, t) in &want {
        ensure!(got.contains(span), "missed-duplicate", "{t:?} at {span:?} is not reported");
    }
    for span in &sure {
        ensure!(got_mixed.contains(span), "missed-mixed", "the object at {span:?} is not reported");
    }
    Ok(())
}
