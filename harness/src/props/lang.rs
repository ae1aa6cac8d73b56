//! The language core: tokens, events, trees, errors, CST.
use crate::core::*;
use crate::events;
use crate::model::*;
use crate::text;
use crate::{bail, ensure};
use styx_parse::{Event, EventKind, Parser};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P01", name: "tokens", quick: 9_600_000, thorough: 40_000_000, run: p01, shrink: 3000, rule: "token soup, random text, well-formed documents and edits of them; non-trivial: at least 3 tokens" },
    Suite { prop: "P02", name: "events", quick: 3_600_000, thorough: 30_000_000, run: p02, shrink: 3000, rule: "as P01, in document and expression mode; non-trivial: at least 4 events" },
    Suite { prop: "P02", name: "long", quick: 1_200, thorough: 9_600, run: p02_long, shrink: 200, rule: "long or deeply nested texts (up to 200 levels, 60 kB)" },
    Suite { prop: "P03", name: "decode", quick: 2_880_000, thorough: 23_040_000, run: p03, shrink: 3000, rule: "documents generated as abstract trees and written in random concrete syntax; non-trivial: at least 4 nodes" },
    Suite { prop: "P03", name: "expr", quick: 1_440_000, thorough: 6_000_000, run: p03_expr, shrink: 3000, rule: "single values in expression mode; non-trivial: not a lone scalar" },
    Suite { prop: "P04", name: "reject", quick: 1_920_000, thorough: 15_360_000, run: p04, shrink: 3000, rule: "well-formed documents with one malformed construct planted at a random place; non-trivial: the document has other entries" },
    Suite { prop: "P04", name: "paths", quick: 2_400_000, thorough: 20_000_000, run: p04_paths, shrink: 3000, rule: "histories of dotted root paths over few names, against a model of the sibling, reopening and nesting rules; non-trivial: at least 3 entries" },
    Suite { prop: "P04", name: "keys", quick: 1_280_000, thorough: 8_000_000, run: p04_keys, shrink: 3000, rule: "objects with keys of few meanings in many spellings, accepted exactly when all differ; non-trivial: at least 3 keys" },
    Suite { prop: "P05", name: "lossless", quick: 3_200_000, thorough: 20_000_000, run: p05, shrink: 3000, rule: "as P01; non-trivial: at least 3 tokens" },
    Suite { prop: "P05", name: "shape", quick: 960_000, thorough: 8_000_000, run: p05_shape, shrink: 3000, rule: "generated documents: the CST has the document's shape; non-trivial: at least 4 nodes" },
];

pub fn oracle(name: &str) -> Option<super::Oracle> {
    Some(match name {
        "tokens" => |t, _| tokens_ok(t).map(|_| ()),
        "events" => |t, _| events_ok(t, false).map(|_| ()),
        "expr-events" => |t, _| events_ok(t, true).map(|_| ()),
        "lossless" => |t, _| lossless(t).map(|_| ()),
        "must-reject" => |t, _| must_reject(t, None),
        _ => return None,
    })
}

// --- P01 -------------------------------------------------------------------------------------

pub fn tokens_ok(t: &str) -> Result<usize, Fail> {
    let mut tk = styx_tokenizer::Tokenizer::new(t);
    let mut pos = 0u32;
    let mut n = 0usize;
    loop {
        let k = tk.next_token();
        let (a, b) = (k.span.start, k.span.end);
        ensure!(a <= b && b as usize <= t.len(), "token-span-out-of-range", "token {k:?} in {} bytes", t.len());
        ensure!(a == pos, "token-gap", "token {k:?} starts at {a}, the previous one ended at {pos}");
        ensure!(t.is_char_boundary(a as usize) && t.is_char_boundary(b as usize), "token-splits-char", "{k:?}");
        ensure!(&t[a as usize..b as usize] == k.text, "token-text", "{k:?} but the source has {:?}", &t[a as usize..b as usize]);
        pos = b;
        if k.kind == styx_tokenizer::TokenKind::Eof {
            break;
        }
        n += 1;
        ensure!(n <= 2 * t.len() + 8, "too-many-tokens", "{n} tokens from {} bytes", t.len());
    }
    ensure!(pos as usize == t.len(), "tokens-stop-early", "Eof at {pos} of {}", t.len());
    for _ in 0..2 {
        let k = tk.next_token();
        ensure!(k.kind == styx_tokenizer::TokenKind::Eof, "token-after-eof", "{k:?}");
    }
    // The iterator gives the same tokens.
    let total: usize = styx_tokenizer::Tokenizer::new(t).map(|k| k.text.len()).sum();
    ensure!(total == t.len(), "iterator-differs", "the iterator's tokens have {total} bytes of {}", t.len());
    // Lexemes: in range, in order, same on every run.
    let mut last = 0u32;
    for l in styx_parse::Lexer::new(t) {
        let s = l.span();
        ensure!(s.start <= s.end && s.end as usize <= t.len(), "lexeme-span-out-of-range", "{l:?}");
        ensure!(s.start >= last || matches!(l, styx_parse::Lexeme::Error { .. }), "lexeme-order", "{l:?} starts before {last}");
        ensure!(t.is_char_boundary(s.start as usize) && t.is_char_boundary(s.end as usize), "lexeme-splits-char", "{l:?}");
        last = last.max(s.end);
    }
    Ok(n)
}

fn p01(g: &mut G) -> R {
    let (t, _) = text::arbitrary(g);
    g.set_input(t.as_str());
    let n = tokens_ok(&t)?;
    g.nontrivial = n >= 3;
    Ok(())
}

// --- P02 -------------------------------------------------------------------------------------

pub fn collect<'a>(mut p: Parser<'a>, bound: usize) -> Result<Vec<Event<'a>>, Fail> {
    let mut v = vec![];
    while let Some(e) = p.next_event() {
        v.push(e);
        ensure!(v.len() <= bound, "too-many-events", "more than {bound} events");
    }
    Ok(v)
}

pub fn events_ok(t: &str, expr: bool) -> Result<(usize, bool), Fail> {
    let bound = 12 * t.len() + 64;
    let mk = || if expr { Parser::new_expr(t) } else { Parser::new(t) };
    let evs = collect(mk(), bound)?;
    let mut stack: Vec<char> = vec![];
    let mut started = false;
    let mut ended = false;
    // Per open entry: (keys, values)
    let mut entries: Vec<(u32, u32)> = vec![];
    let mut errors = 0;
    for (i, e) in evs.iter().enumerate() {
        let s = e.span;
        ensure!(s.start <= s.end && s.end as usize <= t.len(), "event-span-out-of-range", "event {i} {e:?} of {} bytes", t.len());
        ensure!(t.is_char_boundary(s.start as usize) && t.is_char_boundary(s.end as usize), "event-splits-char", "event {i} {e:?}");
        let value = |stack: &[char], entries: &mut Vec<(u32, u32)>| -> R {
            if stack.last() == Some(&'e') {
                let l = entries.last_mut().unwrap();
                l.1 += 1;
                ensure!(l.1 <= 1, "two-values", "event {i} {e:?} is a second value of its entry");
            } else {
                ensure!(stack.last() != Some(&'o'), "value-outside-entry", "event {i} {e:?} is directly inside an object");
                ensure!(expr || !stack.is_empty(), "value-outside-entry", "event {i} {e:?} is outside everything");
            }
            Ok(())
        };
        match &e.kind {
            EventKind::DocumentStart => {
                ensure!(i == 0 && !expr, "document-start", "event {i}");
                started = true;
            }
            EventKind::DocumentEnd => {
                ensure!(stack.is_empty() && !ended, "document-end", "event {i}, open: {stack:?}");
                ended = true;
            }
            EventKind::ObjectStart => {
                if !stack.is_empty() {
                    value(&stack, &mut entries)?;
                }
                stack.push('o');
            }
            EventKind::SequenceStart => {
                value(&stack, &mut entries)?;
                stack.push('s');
            }
            EventKind::TagStart { .. } => {
                value(&stack, &mut entries)?;
                stack.push('t');
            }
            EventKind::EntryStart => {
                ensure!(stack.last() == Some(&'o'), "entry-outside-object", "event {i}, open: {stack:?}");
                stack.push('e');
                entries.push((0, 0));
            }
            EventKind::ObjectEnd | EventKind::SequenceEnd | EventKind::TagEnd | EventKind::EntryEnd => {
                let want = match e.kind {
                    EventKind::ObjectEnd => 'o',
                    EventKind::SequenceEnd => 's',
                    EventKind::TagEnd => 't',
                    _ => 'e',
                };
                let got = stack.pop();
                ensure!(got == Some(want), "unbalanced", "event {i} {e:?} closes {got:?}");
                if want == 'e' {
                    entries.pop();
                }
            }
            EventKind::Key { .. } => {
                ensure!(stack.last() == Some(&'e'), "key-outside-entry", "event {i}");
                let l = entries.last_mut().unwrap();
                l.0 += 1;
                ensure!(l.0 == 1 && l.1 == 0, "key-order", "event {i} {e:?}");
            }
            EventKind::Scalar { value: v, kind } => {
                value(&stack, &mut entries)?;
                if *kind == styx_parse::ScalarKind::Bare {
                    ensure!(v.as_ref() == &t[s.start as usize..s.end as usize], "bare-scalar-span", "event {i} {e:?}");
                }
            }
            EventKind::Unit => value(&stack, &mut entries)?,
            EventKind::Comment { text } => {
                ensure!(*text == &t[s.start as usize..s.end as usize], "comment-span", "event {i} {e:?}");
            }
            EventKind::DocComment { .. } => {}
            EventKind::Error { .. } => errors += 1,
        }
        if ended && !matches!(e.kind, EventKind::DocumentEnd | EventKind::Error { .. }) {
            bail!("event-after-end", "event {i} {e:?}");
        }
    }
    ensure!(stack.is_empty(), "unbalanced", "still open at the end: {stack:?}");
    if !expr {
        ensure!(started && ended, "document-end", "started {started} ended {ended}");
    }
    // A clone taken anywhere goes on as the original does.
    let cut = (fnv(t) % (evs.len() as u64 + 1)) as usize;
    let mut p = mk();
    for e in &evs[..cut] {
        let x = p.next_event();
        ensure!(x.as_ref() == Some(e), "not-deterministic", "{x:?} where the first run gave {e:?}");
    }
    let c = p.clone();
    let rest = collect(c, bound)?;
    ensure!(rest[..] == evs[cut..], "clone-differs", "a clone after {cut} events goes on differently");
    let rest = collect(p, bound)?;
    ensure!(rest[..] == evs[cut..], "clone-disturbs", "cloning after {cut} events changed the original");
    // The tree builder accepts exactly the event streams without errors.
    if !expr {
        let tree = styx_tree::parse(t);
        match (&tree, errors) {
            (Ok(_), 0) => {}
            (Err(_), 0) => bail!("tree-rejects", "no error event, but styx_tree::parse fails: {:?}", tree.err()),
            (Ok(_), _) => {
                let first = evs.iter().find(|e| matches!(e.kind, EventKind::Error { .. }));
                bail!("tree-accepts", "styx_tree::parse accepts, but there is {first:?}")
            }
            (Err(e), _) => {
                let first = evs.iter().find_map(|e| if let EventKind::Error { kind } = &e.kind { Some((kind.clone(), e.span)) } else { None });
                if let (styx_tree::BuildError::Parse(k, s), Some((k2, s2))) = (e, &first) {
                    ensure!(k == k2 && s == s2, "tree-error-differs", "{e:?} vs {first:?}");
                }
            }
        }
    }
    Ok((evs.len(), errors > 0))
}

fn p02(g: &mut G) -> R {
    let (t, _) = text::arbitrary(g);
    let expr = g.chance(1, 4);
    g.set_input(t.as_str());
    let (n, err) = events_ok(&t, expr)?;
    g.nontrivial = n >= 4;
    if err {
        g.label("with errors");
    }
    if expr {
        g.label("expression");
    }
    Ok(())
}

fn p02_long(g: &mut G) -> R {
    let t = match g.below(4) {
        0 => {
            let n = g.size(1, 200);
            let open = *g.pick(&["{a ", "(", "@t(", "@t{a ", "{a>", "@t/", "x {", "a>{b ", "((", "{a (", "{{", "(@t{k "]);
            let close = match g.below(3) {
                0 => String::new(),
                _ => open.chars().rev().filter_map(|c| match c { '{' => Some('}'), '(' => Some(')'), _ => None }).collect::<String>(),
            };
            let mid = *g.pick(&["x", "", "\"", "@", "<<EOF\nx\nEOF\n"]);
            let pre = *g.pick(&["k ", "", "a.b "]);
            format!("{pre}{}{mid}{}", open.repeat(n), close.repeat(n))
        }
        1 => {
            let n = g.size(1, 3000);
            let unit = text::soup(g, 4);
            // Nesting deeper than the stack allows is a known finding.
            let nests = unit.chars().filter(|c| "{(@>".contains(*c)).count();
            unit.repeat(n.min(60_000 / (unit.len() + 1)).min(1500 / nests.max(1)))
        }
        2 => {
            let n = g.size(1, 400);
            format!("x r{}\"v\"{}", "#".repeat(n), "#".repeat(if g.coin() { n } else { g.size(0, 400) }))
        }
        _ => {
            let n = g.size(1, 2000);
            format!("{}k v", (0..n).map(|i| format!("s{i}.")).collect::<String>())
        }
    };
    g.set_input(t.as_str());
    tokens_ok(&t)?;
    events_ok(&t, false)?;
    events_ok(&t, true)?;
    lossless(&t)?;
    Ok(())
}

// --- P03 -------------------------------------------------------------------------------------

fn p03(g: &mut G) -> R {
    let mut c = FULL;
    c.plain = g.chance(1, 4);
    let d = gen_doc_text(g, c);
    g.set_input(d.text.as_str());
    g.nontrivial = size_of(&d.tree) >= 4;
    label_used(g, &d.used);
    let evs = collect(Parser::new(&d.text), 12 * d.text.len() + 64)?;
    for e in &evs {
        if let EventKind::Error { kind } = &e.kind {
            bail!("rejected", "well-formed document rejected: {kind:?} at {:?}", e.span);
        }
    }
    let got = match events::tree(&evs) {
        Ok(t) => t,
        Err(m) => bail!("event-grammar", "{m}"),
    };
    if let Some((k, m)) = events::diff_entries("", &d.tree, &got) {
        bail!(format!("event-{k}"), "{m}");
    }
    // Comments come through in order.
    // The tree.
    let doc = match styx_tree::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("rejected", "styx_tree::parse: {e}"),
    };
    if !d.used.chain {
        let want = S::Obj(sem_entries(&d.tree));
        let got = from_tree(&doc);
        if want != got {
            let kind = if drop_docs(&want) == drop_docs(&got) { "tree-doc-comment" } else { "tree-value" };
            bail!(kind, "expected {want:?}\n   found {got:?}");
        }
        if let Some(m) = tree_spans(&d.tree, &doc) {
            bail!("tree-span", "{m}");
        }
    } else {
        g.label("chain (tree not compared)");
    }
    Ok(())
}

pub fn label_used(g: &mut G, u: &Used) {
    if u.paths {
        g.label("paths");
    }
    if u.attrs {
        g.label("attributes");
    }
    if u.heredoc {
        g.label("heredoc");
    }
    if u.comments {
        g.label("comments");
    }
    if u.docs {
        g.label("doc comments");
    }
    if u.explicit_root {
        g.label("explicit root");
    }
    if u.chain {
        g.label("tag chain");
    }
}

/// Scalars of the tree carry the span and kind of their source text.
fn tree_spans(es: &[TE], v: &styx_tree::Value) -> Option<String> {
    let o = v.as_object()?;
    for (e, t) in es.iter().zip(&o.entries) {
        if let Some((k, text)) = &e.key.payload
            && let Some(styx_tree::Payload::Scalar(s)) = &t.key.payload
            && (s.span.map(events::sp) != Some(e.key.span) || events::sk(s.kind) != *k)
        {
            return Some(format!("key {text:?}: {k:?} at {:?} expected, {:?} at {:?} found", e.key.span, s.kind, s.span));
        }
        if let Some(m) = tree_span_v(&e.val, &t.value) {
            return Some(m);
        }
    }
    None
}
fn tree_span_v(t: &T, v: &styx_tree::Value) -> Option<String> {
    match (&t.v, &v.payload) {
        (TV::Scalar { kind, text }, Some(styx_tree::Payload::Scalar(s))) => {
            if s.span.map(events::sp) != Some(t.span) || events::sk(s.kind) != *kind {
                return Some(format!("{text:?}: {kind:?} at {:?} expected, {:?} at {:?} found", t.span, s.kind, s.span));
            }
            None
        }
        (TV::Seq(a), Some(styx_tree::Payload::Sequence(s))) => {
            if s.span.map(events::sp) != Some(t.span) {
                return Some(format!("sequence at {:?} expected, {:?} found", t.span, s.span));
            }
            a.iter().zip(&s.items).find_map(|(x, y)| tree_span_v(x, y))
        }
        (TV::Obj(a), Some(styx_tree::Payload::Object(s))) => {
            if t.span.0 != u32::MAX && s.span.map(events::sp) != Some(t.span) {
                return Some(format!("object at {:?} expected, {:?} found", t.span, s.span));
            }
            tree_spans(a, v)
        }
        (TV::Tag { payload: Some(p), .. }, _) => tree_span_v(p, v),
        _ => None,
    }
}

fn p03_expr(g: &mut G) -> R {
    let depth = g.size(0, 3);
    let mut c = FULL;
    c.docs = g.coin();
    let v = gen_val(g, &c, depth);
    // Write `k <value>`, take the value's text.
    let d = render(g, Cfg { explicit_root: false, paths: false, comments: false, attrs: g_false(), ..c }, vec![E { key: K::Scalar("k".into()), val: v, doc: vec![] }]);
    let te = &d.tree[0];
    let (a, b) = te.val.span;
    if te.val.span == te.key.span {
        g.nontrivial = false;
        return Ok(());
    }
    let lead = *g.pick(&["", " ", "\n", "// c\n"]);
    let text = format!("{lead}{}", &d.text[a as usize..b as usize]);
    g.set_input(text.as_str());
    g.nontrivial = !matches!(te.val.v, TV::Scalar { .. });
    let evs = collect(Parser::new_expr(&text), 12 * text.len() + 64)?;
    for e in &evs {
        if let EventKind::Error { kind } = &e.kind {
            bail!("rejected", "well-formed value rejected: {kind:?} at {:?}", e.span);
        }
    }
    let got = match events::expr(&evs) {
        Ok(Some(t)) => t,
        Ok(None) => bail!("no-value", "no value"),
        Err(m) => bail!("event-grammar", "{m}"),
    };
    let want = shift(&te.val, lead.len() as i64 - a as i64);
    if let Some((k, m)) = events::diff_value("", &want, &got) {
        bail!(format!("event-{k}"), "{m}");
    }
    Ok(())
}
fn g_false() -> bool {
    true
}
fn shift(t: &T, d: i64) -> T {
    let f = |s: Span| if s.0 == u32::MAX { s } else { ((s.0 as i64 + d) as u32, (s.1 as i64 + d) as u32) };
    T {
        span: f(t.span),
        v: match &t.v {
            TV::Seq(v) => TV::Seq(v.iter().map(|x| shift(x, d)).collect()),
            TV::Obj(es) => TV::Obj(es.iter().map(|e| TE { key: TK { span: f(e.key.span), ..e.key.clone() }, val: shift(&e.val, d), doc: e.doc.clone() }).collect()),
            TV::Tag { name, payload } => TV::Tag { name: name.clone(), payload: payload.as_ref().map(|p| Box::new(shift(p, d))) },
            o => o.clone(),
        },
    }
}

// --- P04 -------------------------------------------------------------------------------------

pub fn must_reject(t: &str, at: Option<(usize, usize)>) -> R {
    let evs = collect(Parser::new(t), 12 * t.len() + 64)?;
    let errs: Vec<_> = evs.iter().filter_map(|e| if let EventKind::Error { kind } = &e.kind { Some((e.span, kind.clone())) } else { None }).collect();
    ensure!(!errs.is_empty(), "accepted", "the parser reports no error");
    if let Some((a, b)) = at {
        ensure!(
            errs.iter().any(|(s, _)| (s.start as usize) <= b && (s.end as usize) >= a),
            "error-elsewhere",
            "errors at {errs:?}, the malformed construct is at {a}..{b}"
        );
    }
    match styx_tree::parse(t) {
        Ok(_) => bail!("tree-accepts", "styx_tree::parse accepts it"),
        Err(_) => {}
    }
    ensure!(styx_tree::Document::parse(t).is_err(), "tree-accepts", "Document::parse accepts it");
    Ok(())
}

/// (class, text of the malformed entry, only at the root)
fn malformed(g: &mut G) -> (&'static str, String, Where) {
    use Where::*;
    let w = word_plain(g);
    let i = g.below(MAL.len() as u64) as usize;
    let (class, pats, wh) = &MAL[i];
    let p = g.pick(pats).replace("$W", &w);
    let _ = Anywhere;
    (class, p, *wh)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Where {
    Anywhere,
    Root,
    End,
    ImplicitRoot,
}
fn word_plain(g: &mut G) -> String {
    g.pick(&["a", "x1", "host", "8080", "é"]).to_string()
}
const MAL: &[(&str, &[&str], Where)] = &[
    ("too many atoms", &["zk $W b", "zk @tag {}", "zk @tag (1)", "zk (1) (2)", "zk {a 1} b", "zk \"a\" \"b\"", "zk @ @", "\"zk\" a b", "@zk a b", "zk a>1 b", "zk @t\"x\" y"], Where::Anywhere),
    ("no space before block", &["zk{}", "zk{a 1}", "zk()", "zk(1 2)"], Where::Anywhere),
    ("comma in sequence", &["zk (a,b)", "zk (1 2, 3)", "zk (,)", "zk @t(1,2)", "zk ((a) (b,c))", "zk {q (a,b)}"], Where::Anywhere),
    ("bad escape", &["zk \"\\q\"", "zk \"$W\\x41\"", "zk \"\\u12\"", "zk \"\\uzzzz\"", "zk \"\\u{}\"", "zk \"\\u{110000}\"", "zk \"\\u{d800}\"", "zk \"\\ud800\"", "zk \"\\u{FFFFFFFFFF}\"", "zk \"\\u{4é\"", "zk \"\\u{zz}\"", "zk (\"\\0\")", "zk @t\"\\e\"", "zk {b \"\\'\"}", "zk \"\\u\"", "zk \"é\\u{12345678é}\""], Where::Anywhere),
    ("bad escape in key", &["\"\\q\" $W", "\"\\u{}\" $W", "@t\"\\q\" $W"], Where::Anywhere),
    ("bad tag name", &["zk @1a", "zk @a.b", "zk @-x", "zk @a/b", "zk @.x", "zk @org/pkg", "zk (@1a)", "zk @a$é"], Where::Anywhere),
    ("bad heredoc delimiter", &["zk <<eof", "zk <<1", "zk <<", "zk << EOF", "zk <<_A", "zk <<ABCDEFGHIJKLMNOPQ\nx\nABCDEFGHIJKLMNOPQ"], Where::Anywhere),
    ("bad key", &["(a b) $W", "{a 1} $W", "<<EOF\nx\nEOF\n$W 1", "@t(a) $W", "@t{a 1} $W"], Where::Anywhere),
    ("bad path", &["z..k $W", ".zk $W", "zk. $W"], Where::Root),
    ("attribute without value", &["zk a>", "zk a>\n", "zk a> b", "zk b>1 a>"], Where::Anywhere),
    ("stray >", &["zk >", "zk > b", "zk a > b"], Where::Anywhere),
    ("duplicate key", &["zk 1\nzk 2", "zk 1\n\"zk\" 2", "\"z\\u{6b}\" 1\nzk {}", "zk\nr#\"zk\"# 2", "@zt 1\n@zt 2", "@zt\"p\" 1\n@zt\"p\" 2", "@zt\"p\" 1\n@zt\"\\u{70}\" 2", "zk 1\nzm 2\nzk 3", "@zt 1\nzm 2\n@zt 3", "zk {a 1, b 2, a 3}", "zk {@ 1, @ 2}", "zk {\"a b\" 1, r#\"a b\"# 2}", "zk {@t 1, @t 2}", "zk a>1 a>2"], Where::Anywhere),
    ("reopened path", &["zf.bar {}\nzf.baz {}\nzf.bar.x $W", "za.b.c {}\nza.b.d {}\nza.x {}\nza.b.e {}", "zf.bar 1\nzg 2\nzf.qux 3", "za.b.c 1\nza.d 2\nza.b.c 3", "zf.a.b 1\nzg.a 1\nzf.c 2"], Where::ImplicitRoot),
    ("path into a value", &["za $W\nza.b 1", "za.b $W\nza.b.c 1", "za (1)\nza.b 2", "za @\nza.b 2", "za\nza.b 2"], Where::ImplicitRoot),
    ("duplicate path", &["za.b 1\nza.b 2", "za.b.c 1\nza.b.c $W"], Where::ImplicitRoot),
    ("dangling doc comment", &["/// doc", "zk {a 1\n/// d\n}", "zk {/// d\n}"], Where::End),
    ("unclosed", &["zk {", "zk {a 1", "zk (", "zk (a (b)", "zk \"abc", "zk r#\"abc\"", "zk r##\"abc\"#", "zk <<EOF\nabc\n", "zk <<EOF\nabc\nEOFX\n", "zk <<EOF\nabc\nEOF x\n", "zk @t{", "zk @t(", "zk a>{", "zk a>(1", "zk \"abc\\\"", "zk {a {b {c 1}}"], Where::End),
    ("stray closer", &["}", ")", "zk }", "zk )", "zk (a }", "zk (a ]} )"], Where::ImplicitRoot),
    ("trailing content", &["", ""], Where::Root),
    ("mismatched closer", &["zk (a}", "zk {a 1)", "zk ({a 1)}"], Where::End),
];

/// The kinds of error that a class of malformed construct may get (none: any).
fn kinds(class: &str) -> &'static [&'static str] {
    match class {
        "too many atoms" => &["TooManyAtoms"],
        "no space before block" => &["MissingWhitespaceBeforeBlock"],
        "comma in sequence" => &["CommaInSequence"],
        "bad escape" => &["InvalidEscape", "UnexpectedToken"],
        "bad escape in key" => &["InvalidEscape", "InvalidKey", "UnexpectedToken"],
        "bad tag name" => &["InvalidTagName"],
        "bad key" => &["InvalidKey", "TrailingContent"],
        "bad path" => &["InvalidKey"],
        "duplicate key" => &["DuplicateKey"],
        "duplicate path" => &["DuplicateKey"],
        "reopened path" => &["ReopenedPath"],
        "path into a value" => &["NestIntoTerminal"],
        "dangling doc comment" => &["DanglingDocComment"],
        "trailing content" => &["TrailingContent"],
        _ => &[],
    }
}

fn p04(g: &mut G) -> R {
    let (class, text, span) = planted(g, FULL);
    must_reject(&text, span)?;
    let kinds = kinds(class);
    let found: Vec<String> = Parser::new(&text).parse_to_vec().into_iter().filter_map(|e| if let EventKind::Error { kind } = e.kind { Some(format!("{kind:?}")) } else { None }).collect();
    let named = |k: &str| found.iter().any(|f| f.strip_prefix(k).is_some_and(|r| !r.starts_with(|c: char| c.is_alphanumeric())));
    ensure!(kinds.is_empty() || kinds.iter().any(|k| named(k)), "wrong-kind", "{class}: {found:?}");
    Ok(())
}

/// A well-formed document with one malformed construct in it: class, text, place of the construct.
pub fn planted(g: &mut G, cfg: Cfg) -> (&'static str, String, Option<(usize, usize)>) {
    let mut c = cfg;
    c.width = 3;
    c.crlf = false;
    let (class, snip, wh) = malformed(g);
    g.label(class);
    let mut entries = gen_entries(g, &c, 2);
    // Keys of the planted entries start with z and do not occur elsewhere.
    g.nontrivial = !entries.is_empty();
    if class == "trailing content" {
        let d = render(g, Cfg { explicit_root: false, ..c }, entries.clone());
        let text = format!("{{{}{}\n}} {}", d.text, "", g.pick(&["x", "x 1", "{}", "\n{a 1}", "\n\n@", ")", "}", ", x"]));
        let text = if d.used.paths { format!("{{a 1}} {}", g.pick(&["x", "{}"])) } else { text };
        g.set_input(text.as_str());
        return (class, text, None);
    }
    c.explicit_root = matches!(wh, Where::Anywhere);
    let at = match wh {
        Where::End => entries.len(),
        _ => g.size(0, entries.len()),
    };
    if wh == Where::End {
        c.comments = false; // a comment could close what the snippet leaves open
    }
    let e = E { key: K::Snippet(snip.clone()), val: V::Unit, doc: vec![] };
    let nested = wh == Where::Anywhere && g.chance(1, 3);
    if nested {
        g.label("nested");
        let mut inner = gen_entries(g, &c, 1);
        let j = g.size(0, inner.len());
        inner.insert(j, e);
        let v = if g.coin() { V::Obj(inner) } else { V::Tag("tg".into(), Some(Box::new(V::Seq(vec![V::Obj(inner)])))) };
        entries.insert(at, E { key: K::Scalar("zz".into()), val: v, doc: vec![] });
    } else {
        entries.insert(at, e);
    }
    let mut r = Render::new(g, c);
    r.write_document(&entries);
    let (text, span) = (r.out.clone(), r.snippet);
    g.set_input(text.as_str());
    (class, text, span)
}

/// Which entry of a history of root paths breaks the rules of sibling, reopened and nested paths
/// first (None: all are fine). `obj` marks entries whose value is an object.
fn first_bad_path(h: &[(Vec<&str>, bool)]) -> Option<usize> {
    for i in 0..h.len() {
        let p = &h[i].0;
        for (q, _) in &h[..i] {
            if q.starts_with(p) || p.starts_with(q) {
                return Some(i);
            }
        }
        for n in 1..p.len() {
            let known = h[..i].iter().any(|(q, _)| q.starts_with(&p[..n]));
            if known && !h[i - 1].0.starts_with(&p[..n]) {
                return Some(i);
            }
        }
    }
    None
}

/// A history of dotted root paths: text, spans of the entries, the first entry that breaks the rules.
pub fn path_history(g: &mut G, explicit: bool) -> (String, Vec<(usize, usize)>, Option<usize>) {
    let h = path_history_(g, explicit);
    (h.text, h.entries, h.bad)
}
struct PathHistory {
    text: String,
    entries: Vec<(usize, usize)>,
    keys: Vec<(usize, usize)>,
    /// The paths, and whether their value is an object
    paths: Vec<(Vec<&'static str>, bool)>,
    bad: Option<usize>,
}
fn path_history_(g: &mut G, explicit: bool) -> PathHistory {
    let n = g.size(1, 7);
    let segs: &[&'static str] = *g.pick(&[&["a", "b"][..], &["a", "b", "c"], &["x", "é", "y1"], &["name", "aa", "a"]]);
    let mut h: Vec<(Vec<&'static str>, bool)> = vec![];
    for _ in 0..n {
        // Mostly continue from the entry before, so that valid histories grow long.
        let mut p: Vec<&'static str> = vec![];
        if let Some((l, _)) = h.last()
            && g.chance(3, 4)
        {
            p.extend(&l[..g.size(0, l.len() - 1)]);
        }
        let deepest = if g.chance(1, 8) { 9usize } else { 4 };
        let max = deepest.saturating_sub(p.len()).max(1);
        for _ in 0..g.size(1, max) {
            p.push(*g.pick(segs));
        }
        h.push((p, g.chance(1, 4)));
    }
    // A path into an object written with braces is not covered by the rules: leave it out.
    let mut keep: Vec<(Vec<&'static str>, bool)> = vec![];
    for (p, o) in h {
        if !keep.iter().any(|(q, qo)| *qo && p.len() > q.len() && p.starts_with(q)) {
            keep.push((p, o));
        }
    }
    let bad = first_bad_path(&keep);
    let explicit = g.chance(1, 4) && explicit;
    let mut t = String::from(if explicit { "{" } else { "" });
    let mut spans = vec![];
    let mut keys = vec![];
    for (i, (p, o)) in keep.iter().enumerate() {
        if i > 0 {
            t.push_str(*g.pick(&["\n", "\n\n", ",", "\n// c\n"]));
        }
        let a = t.len();
        if p.len() == 1 && g.chance(1, 4) {
            t.push_str(&format!("\"{}\"", p[0]));
        } else {
            t.push_str(&p.join("."));
        }
        keys.push((a, t.len()));
        if *o {
            t.push_str(*g.pick(&[" {}", " {k 1}", " k>1"]));
        } else {
            t.push_str(*g.pick(&[" 1", " (1 2)", " @", "", " @t", " @t{k 1}", " \"\""]));
        }
        spans.push((a, t.len()));
    }
    if explicit {
        t.push('}');
    }
    g.set_input(t.as_str());
    g.nontrivial = keep.len() >= 3;
    PathHistory { text: t, entries: spans, keys, paths: keep, bad }
}

/// What an error about a path says of the entries before.
fn path_error_fits(h: &PathHistory, i: usize, k: &styx_parse::ParseErrorKind) -> R {
    use styx_parse::ParseErrorKind::*;
    let p = &h.paths[i].0;
    let is = |q: &[&str], named: &[String]| q.iter().copied().eq(named.iter().map(|s| s.as_str()));
    match k {
        DuplicateKey { original } => {
            let first = h.paths[..i].iter().position(|(q, _)| q.starts_with(p));
            let got = (original.start as usize, original.end as usize);
            ensure!(first.map(|j| h.keys[j]) == Some(got), "first-definition", "entry {i} repeats entry {first:?}, the error names {got:?}");
        }
        ReopenedPath { closed_path } => {
            let n = closed_path.len();
            let closed = n >= 1 && n <= p.len() && is(&p[..n], closed_path) && h.paths[..i].iter().any(|(q, _)| q.starts_with(&p[..n])) && !h.paths[i - 1].0.starts_with(&p[..n]);
            ensure!(closed, "closed-path", "entry {i} does not reopen {closed_path:?}");
        }
        NestIntoTerminal { terminal_path } => {
            let n = terminal_path.len();
            let ends = n >= 1 && n < p.len() && is(&p[..n], terminal_path) && h.paths[..i].iter().any(|(q, o)| !o && q[..] == p[..n]);
            ensure!(ends, "terminal-path", "entry {i} does not nest into {terminal_path:?}");
        }
        _ => bail!("wrong-kind", "entry {i} breaks a rule of paths, the error is {k:?}"),
    }
    Ok(())
}

fn p04_paths(g: &mut G) -> R {
    let h = path_history_(g, true);
    let (t, spans, bad) = (&h.text, &h.entries, h.bad);
    let evs = collect(Parser::new(t), 12 * t.len() + 64)?;
    let err = evs.iter().find_map(|e| if let EventKind::Error { kind } = &e.kind { Some((e.span, kind.clone())) } else { None });
    match (bad, err) {
        (None, None) => {
            g.label("valid");
            Ok(())
        }
        (None, Some((s, k))) => bail!("rejected", "a valid history of paths: {k:?} at {s:?}"),
        (Some(i), None) => bail!("accepted", "entry {i} at {:?} breaks the rules", spans[i]),
        (Some(i), Some((s, k))) => {
            let (a, b) = spans[i];
            ensure!((s.start as usize) < b && (s.end as usize) > a, "error-elsewhere", "{k:?} at {s:?}; entry {i} at {a}..{b} breaks the rules");
            path_error_fits(&h, i, &k)?;
            ensure!(styx_tree::parse(t).is_err(), "tree-accepts", "styx_tree::parse accepts it");
            Ok(())
        }
    }
}

/// An object with keys of few meanings: text, the first key that repeats another (its entry's span).
pub fn key_history(g: &mut G) -> (String, Option<(usize, usize)>) {
    let (t, bad, _) = key_history_(g);
    (t, bad)
}
/// ... and the first key that the repeated one repeats.
fn key_history_(g: &mut G) -> (String, Option<(usize, usize)>, (usize, usize)) {
    // (meaning, spellings)
    const KEYS: &[(&str, &[&str])] = &[
        ("a", &["a", "\"a\"", "r\"a\"", "r#\"a\"#", "\"\\u{61}\"", "\"\\u0061\""]),
        ("a.b", &["\"a.b\"", "r#\"a.b\"#", "\"a\\u002eb\""]),
        ("@", &["@"]),
        ("@t", &["@t"]),
        ("@t a", &["@t\"a\"", "@t\"\\u{61}\"", "@tr#\"a\"#"]),
        ("@t b", &["@t\"b\""]),
        ("@u a", &["@u\"a\""]),
        ("\"@\"", &["\"@\""]),
        ("\"@t\"", &["\"@t\"", "r#\"@t\"#"]),
        ("", &["\"\""]),
        ("{}", &["\"{}\""]),
        ("()", &["\"()\""]),
        ("b", &["b", "\"b\""]),
        ("é", &["é", "\"é\"", "\"\\u{e9}\""]),
    ];
    let n = g.size(1, 6);
    let ks: Vec<usize> = (0..n).map(|_| g.below(KEYS.len() as u64) as usize).collect();
    let bad = (0..n).find(|&i| ks[..i].contains(&ks[i]));
    let nest = g.below(4);
    let mut t = String::from(["", "k {", "{", "k (x @t{"][nest as usize]);
    let mut span = (0, 0);
    let mut keys = vec![];
    let wide = if g.chance(1, 8) { g.size(1, 40) } else { 0 };
    let at = g.below(n as u64) as usize;
    for (i, &k) in ks.iter().enumerate() {
        if i > 0 {
            t.push_str(*g.pick(&["\n", ", ", "\n// c\n"]));
        }
        if i == at {
            for j in 0..wide {
                t.push_str(&format!("k{j} {j}\n"));
            }
        }
        let a = t.len();
        t.push_str(*g.pick(KEYS[k].1));
        keys.push((a, t.len()));
        t.push_str(*g.pick(&[" 1", "", " {z 1}", " (1)", " @z"]));
        if Some(i) == bad {
            span = (a, t.len());
        }
    }
    t.push_str(["", "}", "}", "})"][nest as usize]);
    g.set_input(t.as_str());
    g.nontrivial = n >= 3;
    let first = bad.map_or((0, 0), |b| keys[(0..b).find(|&i| ks[i] == ks[b]).unwrap()]);
    (t, bad.map(|_| span), first)
}

fn p04_keys(g: &mut G) -> R {
    let (t, bad, first) = key_history_(g);
    match bad {
        Some(span) => {
            must_reject(&t, Some(span))?;
            let evs = collect(Parser::new(&t), 12 * t.len() + 64)?;
            let named = evs.iter().find_map(|e| match &e.kind {
                EventKind::Error { kind: styx_parse::ParseErrorKind::DuplicateKey { original } } => Some((original.start as usize, original.end as usize)),
                _ => None,
            });
            ensure!(named == Some(first), "first-definition", "the key first comes at {first:?}, the error names {named:?}");
            Ok(())
        }
        None => {
            let evs = collect(Parser::new(&t), 12 * t.len() + 64)?;
            match evs.iter().find(|e| matches!(e.kind, EventKind::Error { .. })) {
                Some(e) => bail!("rejected", "distinct keys: {e:?}"),
                None => {
                    g.label("valid");
                    Ok(())
                }
            }
        }
    }
}

// --- P05 -------------------------------------------------------------------------------------

pub fn lossless(t: &str) -> Result<usize, Fail> {
    let p = styx_cst::parse(t);
    let root = p.syntax();
    let got = root.to_string();
    ensure!(got == t, "cst-text", "the CST's text is {got:?}");
    let mut n = 0;
    let mut pos = 0u32;
    for el in root.descendants_with_tokens() {
        if let Some(tok) = el.as_token() {
            let r = tok.text_range();
            ensure!(u32::from(r.start()) == pos, "cst-token-gap", "{tok:?}");
            pos = r.end().into();
            n += 1;
        }
    }
    ensure!(pos as usize == t.len(), "cst-tokens-end", "{pos} of {}", t.len());
    for e in p.errors() {
        ensure!(e.offset as usize <= t.len(), "cst-error-range", "{e:?}");
    }
    for d in styx_cst::validate(&root) {
        let (a, b) = (u32::from(d.range.start()) as usize, u32::from(d.range.end()) as usize);
        ensure!(a <= b && b <= t.len(), "cst-diagnostic-range", "{d:?}");
    }
    // The same text gives the same tree.
    let q = styx_cst::parse(t);
    ensure!(q.green() == p.green() && q.errors() == p.errors(), "cst-not-deterministic", "");
    Ok(n)
}

fn p05(g: &mut G) -> R {
    let (t, _) = text::arbitrary(g);
    g.set_input(t.as_str());
    let n = lossless(&t)?;
    g.nontrivial = n >= 3;
    Ok(())
}

fn p05_shape(g: &mut G) -> R {
    let d = gen_doc_text(g, FULL);
    g.set_input(d.text.as_str());
    g.nontrivial = size_of(&d.tree) >= 4;
    label_used(g, &d.used);
    let p = styx_cst::parse(&d.text);
    ensure!(p.errors().is_empty(), "cst-error", "well-formed document: {:?}", p.errors());
    for x in styx_cst::validate(&p.syntax()) {
        ensure!(x.severity != styx_cst::Severity::Error, "cst-diagnostic", "well-formed document: {x:?}");
    }
    let got = match crate::cst::tree(&p.syntax()) {
        Ok(t) => t,
        Err(m) => bail!("cst-node-grammar", "{m}"),
    };
    if let Some((k, m)) = events::diff_entries("", &d.tree, &got) {
        bail!(format!("cst-{k}"), "{m}");
    }
    Ok(())
}
