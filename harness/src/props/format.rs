//! The formatters: source formatting (CST) and value formatting.
use super::lang;
use crate::core::*;
use crate::model::*;
use crate::text;
use crate::{bail, ensure};
use styx_format::FormatOptions;
use styx_tokenizer::{TokenKind, Tokenizer};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P06", name: "meaning", quick: 800_000, thorough: 6_400_000, run: p06_meaning, shrink: 3000, rule: "generated documents with comments in random layout, random indentation; non-trivial: the layout changed and at least 4 nodes" },
    Suite { prop: "P06", name: "tokens", quick: 1_200_000, thorough: 20_000_000, run: p06_tokens, shrink: 3000, rule: "arbitrary text, documents and edits of them; non-trivial: the formatter changed the text" },
    Suite { prop: "P07", name: "stable", quick: 1_200_000, thorough: 9_600_000, run: p07_stable, shrink: 3000, rule: "generated documents; non-trivial: the first pass changed the text" },
    Suite { prop: "P07", name: "any", quick: 1_800_000, thorough: 20_000_000, run: p07_any, shrink: 3000, rule: "arbitrary text; non-trivial: the first pass changed the text" },
    Suite { prop: "P22", name: "source", quick: 1_600_000, thorough: 10_000_000, run: p22_source, shrink: 3000, rule: "generated documents in random layout; non-trivial: at least 3 lines of output" },
    Suite { prop: "P22", name: "value", quick: 1_600_000, thorough: 10_000_000, run: p22_value, shrink: 3000, rule: "generated values under random options; non-trivial: at least 3 lines of output" },
];

pub fn oracle(name: &str) -> Option<super::Oracle> {
    Some(match name {
        "format-meaning" => |t, _| meaning(t, &FormatOptions::default()).map(|_| ()),
        "format-tokens" => |t, _| tokens(t, &FormatOptions::default()).map(|_| ()),
        "format-keeps-all" => |t, _| {
            let f = styx_format::format_source(t, FormatOptions::default());
            ensure!(significant(t) == significant(&f), "tokens-changed", "output {f:?}");
            Ok(())
        },
        "format-stable" => |t, _| stable(t, &FormatOptions::default()).map(|_| ()),
        _ => return None,
    })
}

fn options(g: &mut G) -> FormatOptions {
    let mut o = FormatOptions::default();
    o.indent = *g.pick(&["    ", "  ", "\t", "", " "]);
    o
}

/// Significant tokens: everything but blanks, line breaks and commas (free to change).
fn significant(t: &str) -> Vec<(TokenKind, String)> {
    Tokenizer::new(t)
        .filter(|k| !matches!(k.kind, TokenKind::Whitespace | TokenKind::Newline | TokenKind::Comma))
        .map(|k| {
            let s = match k.kind {
                // A comment ends at the line break; a \r before it is part of the break.
                TokenKind::LineComment | TokenKind::DocComment => k.text.trim_end_matches('\r'),
                _ => k.text,
            };
            (k.kind, s.to_string())
        })
        .collect()
}

pub fn tokens(t: &str, o: &FormatOptions) -> Result<bool, Fail> {
    let f = styx_format::format_source(t, o.clone());
    if f == t {
        return Ok(false);
    }
    let (a, b) = (significant(t), significant(&f));
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        bail!("tokens-changed", "token {i}: {:?} became {:?}; output {f:?}", a.get(i), b.get(i));
    }
    ensure!(styx_cst::parse(&f).errors().is_empty(), "output-has-errors", "output {f:?}");
    let was = styx_tree::parse(t);
    let is = styx_tree::parse(&f);
    match (&was, &is) {
        (Ok(_), Err(e)) => bail!("output-rejected", "{e:?}; output {f:?}"),
        (Err(e), Ok(_)) => bail!("output-accepted", "the input is rejected ({e:?}); output {f:?}"),
        (Ok(a), Ok(b)) => ensure!(from_tree(a) == from_tree(b), "meaning-changed", "output {f:?}"),
        _ => {}
    }
    Ok(true)
}

fn comments(t: &str) -> Vec<String> {
    Tokenizer::new(t).filter(|k| matches!(k.kind, TokenKind::LineComment | TokenKind::DocComment)).map(|k| k.text.trim_end_matches('\r').to_string()).collect()
}

pub fn meaning(t: &str, o: &FormatOptions) -> Result<bool, Fail> {
    let Ok(was) = styx_tree::parse(t) else { return Ok(false) };
    let f = styx_format::format_source(t, o.clone());
    let is = match styx_tree::parse(&f) {
        Ok(x) => x,
        Err(e) => bail!("output-rejected", "{e:?}; output {f:?}"),
    };
    let (a, b) = (from_tree(&was), from_tree(&is));
    if drop_docs(&a) != drop_docs(&b) {
        bail!("meaning-changed", "output {f:?}");
    }
    ensure!(a == b, "doc-comments-changed", "output {f:?}");
    ensure!(comments(t) == comments(&f), "comments-changed", "output {f:?}");
    for (i, l) in f.split('\n').enumerate() {
        let _ = (i, l);
    }
    ensure!(f.is_empty() || f.ends_with('\n'), "no-final-newline", "output {f:?}");
    Ok(f != t)
}

fn p06_meaning(g: &mut G) -> R {
    let d = gen_doc_text(g, FULL);
    let o = options(g);
    g.set_input(d.text.as_str());
    lang::label_used(g, &d.used);
    // The model says what the text means; the formatter's output must mean it too.
    let f = styx_format::format_source(&d.text, o.clone());
    g.nontrivial = f != d.text && size_of(&d.tree) >= 4;
    meaning(&d.text, &o)?;
    tokens(&d.text, &o)?;
    let p = styx_cst::parse(&f);
    let got = match crate::cst::tree(&p.syntax()) {
        Ok(t) => t,
        Err(m) => bail!("output-node-grammar", "{m}; output {f:?}"),
    };
    if let Some((k, m)) = crate::events::diff_entries("", &no_spans(&d.tree), &no_spans(&got)) {
        bail!(format!("output-{k}"), "{m}; output {f:?}");
    }
    Ok(())
}

fn no_spans(es: &[TE]) -> Vec<TE> {
    fn v(t: &T) -> T {
        T {
            span: (0, 0),
            v: match &t.v {
                TV::Seq(x) => TV::Seq(x.iter().map(v).collect()),
                TV::Obj(x) => TV::Obj(no_spans(x)),
                TV::Tag { name, payload } => TV::Tag { name: name.clone(), payload: payload.as_ref().map(|p| Box::new(v(p))) },
                o => o.clone(),
            },
        }
    }
    es.iter().map(|e| TE { key: TK { span: (0, 0), ..e.key.clone() }, val: v(&e.val), doc: e.doc.clone() }).collect()
}

fn p06_tokens(g: &mut G) -> R {
    let (t, _) = text::arbitrary(g);
    let o = options(g);
    g.set_input(t.as_str());
    // Known finding: what the parser rejects but the syntax tree tolerates may lose values.
    if styx_tree::parse(&t).is_ok() {
        g.label("accepted");
        g.nontrivial = tokens(&t, &o)?;
    }
    if styx_cst::parse(&t).errors().is_empty() {
        g.label("no syntax error");
    } else {
        ensure!(styx_format::format_source(&t, o) == t, "broken-document-changed", "a document with syntax errors was reformatted");
    }
    Ok(())
}

pub fn stable(t: &str, o: &FormatOptions) -> Result<bool, Fail> {
    let a = styx_format::format_source(t, o.clone());
    let b = styx_format::format_source(&a, o.clone());
    ensure!(a == b, "not-idempotent", "first pass {a:?}, second pass {b:?}");
    Ok(a != t)
}
fn p07_stable(g: &mut G) -> R {
    let d = gen_doc_text(g, FULL);
    let o = options(g);
    g.set_input(d.text.as_str());
    lang::label_used(g, &d.used);
    g.nontrivial = stable(&d.text, &o)?;
    Ok(())
}
fn p07_any(g: &mut G) -> R {
    let (t, _) = text::arbitrary(g);
    let o = options(g);
    g.set_input(t.as_str());
    if styx_tree::parse(&t).is_ok() || !styx_cst::parse(&t).errors().is_empty() {
        g.nontrivial = stable(&t, &o)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Layout
// ---------------------------------------------------------------------------------------------

/// Check the lines of formatted text: indented by nesting, nothing superfluous.
pub fn layout(f: &str, indent: &str, style: &str) -> R {
    let mut heredoc = false; // since the last line break
    let mut object = false; // the last token opens an object
    let mut brackets: Vec<usize> = vec![]; // indentation of the line where each open bracket stands
    let mut here = 0; // that of the current line
    let mut start = true;
    let mut blank = 0;
    let mut after_space = false;
    let mut after_open = true; // nothing on the page yet
    for t in Tokenizer::new(f) {
        let at = &f[..t.span.start as usize];
        let line = at.rsplit('\n').next().unwrap();
        match t.kind {
            TokenKind::Whitespace => {
                ensure!(start || t.text == " ", "spaces", "{:?} after {line:?}", t.text);
                after_space = true;
                continue;
            }
            TokenKind::Newline => {
                ensure!(!after_space, "trailing-space", "{line:?}");
                if start {
                    blank += 1;
                    ensure!(blank < 2, "blank-lines", "two blank lines in {f:?}");
                    ensure!(!after_open, "blank-line-at-start", "{f:?}");
                }
                start = true;
                after_space = false;
                continue;
            }
            TokenKind::Eof => {
                ensure!(blank == 0 && !after_space, "blank-line-at-end", "{f:?}");
                break;
            }
            _ => {}
        }
        if style == "Inline" && start && !brackets.is_empty() {
            ensure!(heredoc || matches!(t.kind, TokenKind::HeredocContent | TokenKind::HeredocEnd), "inline-style", "a line break inside brackets of {f:?}");
        }
        if style == "Multiline" && object {
            ensure!(start || t.kind == TokenKind::RBrace, "multiline-style", "an entry on the line of the brace in {f:?}");
        }
        heredoc = t.kind == TokenKind::HeredocEnd;
        object = t.kind == TokenKind::LBrace;
        let closing = matches!(t.kind, TokenKind::RBrace | TokenKind::RParen);
        if start && !matches!(t.kind, TokenKind::HeredocContent | TokenKind::HeredocEnd) {
            let want = if closing { *brackets.last().unwrap_or(&0) } else { brackets.last().map_or(0, |d| d + 1) };
            ensure!(line == indent.repeat(want), "indentation", "line {:?} of {f:?} is not indented by {want}", line.to_string() + t.text);
            ensure!(!(closing && blank > 0), "blank-line-before-end", "{f:?}");
            here = want;
        }
        start = false;
        after_space = false;
        blank = 0;
        after_open = false;
        match t.kind {
            TokenKind::LBrace | TokenKind::LParen => {
                brackets.push(here);
                after_open = true;
            }
            TokenKind::RBrace | TokenKind::RParen => {
                brackets.pop();
            }
            _ => {}
        }
        if t.text.ends_with('\n') {
            start = true;
        }
    }
    Ok(())
}

fn p22_source(g: &mut G) -> R {
    let text = match g.chance(1, 3) {
        true => text::arbitrary(g).0,
        false => gen_doc_text(g, FULL).text,
    };
    let o = options(g);
    g.set_input(text.as_str());
    // Broken text is returned as it is.
    if styx_tree::parse(&text).is_err() || !styx_cst::parse(&text).errors().is_empty() {
        return Ok(());
    }
    let f = styx_format::format_source(&text, o.clone());
    g.nontrivial = f.lines().count() >= 3;
    layout(&f, o.indent, "")
}
fn p22_value(g: &mut G) -> R {
    let o = super::value::options(g);
    // Doc comments need lines of their own, which the inline style does not allow for.
    let inline = format!("{:?}", o.force_style) == "Inline";
    let es = gen_entries(g, &Cfg { docs: !inline, ..FULL }, 3);
    let v = super::value::to_value(&V::Obj(es));
    let f = styx_format::format_value(&v, o.clone());
    g.set_input(f.as_str());
    g.nontrivial = f.lines().count() >= 3;
    layout(&f, o.indent, &format!("{:?}", o.force_style))
}
