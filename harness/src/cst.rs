//! Rebuild a document's tree from the CST's nodes and tokens (with our own decoding of tokens).
use crate::model::*;
use styx_cst::{SyntaxKind as K, SyntaxNode, SyntaxToken};

fn rng(n: &SyntaxNode) -> Span {
    let r = n.text_range();
    (r.start().into(), r.end().into())
}

pub fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('u') => {
                let rest = it.as_str();
                let (hex, used) = match rest.strip_prefix('{') {
                    Some(r) => {
                        let n = r.find('}').unwrap_or(r.len());
                        (&r[..n], n + 2)
                    }
                    None => (&rest[..4.min(rest.len())], 4),
                };
                out.extend(u32::from_str_radix(hex, 16).ok().and_then(char::from_u32));
                it = rest.get(used..).unwrap_or("").chars();
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

pub fn dedent(content: &str, n: usize) -> String {
    let mut out = String::new();
    for (i, line) in content.split('\n').enumerate() {
        if i > 0 {
            out.push('\n');
        }
        let skip = line.chars().take(n).take_while(|c| *c == ' ' || *c == '\t').count();
        out.push_str(&line[skip..]);
    }
    out
}

fn token_text(t: &SyntaxToken) -> Option<(SK, String)> {
    let s = t.text();
    Some(match t.kind() {
        K::BARE_SCALAR => (SK::Bare, s.to_string()),
        K::QUOTED_SCALAR => (SK::Quoted, unescape(&s[1..s.len() - 1])),
        K::RAW_SCALAR => {
            let h = s[1..].chars().take_while(|c| *c == '#').count();
            (SK::Raw, s[2 + h..s.len() - 1 - h].to_string())
        }
        _ => return None,
    })
}

fn sole_node(n: &SyntaxNode) -> Result<SyntaxNode, String> {
    let v: Vec<_> = n.children().collect();
    match v.as_slice() {
        [x] => Ok(x.clone()),
        _ => Err(format!("{:?} at {:?} has {} child nodes", n.kind(), n.text_range(), v.len())),
    }
}

fn value(n: &SyntaxNode) -> Result<T, String> {
    let v = match n.kind() {
        K::SCALAR => {
            let t = n.first_token().ok_or("empty SCALAR")?;
            let (kind, text) = token_text(&t).ok_or_else(|| format!("SCALAR holds {:?}", t.kind()))?;
            TV::Scalar { kind, text }
        }
        K::HEREDOC => {
            let mut content = String::new();
            let mut ind = 0;
            for t in n.children_with_tokens().filter_map(|e| e.into_token()) {
                match t.kind() {
                    K::HEREDOC_CONTENT => content = t.text().to_string(),
                    K::HEREDOC_END => ind = t.text().chars().take_while(|c| *c == ' ' || *c == '\t').count(),
                    _ => {}
                }
            }
            TV::Scalar { kind: SK::Heredoc, text: if ind > 0 { dedent(&content, ind) } else { content } }
        }
        K::UNIT => TV::Unit,
        K::SEQUENCE => {
            let mut v = vec![];
            for e in n.children() {
                if e.kind() != K::ENTRY {
                    return Err(format!("SEQUENCE holds a {:?}", e.kind()));
                }
                let k = sole_node(&e)?;
                v.push(value(&sole_node(&k)?)?);
            }
            TV::Seq(v)
        }
        K::OBJECT => TV::Obj(entries(n, false)?),
        K::ATTRIBUTES => {
            let mut es = vec![];
            let mut end = rng(n).1;
            for a in n.children() {
                if a.kind() != K::ATTRIBUTE {
                    return Err(format!("ATTRIBUTES holds a {:?}", a.kind()));
                }
                let k = a.first_token().ok_or("empty ATTRIBUTE")?;
                if k.kind() != K::BARE_SCALAR {
                    return Err(format!("attribute key is a {:?}", k.kind()));
                }
                let (s, e) = (u32::from(k.text_range().start()), u32::from(k.text_range().end()));
                let val = value(&sole_node(&a)?)?;
                end = rng(&a).1;
                es.push(TE { key: TK { tag: None, payload: Some((SK::Bare, k.text().to_string())), span: (s, e) }, val, doc: None });
            }
            // The node may hold trailing blanks.
            return Ok(T { v: TV::Obj(es), span: (rng(n).0, end) });
        }
        K::TAG => {
            let t = n.first_token().ok_or("empty TAG")?;
            if t.kind() != K::TAG_TOKEN {
                return Err(format!("TAG starts with {:?}", t.kind()));
            }
            let payload = match n.children().next() {
                None => None,
                Some(p) if p.kind() == K::TAG_PAYLOAD => Some(Box::new(value(&sole_node(&p)?)?)),
                Some(p) => return Err(format!("TAG holds a {:?}", p.kind())),
            };
            TV::Tag { name: t.text()[1..].to_string(), payload }
        }
        k => return Err(format!("unexpected {k:?} at {:?}", n.text_range())),
    };
    Ok(T { v, span: rng(n) })
}

fn key(n: &SyntaxNode) -> Result<TK, String> {
    let c = sole_node(n)?;
    let v = value(&c)?;
    Ok(match v.v {
        TV::Scalar { kind, text } => TK { tag: None, payload: Some((kind, text)), span: v.span },
        TV::Unit => TK { tag: None, payload: None, span: v.span },
        TV::Tag { name, payload } => TK {
            tag: Some(name),
            payload: match payload.map(|p| p.v) {
                None | Some(TV::Unit) => None,
                Some(TV::Scalar { kind, text }) => Some((kind, text)),
                Some(o) => return Err(format!("key payload {o:?}")),
            },
            span: v.span,
        },
        o => return Err(format!("key is {o:?}")),
    })
}

/// Add an entry; at the root a bare key with dots is a path.
fn push_entry(out: &mut Vec<TE>, root: bool, k: TK, v: T, doc: Option<Vec<String>>) {
    match &k.payload {
        Some((SK::Bare, text)) if root && k.tag.is_none() && text.contains('.') => {
            let mut at = k.span.0 + text.len() as u32;
            let segs: Vec<&str> = text.split('.').collect();
            let mut cur = Some(v);
            for (i, s) in segs.iter().enumerate().rev() {
                let span = (at - s.len() as u32, at);
                at = span.0.saturating_sub(1);
                let te = TE { key: TK { tag: None, payload: Some((SK::Bare, s.to_string())), span }, val: cur.take().unwrap(), doc: if i == 0 { doc.clone() } else { None } };
                if i == 0 {
                    out.push(te);
                } else {
                    cur = Some(T { v: TV::Obj(vec![te]), span: (u32::MAX, u32::MAX) });
                }
            }
        }
        _ => out.push(TE { key: k, val: v, doc }),
    }
}

fn entries(n: &SyntaxNode, root: bool) -> Result<Vec<TE>, String> {
    let mut out = vec![];
    let mut docs: Option<Vec<String>> = None;
    for el in n.children_with_tokens() {
        match el {
            styx_cst::NodeOrToken::Token(t) if t.kind() == K::DOC_COMMENT => {
                let l = t.text();
                let l = l.strip_prefix("/// ").or_else(|| l.strip_prefix("///")).unwrap_or(l);
                docs.get_or_insert_with(Vec::new).push(l.to_string());
            }
            styx_cst::NodeOrToken::Token(_) => {}
            styx_cst::NodeOrToken::Node(e) => {
                if e.kind() != K::ENTRY {
                    return Err(format!("{:?} holds a {:?}", n.kind(), e.kind()));
                }
                let kids: Vec<_> = e.children().collect();
                let k = kids.first().filter(|k| k.kind() == K::KEY).ok_or_else(|| format!("ENTRY at {:?} starts with {:?}", e.text_range(), kids.first().map(|k| k.kind())))?;
                if kids.len() > 2 || kids.get(1).is_some_and(|v| v.kind() != K::VALUE) {
                    return Err(format!("ENTRY at {:?} has children {:?}", e.text_range(), kids.iter().map(|k| k.kind()).collect::<Vec<_>>()));
                }
                let k = key(k)?;
                let v = match kids.get(1) {
                    Some(v) => value(&sole_node(v)?)?,
                    None => T { v: TV::Unit, span: k.span },
                };
                let doc = docs.take();
                push_entry(&mut out, root, k, v, doc);
            }
        }
    }
    Ok(out)
}

/// The entries of a document without errors.
pub fn tree(root: &SyntaxNode) -> Result<Vec<TE>, String> {
    if root.kind() != K::DOCUMENT {
        return Err(format!("root is {:?}", root.kind()));
    }
    let es: Vec<_> = root.children().collect();
    if let [e] = es.as_slice()
        && let [k] = e.children().collect::<Vec<_>>().as_slice()
        && k.kind() == K::KEY
        && let [o] = k.children().collect::<Vec<_>>().as_slice()
        && o.kind() == K::OBJECT
    {
        return entries(o, true);
    }
    entries(root, true)
}

/// The same through the typed wrappers: their accessors decode the tokens.
pub mod typed {
    use super::*;
    use styx_cst::{AstNode, Document, Entry, Heredoc, Object, Scalar, ScalarKind, Sequence, Tag, Unit, Value, ValueKind};

    fn scalar(s: &Scalar) -> (SK, String) {
        let kind = match s.kind() {
            ScalarKind::Bare => SK::Bare,
            ScalarKind::Quoted => SK::Quoted,
            ScalarKind::Raw => SK::Raw,
        };
        (kind, s.text_content())
    }

    fn node(n: SyntaxNode) -> Result<T, String> {
        let span = rng(&n);
        if let K::ATTRIBUTES = n.kind() {
            // (there is no wrapper for attributes)
            return value(&n);
        }
        let v = if let Some(s) = Scalar::cast(n.clone()) {
            let (kind, text) = scalar(&s);
            if s.raw_text() != s.text() {
                return Err(format!("raw_text {:?} of {:?}", s.raw_text(), s.text()));
            }
            TV::Scalar { kind, text }
        } else if let Some(h) = Heredoc::cast(n.clone()) {
            let all = n.to_string();
            let end = all.lines().last().unwrap_or("").trim_start_matches([' ', '\t']).to_string();
            if h.delimiter().as_deref() != Some(&end) {
                return Err(format!("delimiter {:?} of {all:?}", h.delimiter()));
            }
            TV::Scalar { kind: SK::Heredoc, text: h.content() }
        } else if Unit::cast(n.clone()).is_some() {
            TV::Unit
        } else if let Some(s) = Sequence::cast(n.clone()) {
            let v = s.elements().map(node).collect::<Result<Vec<_>, _>>()?;
            if s.len() != v.len() || s.is_empty() != v.is_empty() || s.entries().count() != v.len() {
                return Err(format!("{} elements, len {}, {} entries", v.len(), s.len(), s.entries().count()));
            }
            TV::Seq(v)
        } else if let Some(o) = Object::cast(n.clone()) {
            let mut out = vec![];
            entries(o.entries(), false, &mut out)?;
            get_agrees(&o, &out)?;
            TV::Obj(out)
        } else if let Some(t) = Tag::cast(n.clone()) {
            let name = t.name().ok_or("tag without a name")?;
            TV::Tag { name, payload: t.payload().map(node).transpose()?.map(Box::new) }
        } else {
            return Err(format!("{:?} has no wrapper", n.kind()));
        };
        Ok(T { v, span })
    }

    /// `Object::get` finds the first entry of the text, whatever its spelling.
    fn get_agrees(o: &Object, es: &[TE]) -> Result<(), String> {
        for e in es {
            let (None, Some((_, text))) = (&e.key.tag, &e.key.payload) else { continue };
            let at = es.iter().find(|f| f.key.tag.is_none() && f.key.payload.as_ref().is_some_and(|p| p.1 == *text)).map(|f| f.key.span);
            let got = o.get(text).and_then(|e| e.key()).map(|k| rng(k.syntax()));
            // (other keys have an empty text)
            if !text.is_empty() && got != at {
                return Err(format!("get({text:?}) gives the entry at {got:?}, not {at:?}"));
            }
        }
        Ok(())
    }

    fn entries(it: impl Iterator<Item = Entry>, root: bool, out: &mut Vec<TE>) -> Result<(), String> {
        for e in it {
            let k = e.key().ok_or("entry without a key")?;
            let mut tk = key(k.syntax())?;
            if let (None, Some((_, text))) = (&tk.tag, &mut tk.payload) {
                *text = k.text_content();
                if e.key_text().as_ref() != Some(text) {
                    return Err(format!("key_text {:?}, text_content {text:?}", e.key_text()));
                }
            }
            if k.raw_text() != k.text() {
                return Err(format!("raw_text {:?} of {:?}", k.raw_text(), k.text()));
            }
            let v = match e.value().map(|v: Value| (v.kind(), v)) {
                None => T { v: TV::Unit, span: tk.span },
                Some((kind, v)) => match kind {
                    ValueKind::Scalar(x) => node(x.syntax().clone())?,
                    ValueKind::Object(x) => node(x.syntax().clone())?,
                    ValueKind::Sequence(x) => node(x.syntax().clone())?,
                    ValueKind::Unit(x) => node(x.syntax().clone())?,
                    ValueKind::Tag(x) => node(x.syntax().clone())?,
                    ValueKind::Heredoc(x) => node(x.syntax().clone())?,
                    ValueKind::Missing => {
                        let inner = sole_node(v.syntax())?;
                        if inner.kind() != K::ATTRIBUTES {
                            return Err(format!("the value at {:?} counts as missing", v.syntax().text_range()));
                        }
                        node(inner)?
                    }
                },
            };
            let doc: Vec<String> = e
                .doc_comments()
                .map(|t| {
                    let l = t.text().to_string();
                    l.strip_prefix("/// ").or_else(|| l.strip_prefix("///")).unwrap_or(&l).to_string()
                })
                .collect();
            push_entry(out, root, tk, v, (!doc.is_empty()).then_some(doc));
        }
        Ok(())
    }

    pub fn tree(root: SyntaxNode) -> Result<Vec<TE>, String> {
        let doc = Document::cast(root).ok_or("the root is no document")?;
        let es: Vec<Entry> = doc.entries().collect();
        let mut out = vec![];
        if let [e] = es.as_slice()
            && e.value().is_none()
            && let Some(o) = e.key().and_then(|k| k.syntax().children().find_map(Object::cast))
        {
            entries(o.entries(), true, &mut out)?;
        } else {
            entries(es.into_iter(), true, &mut out)?;
        }
        Ok(out)
    }
}
