//! Rebuild a tree from parser events, strictly.
use crate::model::*;
use styx_parse::{Event, EventKind, ScalarKind};

pub fn sk(k: ScalarKind) -> SK {
    match k {
        ScalarKind::Bare => SK::Bare,
        ScalarKind::Quoted => SK::Quoted,
        ScalarKind::Raw => SK::Raw,
        ScalarKind::Heredoc => SK::Heredoc,
    }
}

pub fn sp(s: styx_parse::Span) -> Span {
    (s.start, s.end)
}

/// The entries of an error-free document, or the first error event.
pub fn tree(evs: &[Event<'_>]) -> Result<Vec<TE>, String> {
    let mut p = P { e: evs, i: 0 };
    p.expect(|k| matches!(k, EventKind::DocumentStart), "DocumentStart")?;
    p.comments();
    let mut out = vec![];
    if matches!(p.kind(), Some(EventKind::ObjectStart)) {
        p.i += 1;
        out = p.entries()?;
        p.expect(|k| matches!(k, EventKind::ObjectEnd), "ObjectEnd")?;
    }
    p.comments();
    p.expect(|k| matches!(k, EventKind::DocumentEnd), "DocumentEnd")?;
    if p.i != evs.len() {
        return Err(format!("event after DocumentEnd: {:?}", evs[p.i]));
    }
    Ok(out)
}

/// A single value in expression mode.
pub fn expr(evs: &[Event<'_>]) -> Result<Option<T>, String> {
    if evs.is_empty() {
        return Ok(None);
    }
    let mut p = P { e: evs, i: 0 };
    let v = p.value()?;
    if p.i != evs.len() {
        return Err(format!("event after the value: {:?}", evs[p.i]));
    }
    Ok(Some(v))
}

struct P<'a, 'b> {
    e: &'a [Event<'b>],
    i: usize,
}

impl<'a, 'b> P<'a, 'b> {
    fn kind(&self) -> Option<&'a EventKind<'b>> {
        self.e.get(self.i).map(|e| &e.kind)
    }
    fn expect(&mut self, f: impl Fn(&EventKind) -> bool, what: &str) -> Result<Span, String> {
        match self.e.get(self.i) {
            Some(e) if f(&e.kind) => {
                self.i += 1;
                Ok(sp(e.span))
            }
            o => Err(format!("expected {what}, got {o:?}")),
        }
    }
    fn comments(&mut self) {
        while let Some(EventKind::Comment { .. }) = self.kind() {
            self.i += 1;
        }
    }
    fn entries(&mut self) -> Result<Vec<TE>, String> {
        let mut out = vec![];
        let mut doc: Option<Vec<String>> = None;
        loop {
            self.comments();
            match self.kind() {
                Some(EventKind::DocComment { lines }) => {
                    doc.get_or_insert_with(Vec::new).extend(lines.iter().map(|l| l.to_string()));
                    self.i += 1;
                }
                Some(EventKind::EntryStart) => {
                    self.i += 1;
                    let key = match self.kind() {
                        Some(EventKind::Key { tag, payload, kind }) => TK { tag: tag.map(|t| t.to_string()), payload: payload.as_ref().map(|p| (sk(*kind), p.to_string())), span: sp(self.e[self.i].span) },
                        o => return Err(format!("expected Key, got {o:?}")),
                    };
                    self.i += 1;
                    let val = self.value()?;
                    self.expect(|k| matches!(k, EventKind::EntryEnd), "EntryEnd")?;
                    out.push(TE { key, val, doc: doc.take() });
                }
                _ => {
                    if doc.is_some() {
                        return Err("doc comment without an entry".into());
                    }
                    return Ok(out);
                }
            }
        }
    }
    fn value(&mut self) -> Result<T, String> {
        let Some(e) = self.e.get(self.i) else { return Err("events end inside a value".into()) };
        let start = sp(e.span);
        self.i += 1;
        let v = match &e.kind {
            EventKind::Scalar { value, kind } => TV::Scalar { kind: sk(*kind), text: value.to_string() },
            EventKind::Unit => TV::Unit,
            EventKind::SequenceStart => {
                let mut items = vec![];
                while !matches!(self.kind(), Some(EventKind::SequenceEnd) | None) {
                    items.push(self.value()?);
                }
                self.expect(|k| matches!(k, EventKind::SequenceEnd), "SequenceEnd")?;
                TV::Seq(items)
            }
            EventKind::ObjectStart => {
                let es = self.entries()?;
                self.expect(|k| matches!(k, EventKind::ObjectEnd), "ObjectEnd")?;
                TV::Obj(es)
            }
            EventKind::TagStart { name } => {
                let payload = if matches!(self.kind(), Some(EventKind::TagEnd)) { None } else { Some(Box::new(self.value()?)) };
                self.expect(|k| matches!(k, EventKind::TagEnd), "TagEnd")?;
                TV::Tag { name: name.to_string(), payload }
            }
            o => return Err(format!("expected a value, got {o:?}")),
        };
        Ok(T { v, span: start })
    }
}

/// The first difference between an expected and an actual tree, with spans.
pub fn diff_entries(path: &str, a: &[TE], b: &[TE]) -> Option<(&'static str, String)> {
    if a.len() != b.len() {
        return Some(("structure", format!("{path}: {} entries expected, {} found", a.len(), b.len())));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let p = format!("{path}/{i}");
        if x.key.tag != y.key.tag || x.key.payload.as_ref().map(|p| &p.1) != y.key.payload.as_ref().map(|p| &p.1) {
            return Some(("key", format!("{p}: key {:?} expected, {:?} found", x.key, y.key)));
        }
        if x.key.payload != y.key.payload {
            return Some(("scalar-kind", format!("{p}: key {:?} expected, {:?} found", x.key, y.key)));
        }
        if x.key.span != y.key.span {
            return Some(("span", format!("{p}: key {:?} at {:?} expected, {:?} found", x.key.payload, x.key.span, y.key.span)));
        }
        if x.doc != y.doc {
            return Some(("doc-comment", format!("{p}: doc {:?} expected, {:?} found", x.doc, y.doc)));
        }
        if let Some(d) = diff_value(&p, &x.val, &y.val) {
            return Some(d);
        }
    }
    None
}
pub fn diff_value(p: &str, a: &T, b: &T) -> Option<(&'static str, String)> {
    match (&a.v, &b.v) {
        (TV::Scalar { kind: k1, text: t1 }, TV::Scalar { kind: k2, text: t2 }) => {
            if t1 != t2 {
                return Some(("scalar-text", format!("{p}: {t1:?} expected, {t2:?} found")));
            }
            if k1 != k2 {
                return Some(("scalar-kind", format!("{p}: {k1:?} expected, {k2:?} found")));
            }
        }
        (TV::Unit, TV::Unit) => {}
        (TV::Seq(x), TV::Seq(y)) => {
            if x.len() != y.len() {
                return Some(("structure", format!("{p}: {} elements expected, {} found", x.len(), y.len())));
            }
            for (i, (m, n)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff_value(&format!("{p}/{i}"), m, n) {
                    return Some(d);
                }
            }
        }
        (TV::Obj(x), TV::Obj(y)) => {
            if let Some(d) = diff_entries(p, x, y) {
                return Some(d);
            }
        }
        (TV::Tag { name: n1, payload: p1 }, TV::Tag { name: n2, payload: p2 }) => {
            if n1 != n2 {
                return Some(("tag", format!("{p}: @{n1} expected, @{n2} found")));
            }
            match (p1, p2) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    if let Some(d) = diff_value(&format!("{p}/@{n1}"), x, y) {
                        return Some(d);
                    }
                }
                (Some(x), None) if x.v == TV::Unit => {}
                _ => return Some(("structure", format!("{p}: payload {p1:?} expected, {p2:?} found"))),
            }
        }
        _ => return Some(("structure", format!("{p}: {:?} expected, {:?} found", a.v, b.v))),
    }
    if a.span != b.span && a.span.0 != u32::MAX {
        return Some(("span", format!("{p}: {:?} at {:?} expected, at {:?} found", a.v, a.span, b.span)));
    }
    None
}
