//! The language server, driven in process through its JSON-RPC interface.
use super::lang;
use crate::core::*;
use crate::model::*;
use crate::text;
use crate::{bail, ensure};
use futures::{FutureExt, StreamExt};
use serde_json::{Value as J, json};
use std::collections::HashMap;
use styx_tokenizer::{TokenKind, Tokenizer};
use tower::{Service, ServiceExt};
use tower_lsp::jsonrpc::Request;
use tower_lsp::{ClientSocket, LspService};

pub const SUITES: &[Suite] = &[
    Suite { prop: "P15", name: "any-text", quick: 48_000, thorough: 1_500_000, run: p15_any, shrink: 1500, rule: "histories of open, change, close and requests over arbitrary text; non-trivial: at least 3 steps on an open document" },
    Suite { prop: "P15", name: "document", quick: 120_000, thorough: 4_000_000, run: p15_doc, shrink: 2000, rule: "generated documents: highlighting, outline, indentation, formatting against the document's tree; non-trivial: at least 4 nodes" },
    Suite { prop: "P16", name: "schema", quick: 40_000, thorough: 4_000_000, run: p15_schema, shrink: 2000, rule: "a generated schema and a document near it: diagnostics, hover, definition, completion, link; non-trivial: a field of the document is asked about" },
    Suite { prop: "P16", name: "schema-robust", quick: 8_000, thorough: 800_000, run: p15_schema_robust, shrink: 2000, rule: "self-referring or damaged schemas: every request is answered, with ranges in the document; non-trivial: the schema is read" },
];

pub fn oracle(name: &str) -> Option<super::Oracle> {
    Some(match name {
        "lsp-answers" => |t, d| {
            scratch_env(d);
            let mut s = Server::new();
            let u = "file:///scratch/a.styx";
            s.open(u, 1, t)?;
            all_requests(&mut s, u, t, &[(0, 0)])
        },
        _ => return None,
    })
}

/// The server may read and write user configuration and caches: keep it in the scratch directory.
pub fn scratch_env(dir: &str) {
    for v in ["HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME"] {
        unsafe { std::env::set_var(v, dir) };
    }
}

pub struct Server {
    rt: tokio::runtime::Runtime,
    svc: LspService<styx_lsp::StyxLanguageServer>,
    socket: ClientSocket,
    id: i64,
    pub sent: Vec<Request>,
}

impl Server {
    pub fn new() -> Server {
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let (svc, socket) = LspService::new(styx_lsp::StyxLanguageServer::new);
        let mut s = Server { rt, svc, socket, id: 0, sent: vec![] };
        s.call("initialize", json!({"processId": null, "capabilities": {}, "rootUri": null})).ok();
        s.notify("initialized", json!({}));
        s.sent.clear();
        s
    }
    fn send(&mut self, r: Request) -> Option<tower_lsp::jsonrpc::Response> {
        let Server { rt, svc, socket, sent, .. } = self;
        rt.block_on(async {
            let call = async {
                svc.ready().await.unwrap();
                svc.call(r).await
            };
            tokio::pin!(call);
            let out = loop {
                tokio::select! {
                    biased;
                    Some(m) = socket.next() => sent.push(m),
                    r = &mut call => break r,
                }
            };
            while let Some(Some(m)) = socket.next().now_or_never() {
                sent.push(m);
            }
            out.ok().flatten()
        })
    }
    pub fn call(&mut self, method: &'static str, params: J) -> Result<J, Fail> {
        self.id += 1;
        let p = params.to_string();
        let r = Request::build(method).id(self.id).params(params).finish();
        match self.send(r) {
            None => fail("no-answer", format!("{method} {p}: no response")),
            Some(r) => match r.into_parts().1 {
                Ok(v) => Ok(v),
                Err(e) => fail("request-failed", format!("{method} {p}: {e}")),
            },
        }
    }
    pub fn notify(&mut self, method: &'static str, params: J) {
        self.send(Request::build(method).params(params).finish());
    }
    /// The diagnostics that the last notification published.
    fn diagnostics(&mut self, uri: &str, version: Option<i64>) -> Result<Vec<J>, Fail> {
        let mut got = None;
        for m in std::mem::take(&mut self.sent) {
            if m.method() != "textDocument/publishDiagnostics" {
                continue;
            }
            let p = m.params().cloned().unwrap_or(J::Null);
            ensure!(got.is_none(), "diagnostics-twice", "published twice: {p}");
            ensure!(p["uri"] == uri, "diagnostics-uri", "{p} for {uri}");
            ensure!(p["version"].as_i64() == version, "diagnostics-version", "{p}, expected version {version:?}");
            got = Some(p["diagnostics"].as_array().cloned().unwrap_or_default());
        }
        match got {
            Some(d) => Ok(d),
            None => fail("no-diagnostics", format!("nothing published for {uri}")),
        }
    }
    pub fn open(&mut self, uri: &str, version: i64, text: &str) -> Result<Vec<J>, Fail> {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "styx", "version": version, "text": text}}));
        self.diagnostics(uri, Some(version))
    }
    pub fn change(&mut self, uri: &str, version: i64, texts: &[&str]) -> Result<Vec<J>, Fail> {
        let ch: Vec<J> = texts.iter().map(|t| json!({"text": t})).collect();
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": ch}));
        self.diagnostics(uri, Some(version))
    }
    pub fn close(&mut self, uri: &str) -> Result<Vec<J>, Fail> {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
        self.diagnostics(uri, None)
    }
    pub fn at(&mut self, method: &'static str, uri: &str, pos: (u64, u64)) -> Result<J, Fail> {
        let mut p = json!({"textDocument": {"uri": uri}, "position": {"line": pos.0, "character": pos.1}});
        if method == "textDocument/references" {
            p["context"] = json!({"includeDeclaration": true});
        }
        self.call(method, p)
    }
    pub fn whole(&mut self, method: &'static str, uri: &str) -> Result<J, Fail> {
        self.call(method, json!({"textDocument": {"uri": uri}}))
    }
}

/// Lines of a text for the protocol: positions are (line, UTF-16 units).
pub struct Lines<'a> {
    text: &'a str,
    starts: Vec<usize>,
}
impl<'a> Lines<'a> {
    pub fn new(text: &'a str) -> Self {
        let mut starts = vec![0];
        starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        Lines { text, starts }
    }
    fn line(&self, n: usize) -> &'a str {
        let end = self.starts.get(n + 1).copied().unwrap_or(self.text.len());
        self.text[self.starts[n]..end].trim_end_matches('\n')
    }
    pub fn pos(&self, offset: usize) -> (u64, u64) {
        let l = self.starts.partition_point(|s| *s <= offset) - 1;
        (l as u64, self.text[self.starts[l]..offset].encode_utf16().count() as u64)
    }
    /// The offset of a position, if the position exists in the document.
    pub fn offset(&self, p: (u64, u64)) -> Option<usize> {
        if p.0 as usize >= self.starts.len() {
            return None;
        }
        let l = self.line(p.0 as usize);
        let mut c = 0u64;
        for (i, ch) in l.char_indices() {
            if c == p.1 {
                return Some(self.starts[p.0 as usize] + i);
            }
            c += ch.len_utf16() as u64;
        }
        (c == p.1).then(|| self.starts[p.0 as usize] + l.len())
    }
    pub fn range(&self, r: &J) -> Result<(usize, usize), Fail> {
        // The first character of the document, where nothing better is known: clients cut it off.
        if *r == json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}) {
            return Ok((0, self.line(0).chars().next().map_or(0, |c| c.len_utf8())));
        }
        let p = |x: &J| (x["line"].as_u64().unwrap_or(u64::MAX), x["character"].as_u64().unwrap_or(u64::MAX));
        match (self.offset(p(&r["start"])), self.offset(p(&r["end"]))) {
            (Some(a), Some(b)) if a <= b => Ok((a, b)),
            _ => fail("range-outside-document", format!("{r} does not exist in the document")),
        }
    }
    fn random(&self, g: &mut G) -> (u64, u64) {
        match g.below(8) {
            0 => (g.below(self.starts.len() as u64 + 2), g.below(40)),
            1 => (g.below(3), [u32::MAX as u64, 0][g.below(2) as usize]),
            _ => {
                let mut o = g.below(self.text.len() as u64 + 1) as usize;
                while !self.text.is_char_boundary(o) {
                    o -= 1;
                }
                self.pos(o)
            }
        }
    }
}

/// Every `range` in an answer that is about this document lies in it.
fn ranges(v: &J, uri: &str, l: &Lines) -> R {
    match v {
        J::Array(a) => {
            for x in a {
                ranges(x, uri, l)?;
            }
        }
        J::Object(o) => {
            if o.get("uri").and_then(|u| u.as_str()).is_some_and(|u| u != uri) || o.contains_key("target") && !o.contains_key("range") {
                return Ok(());
            }
            for (k, x) in o {
                match k.as_str() {
                    "range" | "selectionRange" if x.is_object() => {
                        l.range(x)?;
                    }
                    "position" => {
                        l.range(&json!({"start": x, "end": x}))?;
                    }
                    _ => ranges(x, uri, l)?,
                }
            }
            if let (Some(r), Some(s)) = (o.get("range"), o.get("selectionRange")) {
                let (r, s) = (l.range(r)?, l.range(s)?);
                ensure!(r.0 <= s.0 && s.1 <= r.1, "selection-outside-symbol", "{v}");
            }
        }
        _ => {}
    }
    Ok(())
}

pub const POSITIONAL: &[&str] = &["textDocument/hover", "textDocument/definition", "textDocument/completion", "textDocument/references"];

fn on_type(s: &mut Server, uri: &str, p: (u64, u64), tab: u64, spaces: bool) -> Result<J, Fail> {
    s.call("textDocument/onTypeFormatting", json!({"textDocument": {"uri": uri}, "position": {"line": p.0, "character": p.1}, "ch": "\n", "options": {"tabSize": tab, "insertSpaces": spaces}}))
}
fn formatting(s: &mut Server, uri: &str, tab: u64, spaces: bool) -> Result<J, Fail> {
    s.call("textDocument/formatting", json!({"textDocument": {"uri": uri}, "options": {"tabSize": tab, "insertSpaces": spaces}}))
}
fn in_range(s: &mut Server, method: &'static str, uri: &str, a: (u64, u64), b: (u64, u64)) -> Result<J, Fail> {
    let mut p = json!({"textDocument": {"uri": uri}, "range": {"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}}});
    if method == "textDocument/codeAction" {
        p["context"] = json!({"diagnostics": []});
    }
    s.call(method, p)
}

/// Each kind of request once, at the given positions: answers, and ranges in the document.
fn all_requests(s: &mut Server, uri: &str, t: &str, at: &[(u64, u64)]) -> R {
    let l = Lines::new(t);
    for m in ["textDocument/semanticTokens/full", "textDocument/documentSymbol", "textDocument/documentLink"] {
        let r = s.whole(m, uri)?;
        ranges(&r, uri, &l)?;
        if m == "textDocument/semanticTokens/full" {
            decode(&r, &l)?;
        }
    }
    let e = formatting(s, uri, 2, true)?;
    ranges(&e, uri, &l)?;
    for &p in at {
        for m in POSITIONAL {
            let r = s.at(m, uri, p)?;
            ranges(&r, uri, &l)?;
        }
        on_type(s, uri, p, 2, true)?;
        for m in ["textDocument/codeAction", "textDocument/inlayHint"] {
            let r = in_range(s, m, uri, p, p)?;
            ranges(&r, uri, &l)?;
        }
    }
    Ok(())
}

fn is_error(d: &J) -> bool {
    d["severity"].as_u64() == Some(1)
}

fn check_diagnostics(ds: &[J], t: &str) -> R {
    let l = Lines::new(t);
    for d in ds {
        ranges(d, "", &l)?;
        ensure!(d["message"].as_str().is_some_and(|m| !m.is_empty()), "diagnostic-without-message", "{d}");
    }
    if styx_tree::parse(t).is_err() {
        ensure!(ds.iter().any(is_error), "rejected-without-diagnostic", "the parser rejects the text, the server publishes {ds:?}");
    }
    Ok(())
}

fn p15_any(g: &mut G) -> R {
    scratch_env(&g.dir.clone());
    let uris = ["file:///scratch/a.styx", "file:///scratch/b.styx"];
    let mut s = Server::new();
    let mut open: HashMap<usize, String> = HashMap::new();
    let n = g.size(1, 7);
    let mut log = String::new();
    let mut asked = 0;
    let mut version = 0;
    for _ in 0..n {
        let u = g.below(2) as usize;
        let uri = uris[u];
        version += 1;
        match g.weighted(&[5, 1, 6]) {
            0 => {
                let (t, _) = text::arbitrary(g);
                let ds = if open.contains_key(&u) {
                    if g.chance(1, 4) {
                        let (old, _) = text::arbitrary(g);
                        log.push_str(&format!("change {u}: {old:?} then {t:?}\n"));
                        g.set_input(log.as_str());
                        s.change(uri, version, &[&old, &t])?
                    } else {
                        log.push_str(&format!("change {u}: {t:?}\n"));
                        g.set_input(log.as_str());
                        s.change(uri, version, &[&t])?
                    }
                } else {
                    log.push_str(&format!("open {u}: {t:?}\n"));
                    g.set_input(log.as_str());
                    s.open(uri, version, &t)?
                };
                check_diagnostics(&ds, &t)?;
                // What the server says depends on the text alone.
                let mut fresh = Server::new();
                let ds2 = fresh.open(uri, version, &t)?;
                ensure!(ds == ds2, "diagnostics-depend-on-history", "{ds:?}, in a fresh server {ds2:?}");
                open.insert(u, t);
            }
            1 => {
                if open.remove(&u).is_some() {
                    log.push_str(&format!("close {u}\n"));
                    g.set_input(log.as_str());
                    let ds = s.close(uri)?;
                    ensure!(ds.is_empty(), "diagnostics-after-close", "{ds:?}");
                }
            }
            _ => {
                let Some(t) = open.get(&u) else {
                    for m in POSITIONAL {
                        let r = s.at(m, uri, (0, 0))?;
                        ensure!(r.is_null(), "answer-about-closed", "{m}: {r}");
                    }
                    for m in ["textDocument/semanticTokens/full", "textDocument/documentSymbol", "textDocument/documentLink"] {
                        let r = s.whole(m, uri)?;
                        ensure!(r.is_null(), "answer-about-closed", "{m}: {r}");
                    }
                    continue;
                };
                let l = Lines::new(t);
                let p = l.random(g);
                log.push_str(&format!("ask {u} at {p:?}\n"));
                g.set_input(log.as_str());
                all_requests(&mut s, uri, t, &[p])?;
                let mut fresh = Server::new();
                fresh.open(uri, version, t)?;
                for m in ["textDocument/semanticTokens/full", "textDocument/documentSymbol"] {
                    let (a, b) = (s.whole(m, uri)?, fresh.whole(m, uri)?);
                    ensure!(a == b, "answer-depends-on-history", "{m}: {a}, in a fresh server {b}");
                }
                asked += 1;
            }
        }
    }
    g.nontrivial = asked >= 1 && n >= 3;
    Ok(())
}

const TYPES: [&str; 8] = ["comment", "string", "number", "keyword", "type", "enumMember", "property", "operator"];

/// (start, end, type, modifiers) of every semantic token.
fn decode(r: &J, l: &Lines) -> Result<Vec<(usize, usize, usize, u64)>, Fail> {
    let data: Vec<u64> = r["data"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect()).unwrap_or_default();
    ensure!(data.len() % 5 == 0, "tokens-ragged", "{} numbers", data.len());
    let (mut line, mut col) = (0u64, 0u64);
    let mut out: Vec<(usize, usize, usize, u64)> = vec![];
    for c in data.chunks(5) {
        if c[0] > 0 {
            line += c[0];
            col = 0;
        }
        col += c[1];
        let (a, b) = match (l.offset((line, col)), l.offset((line, col + c[2]))) {
            (Some(a), Some(b)) => (a, b),
            _ => bail!("token-outside-line", "token at {line}:{col} of length {} does not fit its line", c[2]),
        };
        ensure!(a < b, "token-empty", "empty token at {line}:{col}");
        ensure!(out.last().is_none_or(|p| p.1 <= a), "tokens-overlap", "token at {line}:{col} overlaps the one before");
        ensure!((c[3] as usize) < TYPES.len(), "token-type-unknown", "type {}", c[3]);
        out.push((a, b, c[3] as usize, c[4]));
    }
    Ok(out)
}

/// What each byte of a document is, for highlighting. 255: nothing; 254: do not care.
fn classify(t: &str, tree: &[TE], heredoc: bool) -> Vec<u8> {
    let mut out = vec![255u8; t.len()];
    let mut fill = |a: usize, b: usize, k: u8| {
        for x in &mut out[a..b] {
            *x = k;
        }
    };
    for k in Tokenizer::new(t) {
        let (a, b) = (k.span.start as usize, k.span.end as usize);
        match k.kind {
            TokenKind::LineComment => fill(a, b, 0),
            TokenKind::DocComment => fill(a, b, 100),
            TokenKind::HeredocStart | TokenKind::HeredocEnd => fill(a, b, 7),
            TokenKind::HeredocContent if heredoc => fill(a, b, 1),
            _ => {}
        }
    }
    fn value(t: &str, v: &T, fill: &mut dyn FnMut(usize, usize, u8)) {
        let (a, b) = (v.span.0 as usize, v.span.1 as usize);
        match &v.v {
            TV::Scalar { kind: SK::Heredoc, .. } => {}
            TV::Scalar { .. } => fill(a, b, 1),
            TV::Unit => fill(a, b, 4),
            TV::Seq(x) => x.iter().for_each(|x| value(t, x, fill)),
            TV::Obj(es) => entries(t, es, fill),
            TV::Tag { name, payload } => {
                fill(a, a + 1 + name.len(), 4);
                if let Some(p) = payload {
                    value(t, p, fill);
                }
            }
        }
    }
    fn entries(t: &str, es: &[TE], fill: &mut dyn FnMut(usize, usize, u8)) {
        for e in es {
            let (a, b) = (e.key.span.0 as usize, e.key.span.1 as usize);
            match (&e.key.tag, &e.key.payload) {
                (None, Some(_)) => fill(a, b, 6),
                (None, None) => fill(a, b, 4),
                (Some(n), p) => {
                    fill(a, a + 1 + n.len(), 6);
                    if p.is_some() {
                        fill(a + 1 + n.len(), b, 254);
                    }
                }
            }
            match t.as_bytes().get(b) {
                // attribute, dotted path
                Some(b'>') => fill(b, b + 1, 7),
                Some(b'.') => fill(b, b + 1, 6),
                _ => {}
            }
            // The implied value of an entry without one has the key's span, or none.
            if !(matches!(e.val.v, TV::Unit) && t.as_bytes().get(e.val.span.0 as usize) != Some(&b'@')) && e.val.span != e.key.span {
                value(t, &e.val, fill);
            } 
            if let TV::Obj(es) = &e.val.v
                && e.val.span == e.key.span
            {
                entries(t, es, fill);
            }
        }
    }
    entries(t, tree, &mut fill);
    out
}

fn compare_classes(what: &str, t: &str, want: &[u8], got: &[u8]) -> R {
    for (i, c) in t.char_indices() {
        if c == '\n' || c == '\r' || want[i] == 254 || want[i] == got[i] {
            continue;
        }
        let name = |k: u8| match k {
            255 => "nothing",
            100 => "doc comment",
            k => TYPES[k as usize],
        };
        bail!(format!("{what}-{}", name(want[i])), "byte {i} ({c:?}) is highlighted as {}, it is {}", name(got[i]), name(want[i]));
    }
    Ok(())
}

fn check_tokens(s: &mut Server, uri: &str, t: &str, tree: &[TE]) -> R {
    let l = Lines::new(t);
    let r = s.whole("textDocument/semanticTokens/full", uri)?;
    let mut got = vec![255u8; t.len()];
    for (a, b, k, m) in decode(&r, &l)? {
        let k = match (k, m) {
            (0, 1) => 100,
            (k, 0) => k as u8,
            _ => bail!("token-modifiers", "type {k} with modifiers {m}"),
        };
        got[a..b].fill(k);
    }
    compare_classes("tokens", t, &classify(t, tree, false), &got)?;
    // The spans for terminal output: the same, with heredoc contents as strings.
    let mut got = vec![255u8; t.len()];
    let mut last = 0;
    for h in styx_lsp::compute_highlight_spans(&styx_cst::parse(t)) {
        ensure!(last <= h.start && h.start <= h.end && h.end <= t.len(), "spans-overlap", "{h:?} after {last}");
        last = h.end;
        let k = h.token_type as u8;
        got[h.start..h.end].fill(if k == 0 && h.is_doc_comment { 100 } else { k });
    }
    compare_classes("spans", t, &classify(t, tree, true), &got)
}

fn check_indent(s: &mut Server, g: &mut G, uri: &str, t: &str) -> R {
    let l = Lines::new(t);
    let p = l.random(g);
    let off = match l.offset(p) {
        Some(o) => o,
        None => return Ok(()),
    };
    let (tab, spaces) = (g.range(1, 8) as u64, g.coin());
    let mut depth = 0i64;
    for k in Tokenizer::new(t) {
        match k.kind {
            TokenKind::LBrace | TokenKind::LParen if k.span.end as usize <= off => depth += 1,
            TokenKind::RBrace | TokenKind::RParen if (k.span.start as usize) < off => depth -= 1,
            _ => {}
        }
    }
    let unit = if spaces { " ".repeat(tab as usize) } else { "\t".into() };
    let r = on_type(s, uri, p, tab, spaces)?;
    let want = json!([{"range": {"start": {"line": p.0, "character": 0}, "end": {"line": p.0, "character": 0}}, "newText": unit.repeat(depth.max(0) as usize)}]);
    ensure!(r == want, "indent-depth", "at {p:?} (byte {off}) inside {depth} containers: {r}");
    Ok(())
}

/// Apply text edits to a document.
pub fn apply(t: &str, edits: &J) -> Result<String, Fail> {
    let l = Lines::new(t);
    let mut es = vec![];
    for e in edits.as_array().into_iter().flatten() {
        es.push((l.range(&e["range"])?, e["newText"].as_str().unwrap_or("").to_string()));
    }
    es.sort_by_key(|e| e.0);
    for w in es.windows(2) {
        ensure!(w[0].0.1 <= w[1].0.0, "edits-overlap", "{edits}");
    }
    let mut out = t.to_string();
    for ((a, b), n) in es.into_iter().rev() {
        out.replace_range(a..b, &n);
    }
    Ok(out)
}

fn check_formatting(s: &mut Server, g: &mut G, uri: &str, t: &str) -> R {
    let (tab, spaces) = (g.range(0, 8) as u64, g.coin());
    let r = formatting(s, uri, tab, spaces)?;
    let indent: &'static str = if spaces { ["", " ", "  ", "   ", "    ", "     ", "      ", "       ", "        "][tab as usize] } else { "\t" };
    let want = styx_format::format_source(t, styx_format::FormatOptions::default().indent(indent));
    let got = apply(t, &r)?;
    ensure!(got == want, "formatting-edit", "applying the edits gives {got:?}, the formatter {want:?}");
    Ok(())
}

fn scalar_key(e: &TE) -> Option<&str> {
    match (&e.key.tag, &e.key.payload) {
        (None, Some((_, s))) => Some(s),
        _ => None,
    }
}

fn payload(v: &T) -> &T {
    match &v.v {
        TV::Tag { payload: Some(p), .. } => payload(p),
        _ => v,
    }
}

fn check_symbols(path: &str, syms: &J, es: &[TE], t: &str, l: &Lines) -> R {
    let got: Vec<&J> = syms.as_array().map(|a| a.iter().collect()).unwrap_or_default();
    let want: Vec<&TE> = es.iter().filter(|e| scalar_key(e).is_some()).collect();
    let names = |g: &[&J]| g.iter().map(|s| s["name"].as_str().unwrap_or("?").to_string()).collect::<Vec<_>>();
    // Entries whose key is a tag or a unit may be left out of the outline or not.
    let g2: Vec<&J> = got.iter().copied().filter(|s| es.iter().all(|e| scalar_key(e).is_some() || l.range(&s["selectionRange"]).ok() != Some((e.key.span.0 as usize, e.key.span.1 as usize)))).collect();
    let wn: Vec<String> = want.iter().map(|e| scalar_key(e).unwrap().to_string()).collect();
    ensure!(names(&g2) == wn, "outline-names", "{path}: the outline has {:?}, the document {wn:?}", names(&g2));
    for (s, e) in g2.iter().zip(want) {
        let p = format!("{path}/{}", scalar_key(e).unwrap());
        let sel = l.range(&s["selectionRange"])?;
        ensure!(sel == (e.key.span.0 as usize, e.key.span.1 as usize), "outline-selection", "{p}: selects {:?}, the key is at {:?}", sel, e.key.span);
        let r = l.range(&s["range"])?;
        if e.val.span.0 != u32::MAX {
            ensure!(r.0 <= e.key.span.0 as usize && e.val.span.1 as usize <= r.1 && r.1 <= t.len(), "outline-range", "{p}: range {r:?} for an entry at {:?}..{:?}", e.key.span, e.val.span);
        }
        let v = payload(&e.val);
        let kind = match &v.v {
            TV::Obj(_) => 19,
            TV::Seq(_) => 18,
            TV::Scalar { .. } if matches!(e.val.v, TV::Scalar { .. }) => 15,
            TV::Scalar { .. } => 13,
            TV::Unit if matches!(e.val.v, TV::Unit) => 21,
            TV::Tag { .. } | TV::Unit => 13,
        };
        let chained = matches!(&e.val.v, TV::Tag { payload: Some(p), .. } if matches!(p.v, TV::Tag { .. } | TV::Unit));
        ensure!(chained || s["kind"].as_u64() == Some(kind), "outline-kind", "{p}: kind {}, expected {kind}", s["kind"]);
        if let TV::Obj(sub) = &v.v {
            check_symbols(&p, &s["children"], sub, t, l)?;
        } else {
            ensure!(s["children"].is_null(), "outline-children", "{p}: {}", s["children"]);
        }
    }
    Ok(())
}

fn p15_doc(g: &mut G) -> R {
    scratch_env(&g.dir.clone());
    let d = gen_doc_text(g, FULL);
    g.set_input(d.text.as_str());
    lang::label_used(g, &d.used);
    g.nontrivial = size_of(&d.tree) >= 4;
    let uri = "file:///scratch/a.styx";
    let mut s = Server::new();
    let ds = s.open(uri, 1, &d.text)?;
    check_diagnostics(&ds, &d.text)?;
    // A generated document may by chance declare a schema.
    let declares = d.tree.iter().any(|e| e.key.tag.as_deref() == Some("schema"));
    if !declares && let Some(e) = ds.iter().find(|d| is_error(d)) {
        bail!("error-on-well-formed", "{e}");
    }
    check_tokens(&mut s, uri, &d.text, &d.tree)?;
    check_indent(&mut s, g, uri, &d.text)?;
    check_formatting(&mut s, g, uri, &d.text)?;
    let r = s.whole("textDocument/documentSymbol", uri)?;
    let l = Lines::new(&d.text);
    ranges(&r, uri, &l)?;
    {
        check_symbols("", &r, &d.tree, &d.text, &l)?;
    }
    Ok(())
}

// --- with a schema -------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Seg {
    Field(String),
    Index(usize),
}

/// The keys of a document, with the path to each.
fn doc_keys(es: &[TE], path: &mut Vec<Seg>, out: &mut Vec<(Vec<Seg>, Span)>) {
    fn value(v: &T, path: &mut Vec<Seg>, out: &mut Vec<(Vec<Seg>, Span)>) {
        match &v.v {
            TV::Obj(es) => doc_keys(es, path, out),
            TV::Seq(x) => {
                for (i, x) in x.iter().enumerate() {
                    path.push(Seg::Index(i));
                    value(x, path, out);
                    path.pop();
                }
            }
            TV::Tag { payload: Some(p), .. } if !matches!(p.v, TV::Tag { .. }) => value(p, path, out),
            _ => {}
        }
    }
    for e in es {
        let Some(k) = scalar_key(e) else { continue };
        path.push(Seg::Field(k.into()));
        out.push((path.clone(), e.key.span));
        value(&e.val, path, out);
        path.pop();
    }
}

struct Open;
struct Decl<'a> {
    ty: &'a T,
    doc: Option<&'a Vec<String>>,
    key: Option<Span>,
}

fn look_through<'a>(defs: &'a [TE], mut v: &'a T) -> Result<&'a T, Open> {
    for _ in 0..40 {
        let TV::Tag { name, payload } = &v.v else { return Ok(v) };
        v = match (name.as_str(), payload.as_ref().map(|p| &p.v)) {
            ("optional", Some(TV::Seq(x))) => x.first().ok_or(Open)?,
            ("default" | "deprecated", Some(TV::Seq(x))) => x.get(1).ok_or(Open)?,
            (n, None) => match defs.iter().find(|e| scalar_key(e) == Some(n)) {
                Some(e) => &e.val,
                None => return Ok(v),
            },
            _ => return Ok(v),
        }
    }
    Err(Open)
}

fn object_of(v: &T) -> Option<&[TE]> {
    match &v.v {
        TV::Tag { name, payload: Some(p) } if name == "object" => match &p.v {
            TV::Obj(es) => Some(es),
            _ => None,
        },
        _ => None,
    }
}
fn flattened(e: &TE) -> Option<&T> {
    match &e.val.v {
        TV::Tag { name, payload: Some(p) } if name == "flatten" => match &p.v {
            TV::Seq(x) => x.first(),
            _ => None,
        },
        _ => None,
    }
}

/// The named fields of an object type, those of flattened types after its own.
fn fields<'a>(defs: &'a [TE], es: &'a [TE], out: &mut Vec<&'a TE>, fuel: u32) -> Result<(), Open> {
    if fuel == 0 {
        return Err(Open);
    }
    out.extend(es.iter().filter(|e| scalar_key(e).is_some() && flattened(e).is_none()));
    for e in es {
        if let Some(f) = flattened(e) {
            let f = object_of(look_through(defs, f)?).ok_or(Open)?;
            if f.iter().any(|e| scalar_key(e).is_none()) {
                return Err(Open);
            }
            fields(defs, f, out, fuel - 1)?;
        }
    }
    Ok(())
}

/// What the schema declares for a path.
fn declared<'a>(defs: &'a [TE], ty: &'a T, path: &[Seg]) -> Result<Option<Decl<'a>>, Open> {
    let ty = look_through(defs, ty)?;
    let rest = &path[1..];
    let (found, doc, key) = match (&ty.v, &path[0]) {
        (TV::Tag { name, payload: Some(p) }, seg) => match (name.as_str(), &p.v, seg) {
            ("object", TV::Obj(es), Seg::Field(n)) => {
                let mut fs = vec![];
                fields(defs, es, &mut fs, 6)?;
                if fs.iter().filter(|e| scalar_key(e) == Some(n)).count() > 1 {
                    return Err(Open);
                }
                let e = match fs.iter().find(|e| scalar_key(e) == Some(n)) {
                    Some(e) => *e,
                    None => match es.iter().find(|e| scalar_key(e).is_none()) {
                        Some(e) => e,
                        None => return Ok(None),
                    },
                };
                (&e.val, scalar_key(e).and(e.doc.as_ref()), Some(e.key.span))
            }
            ("seq", TV::Seq(x), Seg::Index(_)) if !rest.is_empty() => (x.first().ok_or(Open)?, None, None),
            ("map", TV::Seq(x), Seg::Field(_)) => (x.last().ok_or(Open)?, None, None),
            _ => return Err(Open),
        },
        _ => return Err(Open),
    };
    if rest.is_empty() { Ok(Some(Decl { ty: found, doc, key })) } else { declared(defs, found, rest) }
}

fn type_name(t: &T) -> String {
    match &t.v {
        TV::Scalar { text, .. } if text.is_empty() => "@".into(),
        TV::Scalar { text, .. } => text.clone(),
        TV::Unit => "@".into(),
        TV::Seq(x) => format!("({})", x.iter().map(type_name).collect::<Vec<_>>().join(" ")),
        TV::Obj(_) => "{...}".into(),
        TV::Tag { name, payload: None } => format!("@{name}"),
        TV::Tag { name, payload: Some(p) } => match &p.v {
            TV::Scalar { text, .. } => format!("@{name}({text})"),
            TV::Unit => format!("@{name}"),
            _ => format!("@{name}{}", type_name(p)),
        },
    }
}

struct WithSchema {
    s: Server,
    uri: String,
    schema_uri: String,
    diagnostics: Vec<J>,
}

/// Write the schema to the scratch directory and open the document beside it.
fn open_with(g: &mut G, stext: &str, text: &str) -> Result<WithSchema, Fail> {
    let dir = g.dir.clone();
    scratch_env(&dir);
    std::fs::write(format!("{dir}/s.styx"), stext).unwrap();
    let mut s = Server::new();
    let uri = format!("file://{dir}/doc.styx");
    let diagnostics = s.open(&uri, 1, text)?;
    Ok(WithSchema { s, uri, schema_uri: format!("file://{dir}/s.styx"), diagnostics })
}

fn with_declaration(g: &mut G, mut es: Vec<E>) -> Doc {
    let at = if g.chance(2, 3) { 0 } else { g.below(es.len() as u64 + 1) as usize };
    let path = if g.chance(1, 4) { format!("{}/s.styx", g.dir) } else { "s.styx".to_string() };
    es.insert(at, E { key: K::Tag("schema".into()), val: V::Scalar(path), doc: vec![] });
    render(g, FULL, es)
}

fn p15_schema(g: &mut G) -> R {
    let depth = g.size(1, 3);
    let (types, root) = super::schema::gen_types(g, depth);
    let sd = super::schema::schema_doc(g, &types, &root);
    let mut doc = super::schema::conform(g, &types, &root, 6);
    if g.chance(1, 3) {
        for _ in 0..g.size(1, 3) {
            super::schema::mutate(g, &mut doc);
        }
    }
    let es = match doc {
        V::Obj(es) => es,
        _ => vec![],
    };
    let d = with_declaration(g, es);
    g.set_input(format!("{}\n=====\n{}", sd.text, d.text));
    let schema: facet_styx::SchemaFile = match facet_styx::from_str(&sd.text) {
        Ok(s) => s,
        Err(e) => bail!("schema-rejected", "{e}"),
    };
    let mut w = open_with(g, &sd.text, &d.text)?;
    let l = Lines::new(&d.text);
    // Diagnostics: what validation of the document without the declaration reports.
    let mut value = match styx_tree::parse(&d.text) {
        Ok(v) => v,
        Err(e) => bail!("doc-rejected", "{e}"),
    };
    if let Some(styx_tree::Payload::Object(o)) = &mut value.payload {
        o.entries.retain(|e| !e.key.is_schema_tag());
    }
    let r = facet_styx::validate(&value, &schema);
    let all = r.errors.iter().map(|e| (1u64, e.span)).chain(r.warnings.iter().map(|e| (2, e.span)));
    let mut want: Vec<(u64, Option<(usize, usize)>)> = all.map(|(k, s)| (k, s.map(|s| (s.start as usize, s.end as usize)))).collect();
    let mut got = vec![];
    for x in &w.diagnostics {
        if x["source"] == "styx-schema" {
            got.push((x["severity"].as_u64().unwrap_or(0), l.range(&x["range"])?));
            let rel = &x["relatedInformation"][0]["location"]["uri"];
            ensure!(*rel == w.schema_uri, "diagnostic-schema-link", "{x}");
        } else {
            ensure!(!is_error(x), "error-on-well-formed", "{x}");
        }
    }
    let (w0, g0) = (want.clone(), got.clone());
    want.retain(|(k, s)| match s {
        None => true,
        Some(s) => match got.iter().position(|x| x == &(*k, *s)) {
            Some(i) => {
                got.remove(i);
                false
            }
            None => true,
        },
    });
    ensure!(want.iter().all(|x| x.1.is_none()) && want.len() == got.len(), "schema-diagnostics", "validation reports {w0:?}, the server {g0:?}");
    // The declaration is a link to the schema.
    let decl = d.tree.iter().find(|e| e.key.tag.as_deref() == Some("schema") && e.key.payload.is_none()).unwrap();
    let decl = (decl.val.span.0 as usize, decl.val.span.1 as usize);
    let links = w.s.whole("textDocument/documentLink", &w.uri)?;
    ensure!(links.as_array().is_some_and(|a| a.len() == 1) && l.range(&links[0]["range"])? == decl && links[0]["target"] == w.schema_uri, "schema-link", "{links}");
    // Hover and definition at a key.
    let Some(defs) = sd.tree.iter().find(|e| scalar_key(e) == Some("schema")) else { bail!("no-schema", "") };
    let TV::Obj(defs) = &defs.val.v else { bail!("no-schema", "") };
    let root = &defs.iter().find(|e| scalar_key(e).is_none()).unwrap().val;
    let mut keys = vec![];
    doc_keys(&d.tree, &mut vec![], &mut keys);
    let sl = Lines::new(&sd.text);
    for _ in 0..keys.len().min(3) {
        let (path, span) = g.pick(&keys).clone();
        let Ok(want) = declared(defs, root, &path) else {
            g.label("open");
            continue;
        };
        let inside: Vec<usize> = (span.0 as usize..span.1 as usize).filter(|i| d.text.is_char_boundary(*i)).collect();
        let p = l.pos(*g.pick(&inside));
        let hover = w.s.at("textDocument/hover", &w.uri, p)?;
        let def = w.s.at("textDocument/definition", &w.uri, p)?;
        let Some(want) = want else {
            ensure!(hover.is_null(), "hover-on-undeclared", "{path:?}: {hover}");
            g.label("undeclared");
            continue;
        };
        g.nontrivial = true;
        g.label(if path.len() > 1 { "nested field" } else { "field" });
        let text = hover["contents"]["value"].as_str().unwrap_or("");
        ensure!(!hover.is_null(), "no-hover", "{path:?} at {p:?}, declared as {}", type_name(want.ty));
        let mut crumbs = String::new();
        for s in &path {
            crumbs.push_str(" › ");
            match s {
                Seg::Field(f) => crumbs.push_str(f),
                Seg::Index(i) => crumbs.push_str(&i.to_string()),
            }
        }
        let end = format!("){crumbs}: `{}`", type_name(want.ty));
        ensure!(text.ends_with(&end), "hover-text", "{path:?}: {text:?} does not end with {end:?}");
        if let Some(doc) = want.doc {
            ensure!(doc.iter().all(|x| text.contains(x.trim())), "hover-doc", "{path:?}: {text:?} lacks {doc:?}");
        }
        ensure!(want.doc.is_some() || text.starts_with("[@]("), "hover-foreign-doc", "{path:?}: {text:?}");
        match want.key {
            None => {
                ensure!(def.is_null() || def["uri"] == w.schema_uri, "definition", "{path:?}: {def}");
            }
            Some(k) => {
                ensure!(def["uri"] == w.schema_uri && sl.range(&def["range"])? == (k.0 as usize, k.1 as usize), "definition", "{path:?}: {def}, the schema declares it at {k:?} {:?}", &sd.text[k.0 as usize..k.1 as usize]);
                let (line, col) = sl.pos(k.0 as usize);
                let link = format!("#L{}:{})", line + 1, col + 1);
                ensure!(text.contains(&link), "hover-link", "{path:?}: {text:?} lacks {link}");
            }
        }
    }
    // Completion in an object offers the declared fields it does not have.
    if d.used.attrs || d.used.paths {
        return Ok(());
    }
    let mut at: &[TE] = &d.tree;
    let mut ty = root;
    let mut path = vec![];
    loop {
        let deeper: Vec<&TE> = at.iter().filter(|e| scalar_key(e).is_some() && matches!(&e.val.v, TV::Obj(x) if !x.is_empty())).collect();
        if deeper.is_empty() || g.chance(1, 3) {
            break;
        }
        let e = *g.pick(&deeper);
        let p = [Seg::Field(scalar_key(e).unwrap().into())];
        let Ok(Some(x)) = declared(defs, ty, &p) else { return Ok(()) };
        ty = x.ty;
        path.push(scalar_key(e).unwrap());
        let TV::Obj(es) = &e.val.v else { unreachable!() };
        at = es;
    }
    let Ok(Some(es)) = look_through(defs, ty).map(object_of) else { return Ok(()) };
    let mut fs = vec![];
    if fields(defs, es, &mut fs, 6).is_err() {
        return Ok(());
    }
    let e = g.pick(at);
    let p = l.pos(e.key.span.0 as usize);
    let mut want: Vec<&str> = fs.iter().filter_map(|e| scalar_key(e)).filter(|f| at.iter().all(|e| scalar_key(e) != Some(f))).collect();
    want.sort();
    want.dedup();
    let r = w.s.at("textDocument/completion", &w.uri, p)?;
    ranges(&r, &w.uri, &l)?;
    let mut got: Vec<&str> = r.as_array().into_iter().flatten().map(|i| i["label"].as_str().unwrap_or("?")).collect();
    got.sort();
    got.dedup();
    ensure!(got == want, "completion", "in {path:?} at {p:?}: {got:?}, the schema declares {want:?} besides");
    g.label("completion");
    Ok(())
}

fn p15_schema_robust(g: &mut G) -> R {
    let (stext, es) = super::schema::twisted(g);
    let d = with_declaration(g, es);
    g.set_input(format!("{stext}\n=====\n{}", d.text));
    g.nontrivial = facet_styx::from_str::<facet_styx::SchemaFile>(&stext).is_ok();
    let mut w = open_with(g, &stext, &d.text)?;
    check_diagnostics(&w.diagnostics, &d.text)?;
    let l = Lines::new(&d.text);
    let mut keys = vec![];
    doc_keys(&d.tree, &mut vec![], &mut keys);
    let mut at = vec![l.random(g), l.random(g)];
    at.retain(|p| l.offset(*p).is_some());
    for (_, k) in keys.iter().take(6) {
        at.push(l.pos(k.0 as usize));
    }
    all_requests(&mut w.s, &w.uri, &d.text, &at)?;
    // The schema as a document of its own.
    let u = w.schema_uri.clone();
    let ds = w.s.open(&u, 1, &stext)?;
    check_diagnostics(&ds, &stext)?;
    let l = Lines::new(&stext);
    let mut at = vec![l.random(g), l.random(g)];
    at.retain(|p| l.offset(*p).is_some());
    all_requests(&mut w.s, &u, &stext, &at)
}
