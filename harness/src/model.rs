//! Reference model: abstract documents, and a renderer that writes one of the many concrete
//! texts of a document while recording the tree (with byte spans) that the text denotes.

use crate::core::G;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SK {
    Bare,
    Quoted,
    Raw,
    Heredoc,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TV {
    Scalar { kind: SK, text: String },
    Unit,
    Seq(Vec<T>),
    Obj(Vec<TE>),
    Tag { name: String, payload: Option<Box<T>> },
}

pub type Span = (u32, u32);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct T {
    pub v: TV,
    pub span: Span,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TK {
    pub tag: Option<String>,
    pub payload: Option<(SK, String)>,
    pub span: Span,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TE {
    pub key: TK,
    pub val: T,
    pub doc: Option<Vec<String>>,
}

/// Semantic form: what a reader of the tree relies on (no spans, no quoting style).
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    Scalar(String),
    Unit,
    Seq(Vec<S>),
    Obj(Vec<(SKey, S, Option<String>)>),
    Tag(String, Option<Box<S>>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct SKey {
    pub tag: Option<String>,
    pub text: Option<String>,
}

pub fn sem(t: &T) -> S {
    match &t.v {
        TV::Scalar { text, .. } => S::Scalar(text.clone()),
        TV::Unit => S::Unit,
        TV::Seq(v) => S::Seq(v.iter().map(sem).collect()),
        TV::Obj(es) => S::Obj(sem_entries(es)),
        TV::Tag { name, payload } => {
            let p = payload.as_ref().map(|p| sem(p)).filter(|p| *p != S::Unit);
            S::Tag(name.clone(), p.map(Box::new))
        }
    }
}
pub fn sem_entries(es: &[TE]) -> Vec<(SKey, S, Option<String>)> {
    es.iter()
        .map(|e| {
            (
                SKey { tag: e.key.tag.clone(), text: e.key.payload.as_ref().map(|p| p.1.clone()) },
                sem(&e.val),
                e.doc.as_ref().map(|d| d.join("\n")),
            )
        })
        .collect()
}

/// Fold sibling dotted-path entries (`a.b 1` newline `a.c 2`) into one entry each.
pub fn drop_docs(s: &S) -> S {
    match s {
        S::Seq(v) => S::Seq(v.iter().map(drop_docs).collect()),
        S::Obj(v) => S::Obj(v.iter().map(|(k, x, _)| (k.clone(), drop_docs(x), None)).collect()),
        S::Tag(n, p) => S::Tag(n.clone(), p.as_ref().map(|p| Box::new(drop_docs(p)))),
        o => o.clone(),
    }
}

pub fn from_tree(v: &styx_tree::Value) -> S {
    let body = match &v.payload {
        None => None,
        Some(styx_tree::Payload::Scalar(s)) => Some(S::Scalar(s.text.clone())),
        Some(styx_tree::Payload::Sequence(s)) => Some(S::Seq(s.items.iter().map(from_tree).collect())),
        Some(styx_tree::Payload::Object(o)) => Some(S::Obj(
            o.entries
                .iter()
                .map(|e| {
                    (
                        SKey { tag: e.key.tag.as_ref().map(|t| t.name.clone()), text: e.key.scalar_text().map(|s| s.to_string()) },
                        from_tree(&e.value),
                        e.doc_comment.clone(),
                    )
                })
                .collect(),
        )),
    };
    match (&v.tag, body) {
        (None, None) => S::Unit,
        (None, Some(b)) => b,
        (Some(t), b) => S::Tag(t.name.clone(), b.map(Box::new)),
    }
}

// ---------------------------------------------------------------------------------------------
// Text
// ---------------------------------------------------------------------------------------------

pub const WORDS: &[&str] = &[
    "a", "b", "c", "x", "key", "name", "host", "port", "true", "false", "null", "none", "0", "1", "42", "-7", "3.14", "1e9", "0x1f", "8080", "localhost",
    "v1", "a-b", "a_b", "foo", "bar", "baz", "r", "rr", "raw", "EOF", "TEXT", "type", "string", "object", "schema", "https://example.com/p?q=1&r=2#f", "user@host",
    "/usr/bin", "a=b", "10s", "2026-01-12T10:00:00Z", "*", "+", "~", "!", "$HOME", "%d", "é", "漢字", "😀", "ключ", "|", ";", ":", "[x]", "<a", "a<b", "#x", "\\", "'q'", "`", "^", "&", "?",
];

const CHARS: &[char] = &[
    'a', 'b', 'r', 'E', 'O', 'F', 'T', '0', '9', '_', '-', '.', '/', '\\', '"', '#', '@', '=', '>', '<', '{', '}', '(', ')', ',', ' ', '\t', '\n', '\r', '\'', '`', '!', '$', ':', ';', '|', '~', 'é', 'ß', '漢', '😀',
    '\u{301}', '\u{200d}', '\u{a0}', '\u{2028}', '\u{feff}', '\0', '\u{1}', '\u{7f}', '\u{85}', '\u{ffff}', '\u{10ffff}',
];

pub fn word(g: &mut G) -> String {
    g.pick(WORDS).to_string()
}

/// Any text at all.
pub fn any_text(g: &mut G) -> String {
    match g.weighted(&[5, 3, 4, 2, 1, 1]) {
        0 => word(g),
        1 => {
            let n = g.size(0, 3);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(g.pick(WORDS));
                if g.coin() {
                    s.push(' ');
                }
            }
            s
        }
        2 => {
            let n = g.size(0, 8);
            (0..n).map(|_| *g.pick(CHARS)).collect()
        }
        3 => {
            // several lines
            let n = g.size(1, 4);
            let mut s = String::new();
            for i in 0..n {
                let w = g.size(0, 2);
                let ind = g.size(0, 3);
                for _ in 0..ind {
                    s.push(if g.chance(1, 6) { '\t' } else { ' ' });
                }
                for _ in 0..w {
                    s.push_str(g.pick(WORDS));
                    s.push_str(g.pick(&[" ", "", "\"", ",", ")", "}"]));
                }
                if i + 1 < n || g.coin() {
                    s.push('\n');
                }
            }
            s
        }
        4 => {
            // quotes followed by hashes
            let n = g.size(1, 3);
            let mut s = String::new();
            for _ in 0..n {
                s.push('"');
                let h = g.size(0, 4);
                s.push_str(&"#".repeat(h));
                s.push_str(g.pick(&["", "x", "\\", " "]));
            }
            s
        }
        _ => {
            let n = g.size(0, 5);
            (0..n).filter_map(|_| char::from_u32(g.below(0x11_0000) as u32)).collect()
        }
    }
}

/// Printable text without exotic whitespace or control characters.
pub fn plain_text(g: &mut G) -> String {
    let t = any_text(g);
    t.chars().filter(|c| *c == '\n' || *c == ' ' || *c == '\t' || !(c.is_control() || c.is_whitespace() || *c == '\u{feff}' || *c as u32 >= 0xfff0 && (*c as u32) < 0x10000 || *c == '\u{10ffff}')).collect()
}

pub fn can_bare(s: &str) -> bool {
    let mut it = s.chars();
    let Some(c) = it.next() else { return false };
    if matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace() {
        return false;
    }
    if s.starts_with("//") || s.starts_with("<<") || s.starts_with("r#") {
        return false;
    }
    s.chars().all(|c| !matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '>') && !c.is_whitespace())
}

const TAGS: &[&str] = &["tag", "t", "ok", "err", "error", "str", "r", "rr", "barr", "env", "a-b", "a_b", "_x", "Some", "B2", "x-", "rgb", "number", "object", "R_r-9"];

pub fn tag_name(g: &mut G) -> String {
    if g.chance(1, 5) {
        let n = g.size(0, 4);
        let mut s = String::from(*g.pick(&["a", "Z", "_", "r"]));
        for _ in 0..n {
            s.push_str(g.pick(&["a", "r", "-", "_", "0", "Q"]));
        }
        s
    } else {
        g.pick(TAGS).to_string()
    }
}

// ---------------------------------------------------------------------------------------------
// Abstract documents
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum V {
    Scalar(String),
    Unit,
    Seq(Vec<V>),
    Obj(Vec<E>),
    /// Payload: never a scalar that can only be bare; `Some(Unit)` is `@tag@`.
    Tag(String, Option<Box<V>>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Scalar(String),
    Unit,
    Tag(String),
    TagS(String, String),
    /// A whole entry, written as it is (used to plant malformed constructs).
    Snippet(String),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct E {
    pub key: K,
    pub val: V,
    pub doc: Vec<String>,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    /// Doc comments may appear.
    pub docs: bool,
    pub comments: bool,
    /// `@a/@b`
    pub chains: bool,
    pub heredocs: bool,
    pub attrs: bool,
    /// Dotted paths at the root.
    pub paths: bool,
    /// Several dotted paths may share a prefix.
    pub siblings: bool,
    pub explicit_root: bool,
    /// Only text every implementation can hold.
    pub plain: bool,
    pub crlf: bool,
    /// Tag and unit keys.
    pub odd_keys: bool,
    pub tags: bool,
    pub depth: usize,
    pub width: usize,
}
pub const FULL: Cfg = Cfg { docs: true, comments: true, chains: true, heredocs: true, attrs: true, paths: true, siblings: true, explicit_root: true, plain: false, crlf: true, odd_keys: true, tags: true, depth: 4, width: 4 };

pub fn text(g: &mut G, c: &Cfg) -> String {
    if c.plain { plain_text(g) } else { any_text(g) }
}

pub fn gen_val(g: &mut G, c: &Cfg, depth: usize) -> V {
    let w: &[u64] = if depth == 0 { &[8, 2, 0, 0, 2] } else { &[8, 1, 3, 4, 3] };
    match g.weighted(w) {
        0 => V::Scalar(text(g, c)),
        1 => V::Unit,
        2 => {
            let n = g.size(0, c.width);
            V::Seq((0..n).map(|_| gen_val(g, c, depth - 1)).collect())
        }
        3 => V::Obj(gen_entries(g, c, depth - 1)),
        _ => {
            if !c.tags {
                return V::Scalar(word(g));
            }
            let name = tag_name(g);
            let p = match g.weighted(if depth == 0 { &[4, 3, 1, 0, 0, 0] } else { &[4, 3, 1, 2, 2, 1] }) {
                0 => None,
                1 => Some(V::Scalar(text(g, c))),
                2 => Some(V::Unit),
                3 => {
                    let n = g.size(0, c.width);
                    Some(V::Seq((0..n).map(|_| gen_val(g, c, depth - 1)).collect()))
                }
                4 => Some(V::Obj(gen_entries(g, c, depth - 1))),
                _ => {
                    if c.chains {
                        let mut v = gen_val(g, c, depth - 1);
                        if !matches!(v, V::Tag(..)) {
                            v = V::Tag(tag_name(g), None);
                        }
                        Some(v)
                    } else {
                        None
                    }
                }
            };
            V::Tag(name, p.map(Box::new))
        }
    }
}

pub fn gen_key(g: &mut G, c: &Cfg) -> K {
    match g.weighted(if c.odd_keys { &[9, 2, 1, 1, 1] } else { &[9, 2, 0, 0, 0] }) {
        0 => K::Scalar(word(g)),
        1 => K::Scalar(text(g, c)),
        2 => K::Unit,
        3 => K::Tag(tag_name(g)),
        _ => K::TagS(tag_name(g), text(g, c)),
    }
}

pub fn gen_doc(g: &mut G, c: &Cfg) -> Vec<String> {
    if !c.docs || !g.chance(1, 5) {
        return vec![];
    }
    let n = g.size(1, 3);
    (0..n)
        .map(|_| {
            let t = plain_text(g);
            t.replace(['\n', '\r'], " ").trim_end().to_string()
        })
        .collect()
}

pub fn gen_entries(g: &mut G, c: &Cfg, depth: usize) -> Vec<E> {
    let n = g.size(0, c.width);
    let mut out: Vec<E> = vec![];
    for i in 0..n {
        let mut key = gen_key(g, c);
        if out.iter().any(|e| e.key == key) {
            key = K::Scalar(format!("k{i}"));
            if out.iter().any(|e| e.key == key) {
                continue;
            }
        }
        let doc = gen_doc(g, c);
        out.push(E { key, val: gen_val(g, c, depth), doc });
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Rendering
// ---------------------------------------------------------------------------------------------

pub struct Render<'a> {
    pub g: &'a mut G,
    pub c: Cfg,
    pub out: String,
    nl: &'static str,
    /// The last thing written ends a heredoc: only a line end may follow.
    need_nl: bool,
    pub used: Used,
    /// Byte range of the planted snippet.
    pub snippet: Option<(usize, usize)>,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Used {
    pub paths: bool,
    pub attrs: bool,
    pub heredoc: bool,
    pub comments: bool,
    pub docs: bool,
    pub explicit_root: bool,
    pub chain: bool,
    pub tag_heredoc: bool,
    pub attr_heredoc: bool,
}

impl<'a> Render<'a> {
    pub fn new(g: &'a mut G, c: Cfg) -> Self {
        let nl = if c.crlf && g.chance(1, 8) { "\r\n" } else { "\n" };
        Render { g, c, out: String::new(), nl, need_nl: false, used: Used::default(), snippet: None }
    }
    fn pos(&self) -> u32 {
        self.out.len() as u32
    }
    fn newline(&mut self) {
        self.out.push_str(self.nl);
        self.need_nl = false;
    }
    /// Horizontal space, at least one.
    fn sp(&mut self) {
        if self.need_nl {
            self.newline();
            return;
        }
        let s = *self.g.pick(&[" ", " ", " ", "  ", "\t", " \t "]);
        self.out.push_str(s);
    }
    fn maybe_sp(&mut self) {
        if self.need_nl {
            self.newline();
        }
        if self.g.chance(1, 4) {
            self.sp();
        }
    }
    fn comment_text(&mut self) -> String {
        let t = plain_text(self.g).replace(['\n', '\r'], " ");
        let t = t.trim_start_matches('/').to_string();
        format!("//{}{}", if self.g.coin() { " " } else { "" }, t)
    }
    /// Space between entries or elements that spans at least one line end.
    fn line_break(&mut self) {
        if self.c.comments && !self.need_nl && self.g.chance(1, 8) {
            self.used.comments = true;
            self.out.push(' ');
            let t = self.comment_text();
            self.out.push_str(&t);
        }
        self.newline();
        loop {
            match self.g.weighted(&[6, 1, 1, 1]) {
                0 => break,
                1 => self.newline(),
                2 => {
                    let s = *self.g.pick(&["  ", "\t", "    "]);
                    self.out.push_str(s);
                    if self.g.coin() {
                        self.newline();
                    } else {
                        break;
                    }
                }
                _ => {
                    if self.c.comments {
                        self.used.comments = true;
                        let t = self.comment_text();
                        self.out.push_str(&t);
                        self.newline();
                    }
                }
            }
        }
    }
    fn entry_sep(&mut self, newline_only: bool) {
        if self.need_nl {
            self.line_break();
        } else if newline_only {
            self.line_break();
        } else {
            match self.g.weighted(&[5, 3, 1]) {
                0 => self.line_break(),
                1 => {
                    self.maybe_sp();
                    self.out.push(',');
                    self.maybe_sp();
                }
                _ => {
                    self.out.push(',');
                    self.line_break();
                }
            }
        }
    }

    fn quoted(&mut self, s: &str) {
        self.out.push('"');
        let lazy = self.g.chance(1, 2);
        for ch in s.chars() {
            match ch {
                '\\' => self.out.push_str("\\\\"),
                '"' => self.out.push_str("\\\""),
                _ => {
                    let e = if lazy { 0 } else { self.g.weighted(&[6, 2, 1, 1]) };
                    match (e, ch) {
                        (1, '\n') => self.out.push_str("\\n"),
                        (1, '\r') => self.out.push_str("\\r"),
                        (1, '\t') => self.out.push_str("\\t"),
                        (2, _) if (ch as u32) < 0x10000 => {
                            let h = format!("\\u{:04x}", ch as u32);
                            let up = self.g.coin();
                            if up { self.out.push_str(&format!("\\u{:04X}", ch as u32)) } else { self.out.push_str(&h) }
                        }
                        (3, _) => {
                            let pad = self.g.size(0, 2);
                            let z = "0".repeat(pad);
                            self.out.push_str(&format!("\\u{{{z}{:x}}}", ch as u32));
                        }
                        (_, '\n' | '\r') if self.c.plain => self.out.push_str(if ch == '\n' { "\\n" } else { "\\r" }),
                        _ => self.out.push(ch),
                    }
                }
            }
        }
        self.out.push('"');
    }
    fn raw(&mut self, s: &str, min: usize) {
        let b = s.as_bytes();
        let mut need = min;
        for i in 0..b.len() {
            if b[i] == b'"' {
                let run = b[i + 1..].iter().take_while(|c| **c == b'#').count();
                need = need.max(run + 1);
            }
        }
        let h = need + self.g.weighted(&[4, 1, 1]);
        let hs = "#".repeat(h);
        self.out.push('r');
        self.out.push_str(&hs);
        self.out.push('"');
        self.out.push_str(s);
        self.out.push('"');
        self.out.push_str(&hs);
    }
    fn heredoc_ok(&self, s: &str) -> bool {
        self.c.heredocs && (s.is_empty() || s.ends_with('\n')) && (!self.c.plain || self.nl == "\n" && !s.contains('\r'))
    }
    fn heredoc(&mut self, s: &str) {
        self.used.heredoc = true;
        let mut d = self.g.pick(&["EOF", "TEXT", "A", "SQL_2", "ABCDEFGHIJKLMNOP"]).to_string();
        let lines: Vec<&str> = s.split('\n').collect();
        let mut i = 0;
        while lines.iter().any(|l| l.trim_start_matches([' ', '\t']).trim_end_matches('\r') == d) {
            i += 1;
            d = format!("Z{i}");
        }
        self.out.push_str("<<");
        self.out.push_str(&d);
        if self.g.chance(1, 4) {
            let l = *self.g.pick(&[",rust", ",sql", ",c-x.y_1"]);
            self.out.push_str(l);
        }
        self.out.push_str(self.nl);
        // With closing indent k, k blanks are taken from every line: every line gets k blanks.
        let k = if self.g.coin() { 0 } else { self.g.size(1, 4) };
        let ind: String = (0..k).map(|_| if self.g.chance(1, 8) { '\t' } else { ' ' }).collect();
        if !s.is_empty() {
            let body = &s[..s.len() - 1];
            for l in body.split('\n') {
                if !l.starts_with([' ', '\t']) && self.g.chance(1, 3) {
                    // Up to k blanks are taken: a line may have fewer.
                    let n = self.g.size(0, ind.len());
                    self.out.push_str(&ind[..n]);
                    self.out.push_str(l);
                    self.out.push('\n');
                } else {
                    self.out.push_str(&ind);
                    self.out.push_str(l);
                    self.out.push('\n');
                }
            }
        }
        self.out.push_str(&ind);
        self.out.push_str(&d);
        self.need_nl = true;
    }
    /// Write a scalar in some style; `bare`/`here` say whether these styles may be used.
    fn scalar(&mut self, s: &str, bare: bool, here: bool, min_hash: usize) -> SK {
        if bare && can_bare(s) && self.g.chance(5, 7) {
            self.out.push_str(s);
            return SK::Bare;
        }
        let h = here && self.heredoc_ok(s);
        match self.g.weighted(&[4, 2, if h { 6 } else { 0 }]) {
            1 if !self.c.plain || !s.contains('\r') => {
                self.raw(s, min_hash);
                SK::Raw
            }
            2 => {
                self.heredoc(s);
                SK::Heredoc
            }
            _ => {
                self.quoted(s);
                SK::Quoted
            }
        }
    }

    fn value(&mut self, v: &V, here: bool) -> T {
        let start = self.pos();
        let tv = match v {
            V::Scalar(s) => {
                let kind = self.scalar(s, true, here, 0);
                TV::Scalar { kind, text: s.clone() }
            }
            V::Unit => {
                self.out.push('@');
                TV::Unit
            }
            V::Seq(items) => TV::Seq(self.seq(items)),
            V::Obj(es) => TV::Obj(self.object(es)),
            V::Tag(name, p) => {
                self.out.push('@');
                self.out.push_str(name);
                let payload = match p.as_deref() {
                    None => None,
                    Some(p) => {
                        if matches!(p, V::Tag(..)) {
                            self.used.chain = true;
                            self.out.push('/');
                        }
                        let ps = self.pos();
                        let t = match p {
                            V::Scalar(s) => {
                                let kind = self.scalar(s, false, here, 1);
                                if kind == SK::Heredoc {
                                    self.used.tag_heredoc = true;
                                }
                                T { v: TV::Scalar { kind, text: s.clone() }, span: (ps, self.pos()) }
                            }
                            other => self.value(other, here),
                        };
                        Some(Box::new(t))
                    }
                };
                TV::Tag { name: name.clone(), payload }
            }
        };
        T { v: tv, span: (start, self.pos()) }
    }

    fn attrs_ok(&self, es: &[E]) -> bool {
        self.c.attrs
            && !es.is_empty()
            && es.iter().all(|e| {
                e.doc.is_empty()
                    && matches!(&e.key, K::Scalar(s) if can_bare(s) && !s.contains('.'))
                    && match &e.val {
                        V::Scalar(_) | V::Seq(_) | V::Obj(_) => true,
                        V::Tag(..) | V::Unit => !self.c.plain,
                    }
            })
    }
    fn attrs(&mut self, es: &[E], here: bool) -> Vec<TE> {
        self.used.attrs = true;
        let mut out = vec![];
        for (i, e) in es.iter().enumerate() {
            if i > 0 {
                self.sp();
            }
            let K::Scalar(k) = &e.key else { unreachable!() };
            let ks = self.pos();
            self.out.push_str(k);
            let key = TK { tag: None, payload: Some((SK::Bare, k.clone())), span: (ks, self.pos()) };
            self.out.push('>');
            // A line end closes the attributes, so only the last can be a heredoc.
            let val = self.value(&e.val, here && i + 1 == es.len());
            if matches!(val.v, TV::Scalar { kind: SK::Heredoc, .. }) {
                self.used.attr_heredoc = true;
            }
            out.push(TE { key, val, doc: None });
        }
        out
    }

    fn seq(&mut self, items: &[V]) -> Vec<T> {
        self.out.push('(');
        let mut out = vec![];
        self.seq_gap(true);
        let mut after_attrs = false;
        for (i, it) in items.iter().enumerate() {
            let gap = self.out.len();
            if i > 0 {
                if after_attrs && !self.need_nl && self.g.coin() {
                    self.line_break();
                } else {
                    self.seq_gap(false);
                }
            }
            let start = self.pos();
            // (attributes on one line are one element)
            let free = !after_attrs || self.out[gap..].contains('\n');
            if let V::Obj(es) = it
                && free
                && self.attrs_ok(es)
                && (after_attrs || self.g.chance(1, 4))
            {
                let a = self.attrs(es, true);
                out.push(T { v: TV::Obj(a), span: (start, self.pos()) });
                after_attrs = true;
            } else {
                after_attrs = false;
                out.push(self.value(it, true));
            }
        }
        if self.need_nl {
            self.newline();
        }
        self.seq_gap(true);
        self.out.push(')');
        out
    }
    fn seq_gap(&mut self, optional: bool) {
        if self.need_nl {
            self.line_break();
            return;
        }
        match self.g.weighted(&[8, 1, 1]) {
            0 => {
                if !optional || self.g.chance(1, 6) {
                    self.sp()
                }
            }
            1 => self.line_break(),
            _ => {
                if !optional {
                    self.sp()
                }
            }
        }
    }

    fn object(&mut self, es: &[E]) -> Vec<TE> {
        self.out.push('{');
        let r = self.object_body(es);
        self.out.push('}');
        r
    }
    fn object_body(&mut self, es: &[E]) -> Vec<TE> {
        if self.g.chance(1, 3) {
            self.line_break();
        } else {
            self.maybe_sp();
        }
        let mut out = vec![];
        for (i, e) in es.iter().enumerate() {
            if i > 0 {
                self.entry_sep(false);
            }
            let doc = self.docs(&e.doc);
            if let K::Snippet(sn) = &e.key {
                self.snip(sn);
                continue;
            }
            let key = self.key(&e.key, false);
            let val = self.entry_value(&key, &e.key, &e.val);
            out.push(TE { key, val, doc });
        }
        if self.need_nl {
            self.line_break();
        } else {
            match self.g.weighted(&[4, 2, 1]) {
                0 => self.maybe_sp(),
                1 => self.line_break(),
                _ => {
                    if !es.is_empty() {
                        self.out.push(',');
                    }
                    self.maybe_sp();
                }
            }
        }
        out
    }
    fn docs(&mut self, d: &[String]) -> Option<Vec<String>> {
        if d.is_empty() {
            return None;
        }
        self.used.docs = true;
        if !self.out.is_empty() && !self.out.ends_with('\n') && !self.out.ends_with([' ', '\t']) {
            self.out.push(' ');
        }
        for l in d {
            self.out.push_str("///");
            if !l.is_empty() {
                self.out.push(' ');
                self.out.push_str(l);
            }
            self.newline();
            if self.g.chance(1, 4) {
                self.out.push_str("  ");
            }
        }
        Some(d.to_vec())
    }
    fn snip(&mut self, sn: &str) {
        let a = self.out.len();
        self.out.push_str(sn);
        self.snippet = Some((a, self.out.len()));
        self.need_nl = true;
    }
    fn key(&mut self, k: &K, dots_ok: bool) -> TK {
        let start = self.pos();
        let (tag, payload) = match k {
            K::Scalar(s) => {
                let bare = dots_ok || !s.contains('.');
                let kind = self.scalar(s, bare, false, 0);
                (None, Some((kind, s.clone())))
            }
            K::Unit => {
                self.out.push('@');
                (None, None)
            }
            K::Tag(t) => {
                self.out.push('@');
                self.out.push_str(t);
                (Some(t.clone()), None)
            }
            K::TagS(t, s) => {
                self.out.push('@');
                self.out.push_str(t);
                let kind = self.scalar(s, false, false, 1);
                (Some(t.clone()), Some((kind, s.clone())))
            }
            K::Snippet(_) => unreachable!(),
        };
        TK { tag, payload, span: (start, self.pos()) }
    }
    fn entry_value(&mut self, tk: &TK, k: &K, v: &V) -> T {
        if *v == V::Unit && self.g.coin() {
            return T { v: TV::Unit, span: tk.span };
        }
        let delimited = matches!(k, K::Scalar(_)) && matches!(tk.payload, Some((SK::Quoted | SK::Raw, _))) && matches!(v, V::Obj(_) | V::Seq(_));
        let start;
        if let V::Obj(es) = v
            && self.attrs_ok(es)
            && self.g.chance(1, 3)
        {
            self.sp();
            start = self.pos();
            let a = self.attrs(es, true);
            return T { v: TV::Obj(a), span: (start, self.pos()) };
        }
        if !(delimited && self.g.chance(1, 5)) {
            self.sp();
        }
        self.value(v, true)
    }

    /// A whole document. Root entries that are objects of one bare-keyed entry may become paths.
    pub fn document(mut self, es: &[E]) -> (String, Vec<TE>, Used) {
        let t = self.write_document(es);
        (self.out, t, self.used)
    }
    pub fn write_document(&mut self, es: &[E]) -> Vec<TE> {
        if self.c.comments && self.g.chance(1, 8) {
            self.used.comments = true;
            let t = self.comment_text();
            self.out.push_str(&t);
            self.newline();
        }
        if self.g.chance(1, 8) {
            self.newline();
        }
        if self.c.explicit_root && self.g.chance(1, 5) {
            self.used.explicit_root = true;
            let r = self.object(es);
            if self.g.coin() {
                self.line_break();
            }
            return r;
        }
        let mut out = vec![];
        for (i, e) in es.iter().enumerate() {
            if i > 0 {
                self.entry_sep(false);
            }
            if self.c.paths
                && let Some(leaves) = path_leaves(e)
                && (self.c.siblings || leaves.len() == 1)
                && self.g.chance(2, 3)
            {
                self.used.paths = true;
                for (j, (segs, val)) in leaves.iter().enumerate() {
                    if j > 0 {
                        self.entry_sep(false);
                    }
                    let doc = if j == 0 { self.docs(&e.doc) } else { None };
                    out.push(self.path_entry(segs, val, doc));
                }
                continue;
            }
            let doc = self.docs(&e.doc);
            if let K::Snippet(sn) = &e.key {
                self.snip(sn);
                continue;
            }
            let key = self.key(&e.key, false);
            let val = self.entry_value(&key, &e.key, &e.val);
            out.push(TE { key, val, doc });
        }
        if !self.need_nl && self.g.chance(1, 6) && !es.is_empty() {
            self.out.push(',');
        }
        if self.need_nl && self.g.coin() {
            self.need_nl = false;
        } else if self.g.chance(2, 3) {
            self.line_break();
        }
        out
    }
    fn path_entry(&mut self, segs: &[String], val: &V, doc: Option<Vec<String>>) -> TE {
        let start = self.pos();
        self.out.push_str(&segs.join("."));
        let whole = TK { tag: None, payload: Some((SK::Bare, String::new())), span: (start, self.pos()) };
        let v = self.entry_value(&whole, &K::Scalar(String::new()), val);
        let mut off = start;
        let mut keys = vec![];
        for s in segs {
            let e = off + s.len() as u32;
            keys.push(TK { tag: None, payload: Some((SK::Bare, s.clone())), span: (off, e) });
            off = e + 1;
        }
        let mut cur = v;
        let mut first = None;
        for (i, k) in keys.into_iter().enumerate().rev() {
            let te = TE { key: k, val: cur, doc: None };
            if i == 0 {
                first = Some(te);
                break;
            }
            cur = T { v: TV::Obj(vec![te]), span: (u32::MAX, u32::MAX) };
        }
        let mut te = first.unwrap();
        te.doc = doc;
        te
    }
}

fn seg_ok(k: &K) -> Option<&str> {
    match k {
        K::Scalar(s) if can_bare(s) && !s.contains('.') => Some(s),
        _ => None,
    }
}

/// Leaves of an entry written entirely as dotted paths, if its keys allow it.
fn path_leaves(e: &E) -> Option<Vec<(Vec<String>, V)>> {
    let k = seg_ok(&e.key)?;
    let V::Obj(es) = &e.val else { return None };
    if es.is_empty() {
        return None;
    }
    let mut out = vec![];
    for c in es {
        if !c.doc.is_empty() {
            return None;
        }
        let ck = seg_ok(&c.key)?;
        match path_leaves(c) {
            Some(ls) => {
                for (mut segs, v) in ls {
                    segs.insert(0, k.to_string());
                    out.push((segs, v));
                }
            }
            None => out.push((vec![k.to_string(), ck.to_string()], c.val.clone())),
        }
    }
    Some(out)
}

/// A document and the semantic value it denotes when repeated path prefixes are kept apart.
pub struct Doc {
    pub entries: Vec<E>,
    pub text: String,
    pub tree: Vec<TE>,
    pub used: Used,
}

pub fn gen_doc_text(g: &mut G, c: Cfg) -> Doc {
    let depth = g.size(0, c.depth);
    let entries = gen_entries(g, &c, depth);
    render(g, c, entries)
}
pub fn render(g: &mut G, c: Cfg, entries: Vec<E>) -> Doc {
    let r = Render::new(g, c);
    let (text, tree, used) = r.document(&entries);
    Doc { entries, text, tree, used }
}

/// Sibling dotted paths joined: what a document means, as opposed to how its tree keeps it.
pub fn join_paths(es: Vec<TE>) -> Vec<TE> {
    let mut out: Vec<TE> = vec![];
    for e in es {
        if let Some(l) = out.last_mut()
            && l.key.tag.is_none()
            && e.key.tag.is_none()
            && l.key.payload.is_some()
            && l.key.payload.as_ref().map(|p| &p.1) == e.key.payload.as_ref().map(|p| &p.1)
            && let TV::Obj(a) = &mut l.val.v
            && let TV::Obj(b) = e.val.v
        {
            a.extend(b);
            *a = join_paths(std::mem::take(a));
        } else {
            out.push(e);
        }
    }
    out
}

pub fn size_of(es: &[TE]) -> usize {
    fn v(t: &T) -> usize {
        1 + match &t.v {
            TV::Seq(x) => x.iter().map(v).sum(),
            TV::Obj(x) => size_of(x),
            TV::Tag { payload: Some(p), .. } => v(p),
            _ => 0,
        }
    }
    es.iter().map(|e| 1 + v(&e.val)).sum()
}
