//! Arbitrary text: token soup, and well-formed documents with random edits.
use crate::core::G;
use crate::model::*;

const TOKS: &[&str] = &[
    " ", " ", " ", "\n", "\n", "\n", "\t", "\r\n", "\r", "{", "}", "(", ")", ",", ">", "=", "@", "/", "//", "///", "// c", "/// d", "a", "b", "key", "r", "r#", "r\"", "r#\"", "\"#", "\"##", "\"", "\"x\"", "\"\\n\"", "\"\\q\"", "\"\\u{41}\"", "\"\\u{",
    "\"\\u12\"", "\\", "\\u{é", "<<", "<", "<<EOF", "<<EOF\n", "\nEOF", "EOF", "  EOF", "<<A,rust\n", "<<eof", "<<1", "@tag", "@a/@b", "@a/", "@1", "@.x", "@a.b", "@tag{", "@tag(", "@tag\"", "@tag@", "@r#\"x\"#", "@err\"x\"", "@tag<<EOF\nx\nEOF", "a.b", "a.b.c",
    ".", "a.", ".a", "a..b", "a>b", "a>", "a>\"q\"", "a>(b)", "a>{b c}", "a>@t", ">b", "é", "漢字", "😀", "\u{a0}", "\u{2028}", "\u{feff}", "\0", "\u{7f}", "\u{85}", "#", "##", "1", "42", "-", "true", "https://x/y", "\u{301}", "'", "`", "@schema", "@schema{", "k v", "k {", "k (", "k @", "\nk v\n",
];

pub fn soup(g: &mut G, max: usize) -> String {
    let n = g.size(0, max);
    let mut s = String::new();
    for _ in 0..n {
        if g.chance(1, 12) {
            s.push_str(&any_text(g));
        } else {
            s.push_str(g.pick(TOKS));
        }
    }
    s
}

fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(g: &mut G, mut s: String) -> String {
    let n = g.size(1, 4);
    for _ in 0..n {
        let a = g.below(s.len() as u64 + 1) as usize;
        let a = boundary(&s, a);
        match g.below(6) {
            0 => {
                let l = g.size(1, 6);
                let b = boundary(&s, a + l);
                s.replace_range(a..b.max(a), "");
            }
            1 | 2 => s.insert_str(a, g.pick(TOKS)),
            3 => s.truncate(a),
            4 => {
                let l = g.size(1, 12);
                let b = boundary(&s, a + l).max(a);
                let part = s[a..b].to_string();
                let c = g.below(s.len() as u64 + 1) as usize;
                let c = boundary(&s, c);
                s.insert_str(c, &part);
            }
            _ => {
                let l = g.size(1, 4);
                let b = boundary(&s, a + l).max(a);
                let t = *g.pick(TOKS);
                s.replace_range(a..b, t);
            }
        }
    }
    s
}

/// (text, true if it came from a document)
pub fn arbitrary(g: &mut G) -> (String, bool) {
    match g.weighted(&[4, 5, 1, 2]) {
        0 => (soup(g, 14), false),
        1 => {
            let d = gen_doc_text(g, FULL);
            (mutate(g, d.text), true)
        }
        2 => (any_text(g), false),
        _ => (gen_doc_text(g, FULL).text, true),
    }
}
