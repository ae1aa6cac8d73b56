//! Rendered errors.
use super::schema::{conform, gen_types, mutate, read, schema_text};
use super::typed::{Enums, Ints, Scalars, damage};
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use facet::Facet;
use facet_styx::RenderError;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P25", name: "syntax", quick: 200_000, thorough: 6_000_000, run: p25_syntax, shrink: 3000, rule: "documents with a malformed construct, and damaged ones; non-trivial: at least one error is rendered" },
    Suite { prop: "P25", name: "typed", quick: 200_000, thorough: 6_000_000, run: p25_typed, shrink: 3000, rule: "damaged documents read into a type; non-trivial: rejected" },
    Suite { prop: "P25", name: "blame", quick: 200_000, thorough: 6_000_000, run: p25_blame, shrink: 3000, rule: "documents of a type with one wrong scalar or one unknown field; non-trivial: all" },
    Suite { prop: "P25", name: "schema", quick: 120_000, thorough: 4_000_000, run: p25_schema, shrink: 3000, rule: "documents that need not conform to a generated schema; non-trivial: at least one error or warning" },
];

#[derive(Facet, Debug)]
#[facet(deny_unknown_fields)]
#[allow(dead_code)]
struct Strict {
    count: u8,
    #[facet(default)]
    list: Vec<i64>,
    port: Option<u16>,
    #[facet(default)]
    map: std::collections::BTreeMap<String, f64>,
    #[facet(default)]
    pairs: Vec<(i8, bool)>,
    inner: Option<Box<Strict>>,
    kind: Option<Kind>,
}
#[derive(Facet, Debug)]
#[repr(u8)]
#[allow(dead_code)]
enum Kind {
    One(u32),
    Two(u32, bool),
    Rec { z: u8, y: Vec<u16> },
}

fn strict(g: &mut G, depth: usize) -> V {
    let num = |g: &mut G| V::Scalar(g.below(100).to_string());
    let e = |k: &str, val: V| E { key: K::Scalar(k.into()), val, doc: vec![] };
    let mut es = vec![e("count", num(g))];
    if g.coin() {
        let n = g.size(0, 3);
        es.push(e("list", V::Seq((0..n).map(|_| num(g)).collect())));
    }
    if g.coin() {
        es.push(e("port", num(g)));
    }
    if g.coin() {
        let n = g.size(0, 2);
        es.push(e("map", V::Obj((0..n).map(|i| e(["k", "key é"][i], num(g))).collect())));
    }
    if g.chance(1, 3) {
        let n = g.size(0, 2);
        es.push(e("pairs", V::Seq((0..n).map(|_| V::Seq(vec![num(g), V::Scalar("true".into())])).collect())));
    }
    if g.chance(1, 3) {
        let k = match g.below(3) {
            0 => V::Tag("One".into(), Some(Box::new(V::Seq(vec![num(g)])))),
            1 => V::Tag("Two".into(), Some(Box::new(V::Seq(vec![num(g), V::Scalar("false".into())])))),
            _ => V::Tag("Rec".into(), Some(Box::new(V::Obj(vec![e("z", num(g)), e("y", V::Seq(vec![num(g), num(g)]))])))),
        };
        if !matches!(k, V::Tag(ref n, _) if n == "One") {
            es.push(e("kind", k));
        }
    }
    if depth > 0 && g.chance(1, 2) {
        es.push(e("inner", strict(g, depth - 1)));
    }
    for i in (1..es.len()).rev() {
        let j = g.below(i as u64 + 1) as usize;
        es.swap(i, j);
    }
    V::Obj(es)
}
fn leaves<'a>(v: &'a mut V, out: &mut Vec<&'a mut V>) {
    match v {
        V::Scalar(_) => out.push(v),
        V::Unit | V::Tag(_, None) => {}
        V::Seq(x) => x.iter_mut().for_each(|x| leaves(x, out)),
        V::Obj(x) => x.iter_mut().for_each(|x| leaves(&mut x.val, out)),
        V::Tag(_, Some(p)) => leaves(p, out),
    }
}

/// A document with one thing wrong: the error is about that thing.
fn p25_blame(g: &mut G) -> R {
    no_color();
    let depth = g.size(0, 3);
    let mut v = strict(g, depth);
    let key = g.chance(1, 3);
    let wrong = if key {
        // an unknown field somewhere
        let mut at = &mut v;
        loop {
            let V::Obj(es) = at else { unreachable!() };
            let inner = es.iter().position(|e| e.key == K::Scalar("inner".into()));
            match inner {
                Some(i) if g.coin() => at = &mut es[i].val,
                _ => {
                    let i = g.below(es.len() as u64 + 1) as usize;
                    es.insert(i, E { key: K::Scalar("mistake".into()), val: V::Scalar("5".into()), doc: vec![] });
                    break;
                }
            }
        }
        "mistake"
    } else {
        let wrong = *g.pick(&["mistake", "1.5.0", "99999999999999999999999", "é mistake"]);
        let mut ls = vec![];
        leaves(&mut v, &mut ls);
        let i = g.below(ls.len() as u64) as usize;
        *ls[i] = V::Scalar(wrong.into());
        wrong
    };
    let V::Obj(es) = v else { unreachable!() };
    let mut text = render(g, FULL, es).text;
    if g.coin() {
        text = format!("// ünï → 𝄞\n\n{text}");
    }
    g.set_input(text.as_str());
    use styx_parse::EventKind::*;
    let evs: Vec<_> = styx_parse::Parser::new(&text).parse_to_vec().into_iter().filter(|e| !matches!(e.kind, Comment { .. } | DocComment { .. } | EntryStart | EntryEnd)).collect();
    let found = evs.iter().position(|e| match &e.kind {
        Key { payload: Some(p), .. } => key && p == wrong,
        Scalar { value, .. } => !key && value == wrong,
        _ => false,
    });
    let Some(at) = found else { return Ok(()) };
    let place = |i: usize| (evs[i].span.start as usize, evs[i].span.end as usize);
    let e = match facet_styx::from_str::<Strict>(&text) {
        // (a large number is a fine float)
        Ok(_) if wrong.starts_with('9') => return Ok(()),
        Ok(v) => bail!("accepted", "{v:?}"),
        Err(e) => e,
    };
    let r = no_panic("rendering", || e.render(FILE, &text))?;
    let got = e.span.as_ref().map(|s| (s.offset as usize, (s.offset + s.len) as usize));
    // (a wrong scalar may be reported at what precedes it: its key, tag, bracket or neighbour)
    let fits_at = got == Some(place(at)) || !key && got == Some(place(at - 1));
    ensure!(fits_at, "wrong-span", "{e}: the fault is at {:?}, the error at {got:?}", place(at));
    fits(&r, &text, got.unwrap(), &format!("{e}"))
}

const FILE: &str = "some/file.styx";

fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// The report stands at the start of the span, shows its line and marks the text.
fn fits(report: &str, text: &str, span: (usize, usize), what: &str) -> R {
    fits_(report, text, span, what, true)
}
fn fits_(report: &str, text: &str, span: (usize, usize), what: &str, marks: bool) -> R {
    let p = plain(report);
    let (a, b) = span;
    ensure!(!p.trim().is_empty(), "empty-report", "{what}");
    // Other characters that end lines for some are not claimed.
    if text.replace("\r\n", "\n").contains(['\r', '\x0b', '\x0c', '\u{85}', '\u{2028}', '\u{2029}']) || text.contains('\x1b') {
        return Ok(());
    }
    // At the end of the text the last character may be shown instead.
    if a >= text.len() {
        return Ok(());
    }
    let line = text[..a].matches('\n').count() + 1;
    let start = text[..a].rfind('\n').map_or(0, |i| i + 1);
    let col = text[start..a].chars().count() + 1;
    let want = format!("{FILE}:{line}:{col}");
    // (the last line may come as the one before where nothing follows it)
    ensure!(
        p.lines().next().is_some() && p.contains(&format!("{want} ")),
        "place",
        "{what} is at {want}, but the report says {p}"
    );
    let shown = text[start..].split('\n').next().unwrap().trim_end_matches('\r');
    let b = b.max(a);
    let one_line = b <= start + shown.len();
    // The marks below the line (a character each where all are as wide as one)
    let narrow = |c: char| c == ' ' || c.is_ascii_graphic() || ('À'..='ʯ').contains(&c) || ('Α'..='ώ').contains(&c) || c == '→';
    if marks && shown.chars().all(narrow) && one_line && a < start + shown.len() && !shown.trim().is_empty() {
        let lines: Vec<&str> = p.lines().collect();
        let Some(i) = lines.iter().position(|l| {
            let l = l.trim_start();
            l.strip_prefix(&line.to_string()).is_some_and(|l| l.trim_start().starts_with('│') && l.trim_end().ends_with(shown.trim()))
        }) else {
            bail!("line-not-shown", "{what}: line {line} {shown:?} is not in {p}");
        };
        let at = |l: &str| l.chars().position(|c| c == '│').map(|i| l.chars().skip(i + 2).collect::<Vec<char>>());
        let marks = lines.get(i + 1).and_then(|l| l.chars().position(|c| c == '│' || c == '┆' || c == '·').map(|i| l.chars().skip(i + 2).collect::<Vec<char>>()));
        let (Some(_), Some(marks)) = (at(lines[i]), marks) else { return Ok(()) };
        let n = text[a..b].chars().count().max(1);
        for k in 0..n {
            let c = marks.get(col - 1 + k).copied().unwrap_or(' ');
            ensure!("─┬│▲╭╰╯╮┼├┤".contains(c), "marks", "{what}: column {} is not marked in {p}", col + k);
        }
        let before = if col >= 2 { marks.get(col - 2).copied().unwrap_or(' ') } else { ' ' };
        let after = marks.get(col - 1 + n).copied().unwrap_or(' ');
        ensure!(before != '─' && after != '─' || p.matches('─').count() > 200, "marks", "{what}: more than the columns {col}..{} is marked in {p}", col + n);
    }
    Ok(())
}

fn p25_syntax(g: &mut G) -> R {
    let mut text = match g.below(3) {
        0 => crate::text::arbitrary(g).0,
        _ => super::lang::planted(g, FULL).1,
    };
    if g.coin() {
        text = format!("// ünï → 𝄞\n\"é\" 1\n{text}");
    }
    g.set_input(text.as_str());
    g.nontrivial = false;
    let mut p = styx_parse::Parser::new(&text);
    while let Some(e) = p.next_event() {
        let styx_parse::EventKind::Error { kind } = e.kind else { continue };
        g.nontrivial = true;
        let two = match &kind {
            styx_parse::ParseErrorKind::DuplicateKey { original } => Some((original.start as usize, original.end as usize)),
            _ => None,
        };
        let err = styx_tree::ParseError::new(kind, e.span);
        let r = no_panic("rendering", || err.render(FILE, &text))?;
        let (a, b) = (e.span.start as usize, e.span.end as usize);
        let what = format!("{err} ({a}..{b})");
        let message = err.to_string();
        let message = message.rsplit_once(" at offset").map_or(message.as_str(), |m| m.0);
        if !message.contains(|c: char| c.is_control()) {
            ensure!(plain(&r).contains(message), "message", "{what}: the report says {}", plain(&r));
        }
        if two.is_some() {
            // Two places are marked, perhaps on one line
            fits_(&r, &text, (a, b), &what, false)?;
            ensure!(plain(&r).contains("first defined here"), "first-definition", "{what}: {}", plain(&r));
            let (x, y) = two.unwrap();
            let first_line = text[..x].matches('\n').count();
            if !text[a..b].contains('\n') && first_line != text[..a].matches('\n').count() && !text.contains(['\r', '\x0b', '\x0c', '\u{85}', '\u{2028}', '\u{2029}', '\x1b']) {
                // On lines of their own, the first definition is marked like any other place.
                let one = plain(&r).replacen(&format!("{FILE}:{}:", text[..a].matches('\n').count() + 1), &format!("{FILE}:"), 1);
                let col = text[..x].chars().rev().take_while(|c| *c != '\n').count() + 1;
                fits(&format!("{FILE}:{}:{col} {one}", first_line + 1), &text, (x, y), &format!("the first definition for {what}"))?;
            }
        } else {
            fits(&r, &text, (a, b), &what)?;
        }
    }
    Ok(())
}

fn typed<X: Facet<'static> + super::typed::Ty>(g: &mut G) -> R {
    let v = X::make(g, 2);
    let V::Obj(es) = super::typed::spell(g, &v.sem(), false) else { unreachable!() };
    let text = render(g, FULL, es).text;
    let mut text = damage(g, &text);
    if g.coin() {
        text = format!("// ünï → 𝄞\n\"é\" 1\n{text}");
    }
    g.set_input(text.as_str());
    let Err(e) = facet_styx::from_str::<X>(&text) else { return Ok(()) };
    g.nontrivial = true;
    let r = no_panic("rendering", || e.render(FILE, &text))?;
    ensure!(!r.contains('\x1b') || text.contains('\x1b'), "colour", "NO_COLOR is set: {r:?}");
    match &e.span {
        Some(s) => {
            let (a, b) = (s.offset as usize, (s.offset + s.len) as usize);
            ensure!(a <= text.len() && b <= text.len(), "span-out-of-range", "{e}: {s:?} of {} bytes", text.len());
            let eof = matches!(e.kind, facet_format::DeserializeErrorKind::UnexpectedEof { .. } | facet_format::DeserializeErrorKind::Unsupported { .. } | facet_format::DeserializeErrorKind::CannotBorrow { .. });
            if eof || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                return Ok(());
            }
            fits(&r, &text, (a, b), &format!("{e} ({a}..{b})"))
        }
        None => Ok(()),
    }
}
fn p25_typed(g: &mut G) -> R {
    no_color();
    match g.below(3) {
        0 => typed::<Ints>(g),
        1 => typed::<Scalars>(g),
        _ => typed::<Enums>(g),
    }
}
fn no_color() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    // SAFETY: workers run one case at a time on one thread
    ONCE.call_once(|| unsafe { std::env::set_var("NO_COLOR", "1") });
}

fn p25_schema(g: &mut G) -> R {
    no_color();
    let depth = g.size(1, 3);
    let (types, root) = gen_types(g, depth);
    let stext = schema_text(g, &types, &root);
    let mut doc = conform(g, &types, &root, 6);
    for _ in 0..g.size(1, 3) {
        mutate(g, &mut doc);
    }
    let es = match doc {
        V::Obj(es) => es,
        _ => vec![],
    };
    let d = render(g, FULL, es);
    g.set_input(format!("{stext}\n=====\n{}", d.text));
    let schema = read(&stext)?;
    let Ok(value) = styx_tree::parse(&d.text) else { return Ok(()) };
    let r = facet_styx::validate(&value, &schema);
    g.nontrivial = !r.errors.is_empty() || !r.warnings.is_empty();
    let all = no_panic("rendering", || r.render(FILE, &d.text))?;
    ensure!(!all.contains('\x1b') || g.input.contains('\x1b'), "colour", "NO_COLOR is set: {all:?}");
    let mut n = 0;
    for e in &r.errors {
        let one = no_panic("rendering", || e.render(FILE, &d.text))?;
        ensure!(all.contains(&one), "not-in-the-whole", "{e}: {one} is not in {all}");
        n += 1;
        if let Some(s) = e.span {
            fits(&one, &d.text, (s.start as usize, s.end as usize), &format!("{e} ({}..{})", s.start, s.end))?;
        }
    }
    for w in &r.warnings {
        let mut one = vec![];
        no_panic("rendering", || w.write_report(FILE, &d.text, &mut one))?;
        let one = String::from_utf8_lossy(&one).to_string();
        ensure!(all.contains(&one), "not-in-the-whole", "{w:?}: {one} is not in {all}");
        n += 1;
        if let Some(s) = w.span {
            fits(&one, &d.text, (s.start as usize, s.end as usize), &format!("{w:?}"))?;
        }
    }
    let heads = all.lines().filter(|l| l.starts_with("Error:") || l.starts_with("Warning:")).count();
    ensure!(heads >= n, "report-missing", "{n} errors and warnings, {heads} reports: {all}");
    Ok(())
}
