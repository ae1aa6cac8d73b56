//! The WebAssembly bindings, built with stand-ins for the JavaScript host (`web/`).
use super::lang::label_used;
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure, text};
use serde_json::Value as J;
use wasm_bindgen::JsValue as Js;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P27", name: "documents", quick: 800_000, thorough: 10_000_000, run: documents, shrink: 3000, rule: "generated documents, converted to JSON; non-trivial: at least 4 nodes" },
    Suite { prop: "P27", name: "json", quick: 800_000, thorough: 10_000_000, run: json, shrink: 3000, rule: "generated JSON, converted to a document and back; non-trivial: at least 4 values" },
    Suite { prop: "P27", name: "texts", quick: 400_000, thorough: 10_000_000, run: texts, shrink: 3000, rule: "any text: the functions agree on whether and where it is wrong; non-trivial: it is wrong" },
];

/// What JavaScript code makes of JSON text.
fn js(v: &J) -> Js {
    match v {
        J::Null => Js::Null,
        J::Bool(b) => Js::Bool(*b),
        J::Number(n) => Js::Num(n.as_f64().unwrap()),
        J::String(s) => Js::Str(s.clone()),
        J::Array(v) => Js::Arr(v.iter().map(js).collect()),
        J::Object(o) => Js::Obj(o.iter().map(|(k, v)| (k.clone(), js(v))).collect()),
    }
}
/// The same but for the last digit of numbers, which serde_json does not read exactly.
fn alike(a: &Js, b: &Js) -> bool {
    match (a, b) {
        (Js::Num(a), Js::Num(b)) => near(*a, *b),
        (Js::Arr(a), Js::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| alike(a, b)),
        (Js::Obj(a), Js::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && alike(&a.1, &b.1)),
        _ => a == b,
    }
}
fn near(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 4.0 * f64::EPSILON * a.abs() || (a - b).abs() <= 4.0 * 5e-324 }
/// What comes back from a document. (Scalars have no type in a document: a text that is a number may come back as that.)
fn returned(j: &J, k: &J) -> bool {
    match (j, k) {
        (J::Number(a), J::Number(b)) => a == b || (a.is_f64() && near(a.as_f64().unwrap(), b.as_f64().unwrap())),
        (J::String(a), J::Number(b)) => a.parse::<f64>().is_ok_and(|a| near(a, b.as_f64().unwrap())),
        (J::String(a), J::Bool(_) | J::Null) => *a == k.to_string(),
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| returned(a, b)),
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && returned(a.1, b.1)),
        _ => j == k,
    }
}
fn flag(v: &Js, what: &str) -> Result<bool, Fail> {
    match v.get("success") {
        Some(Js::Bool(b)) => Ok(*b),
        _ => fail("no-answer", format!("{what} answers {v:?}")),
    }
}
fn string(v: &Js, key: &str) -> Result<String, Fail> {
    match v.get(key) {
        Some(Js::Str(s)) => Ok(s.clone()),
        _ => fail("no-answer", format!("no text for {key} in {v:?}")),
    }
}
fn to_json(s: &str) -> Result<J, Fail> {
    let r = vh_web::to_json(s);
    ensure!(flag(&r, "to_json")?, "to-json-refused", "{:?}; document {s:?}", string(&r, "error"));
    let t = string(&r, "jsonString")?;
    let j: J = match serde_json::from_str(&t) {
        Ok(j) => j,
        Err(e) => bail!("bad-json", "{e}: {t:?}"),
    };
    // (a number beyond what JavaScript holds is rounded, as JSON.parse rounds it)
    ensure!(r.get("json").is_some_and(|v| alike(v, &js(&j))), "json-and-text-differ", "{:?} comes with {t:?}", r.get("json"));
    Ok(j)
}

fn is_number(s: &str) -> bool {
    let b = s.as_bytes();
    let digits = |i: usize| b[i.min(b.len())..].iter().take_while(|c| c.is_ascii_digit()).count();
    let mut i = (b.first() == Some(&b'-')) as usize;
    let n = digits(i);
    if n == 0 || (n > 1 && b[i] == b'0') {
        return false;
    }
    i += n;
    if b.get(i) == Some(&b'.') {
        let n = digits(i + 1);
        if n == 0 {
            return false;
        }
        i += 1 + n;
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1 + matches!(b.get(i + 1), Some(b'+' | b'-')) as usize;
        let n = digits(i);
        if n == 0 {
            return false;
        }
        i += n;
    }
    i == b.len()
}
fn key_of(k: &TK) -> Option<String> {
    match (&k.tag, &k.payload) {
        (None, None) => Some("@".into()),
        (None, Some(p)) => Some(p.1.clone()),
        (Some(t), None) => Some(format!("@{t}")),
        _ => None,
    }
}
/// The JSON of a value of a document.
fn same(t: &T, j: &J, p: &str) -> R {
    match &t.v {
        TV::Unit => ensure!(j.is_null(), "unit", "{p}: unit becomes {j}"),
        TV::Scalar { kind, text } => {
            let as_text = j.as_str() == Some(text);
            if *kind != SK::Bare {
                ensure!(as_text, "text", "{p}: {kind:?} {text:?} becomes {j}");
                return Ok(());
            }
            let number = match (text.parse::<i64>(), text.parse::<u64>(), text.parse::<f64>()) {
                (Ok(n), ..) => j.as_i64() == Some(n),
                (_, Ok(n), _) => j.as_u64() == Some(n),
                (.., Ok(n)) if n.is_finite() => j.as_f64().is_some_and(|j| near(j, n)),
                _ => false,
            };
            let ok = match text.as_str() {
                "true" => j == &J::Bool(true),
                "false" => j == &J::Bool(false),
                "null" => j.is_null(),
                s if is_number(s) && s.parse::<f64>().is_ok_and(f64::is_finite) => number,
                // (other spellings of numbers are left open)
                _ => as_text || number,
            };
            ensure!(ok, "bare", "{p}: {text:?} becomes {j}");
        }
        TV::Seq(v) => {
            let Some(a) = j.as_array() else { bail!("shape", "{p}: a sequence becomes {j}") };
            ensure!(a.len() == v.len(), "shape", "{p}: {} elements become {j}", v.len());
            for (i, (t, j)) in v.iter().zip(a).enumerate() {
                same(t, j, &format!("{p}/{i}"))?;
            }
        }
        TV::Obj(es) => {
            let Some(o) = j.as_object() else { bail!("shape", "{p}: an object becomes {j}") };
            let want: Vec<_> = es.iter().map(|e| key_of(&e.key)).collect();
            // (tagged texts as keys, and keys that are the same in JSON, are left open)
            let open = want.contains(&None) || (1..want.len()).any(|i| want[..i].contains(&want[i]));
            if open {
                return Ok(());
            }
            let got: Vec<_> = o.keys().cloned().map(Some).collect();
            ensure!(got == want, "keys", "{p}: keys {want:?} become {got:?}");
            for (e, (k, j)) in es.iter().zip(o) {
                same(&e.val, j, &format!("{p}/{k}"))?;
            }
        }
        TV::Tag { name, payload } => {
            let Some(o) = j.as_object() else { bail!("shape", "{p}: @{name} becomes {j}") };
            ensure!(o.get("$tag").and_then(J::as_str) == Some(name), "tag", "{p}: @{name} becomes {j}");
            // (`@a@` is `@a`)
            let payload = payload.as_ref().filter(|t| t.v != TV::Unit);
            ensure!(o.len() == 1 + payload.is_some() as usize, "tag", "{p}: @{name} becomes {j}");
            if let Some(t) = payload {
                let Some(j) = o.get("$value") else { bail!("tag", "{p}: @{name} becomes {j}") };
                same(t, j, &format!("{p}/@{name}"))?;
            }
        }
    }
    Ok(())
}
fn documents(g: &mut G) -> R {
    let d = gen_doc_text(g, Cfg { chains: false, ..FULL });
    g.set_input(d.text.as_str());
    g.nontrivial = size_of(&d.tree) >= 4;
    label_used(g, &d.used);
    ensure!(vh_web::validate(&d.text), "rejected", "");
    let root = T { v: TV::Obj(join_paths(d.tree.clone())), span: (0, 0) };
    same(&root, &to_json(&d.text)?, "")
}

fn gen_text(g: &mut G) -> String {
    match g.below(4) {
        0 => any_text(g),
        1 => (*g.pick(&["true", "false", "null", "nan", "inf", "-inf", "infinity", "0", "-1", "007", "+5", "1e5", "1e999", "9007199254740993", "", ".5", "5.", "-", "a.b", "@", "@a", "//x", "/", "=", "a=b", "a>b", "<<EOF", "r\"a\"", "r#", "\u{1}", "$tag", "TRUE", "None"])).into(),
        2 => <f64 as super::typed::Ty>::make(g, 0).to_string(),
        _ => word(g),
    }
}
fn gen_json(g: &mut G, d: usize) -> J {
    match g.below(if d == 0 { 5 } else { 9 }) {
        0 => J::Null,
        1 => J::Bool(g.coin()),
        2 => match g.below(3) {
            0 => J::from(g.u64() as i64 >> g.below(64)),
            1 => J::from(g.u64()),
            _ => serde_json::Number::from_f64(<f64 as super::typed::Ty>::make(g, 0)).map_or(J::Null, J::Number),
        },
        3 | 4 => J::String(gen_text(g)),
        5 | 6 => {
            let n = g.size(0, 4);
            J::Array((0..n).map(|_| gen_json(g, d - 1)).collect())
        }
        7 => gen_object(g, d),
        _ => {
            // A tag
            g.label("tag");
            let mut o = serde_json::Map::new();
            o.insert("$tag".into(), tag_name(g).into());
            if g.coin() {
                let v = gen_json(g, d - 1);
                // A tag around nothing is the tag alone. (Texts below a tag: known finding of P08.)
                if v.is_array() || v.is_object() {
                    o.insert("$value".into(), v);
                }
            }
            if g.chance(1, 4) {
                g.label("odd tag");
                match g.below(4) {
                    0 => drop(o.insert("$tag".into(), gen_json(g, 1))),
                    1 => drop(o.insert("$tag".into(), gen_text(g).into())),
                    2 => drop(o.insert("x".into(), 1.into())),
                    _ => {
                        o.remove("$tag");
                        o.insert("$value".into(), "x".into());
                    }
                }
            }
            J::Object(o)
        }
    }
}
fn gen_object(g: &mut G, d: usize) -> J {
    let n = g.size(0, 4);
    let mut o = serde_json::Map::new();
    for _ in 0..n {
        let k = gen_text(g);
        if k != "$tag" {
            let v = gen_json(g, d - 1);
            o.insert(k, v);
        }
    }
    J::Object(o)
}
fn count(j: &J) -> usize {
    1 + match j {
        J::Array(v) => v.iter().map(count).sum(),
        J::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn json(g: &mut G) -> R {
    let d = g.size(1, 4);
    let j = if g.chance(1, 20) { gen_json(g, d) } else { gen_object(g, d) };
    let src = if g.coin() { j.to_string() } else { serde_json::to_string_pretty(&j).unwrap() };
    if g.chance(1, 20) {
        // Broken JSON
        let src = text::mutate(g, src);
        g.set_input(src.as_str());
        g.label("broken");
        let r = vh_web::from_json(&src);
        let ok = serde_json::from_str::<J>(&src).is_ok();
        if !ok {
            ensure!(!flag(&r, "from_json")?, "broken-accepted", "{r:?}");
            ensure!(!string(&r, "error")?.is_empty(), "no-message", "");
        }
        return Ok(());
    }
    g.set_input(src.as_str());
    g.nontrivial = count(&j) >= 4;
    let r = vh_web::from_json(&src);
    if !j.is_object() {
        // No document: refused, or something else that says the same
        g.label("no object");
        if !flag(&r, "from_json")? {
            return Ok(());
        }
    }
    ensure!(flag(&r, "from_json")?, "from-json-refused", "{r:?}");
    let s = string(&r, "styxString")?;
    ensure!(vh_web::validate(&s), "bad-document", "{s:?}");
    let back = to_json(&s)?;
    ensure!(returned(&j, &back), "changed", "{s:?} is {back}");
    Ok(())
}

fn texts(g: &mut G) -> R {
    let (t, _) = text::arbitrary(g);
    g.set_input(t.as_str());
    let mut want = vec![];
    let mut p = styx_parse::Parser::new(&t);
    while let Some(e) = p.next_event() {
        if let styx_parse::EventKind::Error { .. } = e.kind {
            want.push((e.span.start as f64, e.span.end as f64));
        }
    }
    g.nontrivial = !want.is_empty();
    let r = vh_web::parse(&t);
    ensure!(flag(&r, "parse")? == want.is_empty(), "verdict", "parse: {r:?}, errors at {want:?}");
    ensure!(vh_web::validate(&t) == want.is_empty(), "verdict", "validate, errors at {want:?}");
    let Some(Js::Arr(ds)) = r.get("diagnostics") else { bail!("no-answer", "{r:?}") };
    let mut got = vec![];
    for d in ds {
        let (Some(Js::Num(a)), Some(Js::Num(b))) = (d.get("start"), d.get("end")) else { bail!("no-answer", "{d:?}") };
        got.push((*a, *b));
        ensure!(!string(d, "message")?.is_empty(), "no-message", "{d:?}");
        ensure!(string(d, "severity")? == "error", "severity", "{d:?}");
    }
    ensure!(got == want, "places", "errors at {want:?}, diagnostics at {got:?}");
    let r = vh_web::to_json(&t);
    if flag(&r, "to_json")? {
        ensure!(want.is_empty(), "verdict", "to_json accepts it, errors at {want:?}");
        to_json(&t)?;
    } else {
        ensure!(!string(&r, "error")?.is_empty(), "no-message", "");
        ensure!(!want.is_empty(), "verdict", "to_json refuses it: {r:?}");
    }
    Ok(())
}
