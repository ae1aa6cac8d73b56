//! Schemas embedded in binaries.
use super::cli::run;
use crate::core::*;
use crate::model::*;
use crate::{bail, ensure};
use styx_embed::*;

pub const SUITES: &[Suite] = &[
    Suite { prop: "P18", name: "bytes", quick: 100_000, thorough: 3_000_000, run: p18_bytes, shrink: 2000, rule: "data holding embedded schemas, damaged ones and noise; non-trivial: at least one intact schema and one other part" },
    Suite { prop: "P18", name: "objects", quick: 100_000, thorough: 3_000_000, run: p18_objects, shrink: 2000, rule: "an ELF, Mach-O or PE file with a schema section, possibly damaged; non-trivial: the section holds a schema" },
    Suite { prop: "P18", name: "macros", quick: 600, thorough: 20_000, run: p18_macros, shrink: 40, rule: "a program with up to 12 embedding macros, compiled with rustc; every program counts" },
];

pub fn oracle(_name: &str) -> Option<super::Oracle> {
    None
}

fn schema(g: &mut G, i: usize) -> String {
    match g.weighted(&[6, 2, 1, 1]) {
        0 => gen_doc_text(g, FULL).text + &format!("\n// {i}"),
        1 => {
            let n = g.size(0, 3000);
            let w = word(g);
            format!("{i}{}", w.repeat(n / w.len().max(1)))
        }
        // The text of a schema may mention the magic bytes.
        2 => format!("{i} \"STYX_SCHEMA_V2\0\0\" STYX_SCHEMAS_V1\0"),
        _ => i.to_string(),
    }
}

fn v1(texts: &[String]) -> Vec<u8> {
    let mut b = MAGIC_V1.to_vec();
    b.extend((texts.len() as u16).to_le_bytes());
    for t in texts {
        let c = lz4_flex::compress_prepend_size(t.as_bytes());
        b.extend((t.len() as u32).to_le_bytes());
        b.extend((c.len() as u32).to_le_bytes());
        b.extend(blake3::hash(t.as_bytes()).as_bytes());
        b.extend(c);
    }
    b
}
/// The documented layout, written independently of the crate.
fn v2(t: &str) -> Vec<u8> {
    let c = lz4_flex::compress_prepend_size(t.as_bytes());
    let mut b = b"STYX_SCHEMA_V2\0\0".to_vec();
    b.extend((t.len() as u32).to_le_bytes());
    b.extend((c.len() as u32).to_le_bytes());
    b.extend(blake3::hash(t.as_bytes()).as_bytes());
    b.extend(c);
    b
}

fn noise(g: &mut G) -> Vec<u8> {
    match g.below(6) {
        0 => vec![0; g.size(0, 64)],
        1 => (0..g.size(0, 40)).map(|_| g.below(256) as u8).collect(),
        2 => MAGIC_V2[..g.size(1, 16)].to_vec(),
        3 => MAGIC_V1[..g.size(1, 16)].to_vec(),
        4 => {
            let mut b = MAGIC_V2.to_vec();
            b.extend((0..g.size(0, 60)).map(|_| g.below(256) as u8));
            b
        }
        _ => {
            let mut b = MAGIC_V1.to_vec();
            b.extend((0..g.size(0, 60)).map(|_| g.below(8) as u8));
            b
        }
    }
}

struct Made {
    data: Vec<u8>,
    /// Texts that must come out: V2 in order, V1 in order.
    v2: Vec<String>,
    v1: Vec<String>,
    /// Texts of damaged parts: they may come out (if the damage did not matter) or not.
    may: Vec<String>,
    about: Vec<String>,
}

fn make(g: &mut G) -> Made {
    let mut m = Made { data: vec![], v2: vec![], v1: vec![], may: vec![], about: vec![] };
    let n = g.size(0, 6);
    for i in 0..n {
        match g.weighted(&[5, 3, 2, 2]) {
            0 => {
                let t = schema(g, i);
                let b = if g.coin() { v2(&t) } else { build_embedded_blob(&t) };
                m.about.push(format!("V2 {t:?}"));
                m.data.extend(b);
                m.v2.push(t);
            }
            1 => {
                let b = noise(g);
                m.about.push(format!("noise {b:?}"));
                m.data.extend(b);
            }
            2 => {
                let ts: Vec<String> = if g.chance(1, 30) {
                    g.label("many schemas");
                    let k = if g.coin() { g.size(250, 262) } else { g.size(4, 1200) };
                    (0..k).map(|j| format!("{i} {j}")).collect()
                } else {
                    let k = g.size(0, 3);
                    (0..k).map(|j| schema(g, 100 + i * 10 + j)).collect()
                };
                m.about.push(format!("V1 {ts:?}"));
                m.data.extend(v1(&ts));
                m.v1.extend(ts);
            }
            _ => {
                // A damaged schema
                let t = schema(g, 1000 + i);
                let mut b = if g.chance(3, 4) { v2(&t) } else { v1(std::slice::from_ref(&t)) };
                let what = if g.coin() {
                    let at = g.below(b.len() as u64) as usize;
                    let x = 1u8 << g.below(8);
                    b[at] ^= x;
                    format!("byte {at} xor {x}")
                } else {
                    let l = g.below(b.len() as u64) as usize;
                    b.truncate(l);
                    format!("cut to {l}")
                };
                m.about.push(format!("damaged ({what}) {t:?}"));
                m.data.extend(b);
                m.may.push(t);
            }
        }
    }
    m
}

/// Every intact schema is found, in order, and nothing that was never embedded.
fn judge(m: &Made, got: Result<Vec<String>, String>) -> R {
    let got = match got {
        Ok(v) => {
            ensure!(!v.is_empty(), "empty-success", "no schema, but no error either");
            v
        }
        Err(e) => {
            ensure!(m.v1.is_empty() && m.v2.is_empty(), "not-found", "{e}; embedded {:?}", m.v2.iter().chain(&m.v1).collect::<Vec<_>>());
            return Ok(());
        }
    };
    for t in &got {
        ensure!(m.v2.contains(t) || m.v1.contains(t) || m.may.contains(t), "invented", "{t:?} was never embedded");
    }
    for (want, name) in [(&m.v2, "V2"), (&m.v1, "V1")] {
        let g: Vec<&String> = got.iter().filter(|t| want.contains(t)).collect();
        ensure!(g == want.iter().collect::<Vec<_>>(), "not-all-found", "{name}: found {g:?}, embedded {want:?}");
    }
    Ok(())
}

fn p18_bytes(g: &mut G) -> R {
    let m = make(g);
    g.nontrivial = !m.v2.is_empty() && m.about.len() >= 2;
    g.set_input(m.about.join("\n"));
    if m.v2.is_empty() && m.v1.is_empty() {
        g.label("none intact");
    }
    judge(&m, extract_schemas(&m.data).map_err(|e| e.to_string()))?;
    judge(&m, extract_schemas_from_object(&m.data).map_err(|e| e.to_string()))?;
    let p = format!("{}/data.bin", g.dir);
    std::fs::write(&p, &m.data).unwrap();
    if !m.data.is_empty() {
        judge(&m, extract_schemas_from_file(std::path::Path::new(&p)).map_err(|e| e.to_string()))?;
    }
    Ok(())
}

// --- object files ----------------------------------------------------------------------------

struct W {
    b: Vec<u8>,
    big: bool,
}
impl W {
    fn n(&mut self, v: u64, bytes: usize) -> &mut Self {
        let le = v.to_le_bytes();
        if self.big {
            self.b.extend(le[..bytes].iter().rev());
        } else {
            self.b.extend(&le[..bytes]);
        }
        self
    }
    fn pad(&mut self, to: usize) -> &mut Self {
        while self.b.len() < to {
            self.b.push(0);
        }
        self
    }
}

fn elf(sections: &[(&str, Vec<u8>)], wide: bool, big: bool) -> Vec<u8> {
    let word = if wide { 8 } else { 4 };
    let (head, shent) = if wide { (64, 64) } else { (52, 40) };
    let mut names = vec![0u8];
    let mut all: Vec<(u64, Vec<u8>, u64)> = vec![];
    for (n, d) in sections {
        all.push((names.len() as u64, d.clone(), 1));
        names.extend(n.as_bytes());
        names.push(0);
    }
    let at = names.len() as u64;
    names.extend(b".shstrtab\0");
    all.push((at, names, 3));
    let mut offs = vec![];
    let mut o = head;
    for (_, d, _) in &all {
        offs.push(o as u64);
        o += d.len();
    }
    let shoff = o.div_ceil(8) * 8;
    let mut w = W { b: vec![0x7f, b'E', b'L', b'F', if wide { 2 } else { 1 }, if big { 2 } else { 1 }, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0], big };
    w.n(2, 2).n(if wide { 62 } else { 3 }, 2).n(1, 4);
    w.n(0, word).n(0, word).n(shoff as u64, word);
    w.n(0, 4).n(head as u64, 2).n(0, 2).n(0, 2).n(shent, 2).n(all.len() as u64 + 1, 2).n(all.len() as u64, 2);
    for (_, d, _) in &all {
        w.b.extend(d);
    }
    w.pad(shoff);
    w.pad(shoff + shent as usize);
    for ((name, d, ty), off) in all.iter().zip(offs) {
        w.n(*name, 4).n(*ty, 4).n(0, word).n(0, word).n(off, word).n(d.len() as u64, word).n(0, 4).n(0, 4).n(1, word).n(0, word);
    }
    w.b
}
fn name16(w: &mut W, s: &str) {
    let mut n = s.as_bytes().to_vec();
    n.resize(16, 0);
    w.b.extend(n);
}
fn macho(sections: &[(&str, Vec<u8>)], wide: bool) -> Vec<u8> {
    let word = if wide { 8 } else { 4 };
    let (head, seg, sec) = if wide { (32, 72, 80) } else { (28, 56, 68) };
    let cmd = seg + sec * sections.len();
    let mut w = W { b: vec![], big: false };
    w.n(if wide { 0xfeed_facf } else { 0xfeed_face }, 4).n(if wide { 0x0100_0007 } else { 7 }, 4).n(3, 4).n(2, 4).n(1, 4).n(cmd as u64, 4).n(0, 4);
    if wide {
        w.n(0, 4);
    }
    let total: usize = sections.iter().map(|s| s.1.len()).sum();
    w.n(if wide { 0x19 } else { 1 }, 4).n(cmd as u64, 4);
    name16(&mut w, "__DATA");
    w.n(0, word).n(total as u64, word).n((head + cmd) as u64, word).n(total as u64, word).n(3, 4).n(3, 4).n(sections.len() as u64, 4).n(0, 4);
    let mut off = head + cmd;
    for (n, d) in sections {
        name16(&mut w, n);
        name16(&mut w, "__DATA");
        w.n(0, word).n(d.len() as u64, word).n(off as u64, 4).n(0, 4).n(0, 4).n(0, 4).n(0, 4).n(0, 4).n(0, 4);
        if wide {
            w.n(0, 4);
        }
        off += d.len();
    }
    for (_, d) in sections {
        w.b.extend(d);
    }
    w.b
}
fn fat(slices: &[Vec<u8>]) -> Vec<u8> {
    let mut w = W { b: vec![], big: true };
    w.n(0xcafe_babe, 4).n(slices.len() as u64, 4);
    let mut off = 4096;
    let mut offs = vec![];
    for s in slices {
        w.n(0x0100_0007, 4).n(3, 4).n(off as u64, 4).n(s.len() as u64, 4).n(12, 4);
        offs.push(off);
        off += s.len().div_ceil(4096) * 4096;
    }
    for (s, o) in slices.iter().zip(offs) {
        w.pad(o);
        w.b.extend(s);
    }
    w.b
}
fn pe(sections: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut w = W { b: vec![b'M', b'Z'], big: false };
    w.pad(0x3c).n(0x40, 4);
    w.b.extend(b"PE\0\0");
    w.n(0x8664, 2).n(sections.len() as u64, 2).n(0, 4).n(0, 4).n(0, 4).n(240, 2).n(0x22, 2);
    let opt = w.b.len();
    w.n(0x20b, 2).n(0, 2).n(0, 4).n(0, 4).n(0, 4).n(0, 4).n(0, 4);
    w.n(0x1_4000_0000, 8).n(4096, 4).n(512, 4).n(0, 8).n(0, 8).n(0x10000, 4).n(1024, 4).n(0, 4).n(3, 2).n(0, 2);
    w.n(0, 8).n(0, 8).n(0, 8).n(0, 8).n(0, 4).n(16, 4);
    w.pad(opt + 240);
    let mut off = (w.b.len() + 40 * sections.len()).div_ceil(512) * 512;
    let mut rva = 4096u64;
    let mut offs = vec![];
    for (n, d) in sections {
        let mut nm = n.as_bytes().to_vec();
        nm.resize(8, 0);
        w.b.extend(&nm[..8]);
        let size = d.len().div_ceil(512) * 512;
        w.n(d.len() as u64, 4).n(rva, 4).n(size as u64, 4).n(off as u64, 4).n(0, 4).n(0, 4).n(0, 4).n(0x4000_0040, 4);
        offs.push((off, size));
        off += size;
        rva += (d.len() as u64).div_ceil(4096).max(1) * 4096;
    }
    for ((_, d), (o, size)) in sections.iter().zip(offs) {
        w.pad(o);
        w.b.extend(d);
        w.pad(o + size);
    }
    w.b
}

fn p18_objects(g: &mut G) -> R {
    let m = make(g);
    let kind = *g.pick(&["elf64", "elf32", "elf64be", "macho64", "macho32", "fat", "pe"]);
    g.label(kind);
    let name = match kind {
        "pe" => ".styx",
        k if k.starts_with("elf") => ".styx_schemas",
        _ => "__styx_schemas",
    };
    // Without the section, the whole file is searched.
    let named = g.chance(5, 6);
    let mut sections: Vec<(&str, Vec<u8>)> = vec![(".text", vec![0x90; g.size(1, 20)]), (if named { name } else { ".rodata" }, m.data.clone()), (".styx_schemas2", vec![7; g.size(0, 9)])];
    if g.coin() {
        sections.swap(0, 1);
    }
    if g.coin() {
        sections.swap(1, 2);
    }
    let mut file = match kind {
        "elf64" => elf(&sections, true, false),
        "elf32" => elf(&sections, false, false),
        "elf64be" => elf(&sections, true, true),
        "macho64" => macho(&sections, true),
        "macho32" => macho(&sections, false),
        "fat" => {
            let plain = macho(&[("__other", vec![1, 2, 3])], true);
            let own = macho(&sections, true);
            match g.below(3) {
                0 => fat(&[own]),
                1 => fat(&[plain, own]),
                _ => fat(&[own, plain]),
            }
        }
        _ => pe(&sections),
    };
    g.nontrivial = !m.v2.is_empty();
    let mut about = format!("{kind}, section {}\n{}", if named { name } else { ".rodata" }, m.about.join("\n"));
    let damaged = g.chance(2, 5);
    let mut m = m;
    if damaged {
        g.label("damaged file");
        for _ in 0..g.size(1, 3) {
            let at = match g.below(3) {
                0 => g.below(file.len() as u64) as usize & if g.coin() { !3 } else { !0 },
                1 => g.below((file.len() as u64).min(200)) as usize,
                _ => file.len() - 1 - g.below((file.len() as u64).min(200)) as usize,
            };
            let v = *g.pick(&[0u8, 0xff, 0x7f, 0x80, 1]);
            let n = *g.pick(&[1, 1, 4, 8]);
            about.push_str(&format!("\n  {n} bytes from {at} := {v}"));
            for b in file.iter_mut().skip(at).take(n) {
                *b = v;
            }
        }
        if g.chance(1, 4) {
            let l = g.below(file.len() as u64) as usize;
            about.push_str(&format!("\n  cut to {l}"));
            file.truncate(l);
        }
        m.may.append(&mut m.v2);
        m.may.append(&mut m.v1);
    }
    g.set_input(about);
    judge(&m, extract_schemas_from_object(&file).map_err(|e| e.to_string()))
}

// --- the macros ------------------------------------------------------------------------------

/// One of the ways Rust source can write a string.
fn literal(g: &mut G, s: &str) -> String {
    let raw_ok = !s.contains('\r') && !s.contains('\0');
    if raw_ok && g.coin() {
        let mut n = g.size(0, 2);
        while s.contains(&format!("\"{}", "#".repeat(n))) {
            n += 1;
        }
        let h = "#".repeat(n);
        return format!("r{h}\"{s}\"{h}");
    }
    let mut o = String::from("\"");
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        let next = it.peek().copied();
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str(if g.coin() { "\\\\" } else { "\\x5c" }),
            '\r' => o.push_str("\\r"),
            '\0' => o.push_str(if g.coin() { "\\0" } else { "\\x00" }),
            '\n' => o.push_str(match g.below(3) {
                0 => "\\n",
                1 => "\n",
                // A continued line swallows the white space that follows it.
                2 if next.is_some_and(|n| !n.is_whitespace()) => "\\n\\\n    ",
                _ => "\\n",
            }),
            '\t' if g.coin() => o.push_str("\\t"),
            '\'' if g.coin() => o.push_str("\\'"),
            c if g.chance(1, 12) => o.push_str(&if c.is_ascii() && g.coin() { format!("\\x{:02x}", c as u32) } else { format!("\\u{{{:x}}}", c as u32) }),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn p18_macros(g: &mut G) -> R {
    let dir = format!("{}/m", g.dir);
    super::cli::fresh(&dir);
    std::fs::create_dir(format!("{dir}/out")).unwrap();
    let n = g.size(1, 12);
    let mut source = String::new();
    let mut texts: Vec<String> = vec![];
    let mut files = 0;
    for i in 0..n {
        // Ids that differ in what an identifier cannot hold.
        let id = match g.below(3) {
            0 => format!("app{}{i}", g.pick(&["-", "_", ".", "/", ":"])),
            1 => format!("{i}-{}", any_text(g)),
            _ => format!("{i}"),
        };
        let meta = E { key: K::Scalar("meta".into()), val: V::Obj(vec![E { key: K::Scalar("id".into()), val: V::Scalar(id), doc: vec![] }, E { key: K::Scalar("version".into()), val: V::Scalar("1".into()), doc: vec![] }]), doc: vec![] };
        let mut es = vec![meta];
        if let V::Obj(x) = &mut es[0].val
            && g.coin()
        {
            x.reverse();
        }
        let mut rest = gen_entries(g, &FULL, 2);
        rest.retain(|e| e.key != K::Scalar("meta".into()));
        es.extend(rest);
        let text = render(g, FULL, es).text;
        let name = format!("f{files}.styx");
        match g.weighted(&[4, 2, 1, 1]) {
            0 => {
                let l = literal(g, &text);
                let m = *g.pick(&["embed_inline", "embed_schema", "embed_schemas"]);
                source.push_str(&format!("styx_embed::{m}!({l});\n"));
            }
            1 => {
                std::fs::write(format!("{dir}/{name}"), &text).unwrap();
                source.push_str(&format!("styx_embed::embed_file!({name:?});\n"));
                files += 1;
            }
            2 => {
                std::fs::write(format!("{dir}/out/{name}"), &text).unwrap();
                source.push_str(&format!("styx_embed::embed_outdir_file!({name:?});\n"));
                files += 1;
            }
            _ => {
                std::fs::write(format!("{dir}/{name}"), &text).unwrap();
                source.push_str(&format!("styx_embed::embed_files!({name:?},);\n"));
                files += 1;
            }
        }
        texts.push(text);
    }
    source.push_str("fn main() {}\n");
    g.set_input(source.clone());
    std::fs::write(format!("{dir}/main.rs"), &source).unwrap();
    let target = super::verif_dir().join("target/debug");
    let t = target.display();
    let args: Vec<String> = [format!("{dir}/main.rs").as_str(), "--edition", "2024", "-Cdebuginfo=0", "-Copt-level=0", "-Adead_code", "-Atext_direction_codepoint_in_literal", "-o", &format!("{dir}/prog")].iter().map(|s| s.to_string()).chain([format!("--extern=styx_embed={t}/libstyx_embed.rlib"), format!("-Ldependency={t}/deps")]).collect();
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let path = std::env::var("PATH").unwrap_or_default();
    let home = std::env::var("HOME").unwrap_or("/root".into());
    let out_dir = format!("{dir}/out");
    let tmp = format!("{dir}/out");
    let cargo_home = std::env::var("RUSTUP_HOME").unwrap_or_default();
    let mut env: Vec<(&str, &str)> = vec![("PATH", &path), ("HOME", &home), ("OUT_DIR", &out_dir), ("TMPDIR", &tmp)];
    if !cargo_home.is_empty() {
        env.push(("RUSTUP_HOME", &cargo_home));
    }
    let r = run(&dir, &rustc, &args, b"", &env)?;
    if r.code != Some(0) {
        if r.err.contains("styx_embed`") && r.err.contains("can't find crate") {
            panic!("the harness could not compile: {}", r.err);
        }
        bail!("does-not-compile", "{}", r.err);
    }
    let got = match extract_schemas_from_file(std::path::Path::new(&format!("{dir}/prog"))) {
        Ok(v) => v,
        Err(_) if texts.is_empty() => return Ok(()),
        Err(e) => bail!("not-found", "{e}"),
    };
    let (mut a, mut b) = (got.clone(), texts.clone());
    a.sort();
    b.sort();
    ensure!(a == b, "embedded-differs", "extracted {a:?}\n  embedded {b:?}");
    Ok(())
}
