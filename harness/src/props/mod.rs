pub mod cli;
pub mod embed;
pub mod format;
pub mod lang;
pub mod lsp;
pub mod meta;
pub mod ports;
pub mod release;
pub mod report;
pub mod schema;
pub mod schemagen;
pub mod tree;
pub mod typed;
pub mod value;
pub mod view;
pub mod web;

use crate::core::*;
use std::path::PathBuf;

pub const PROPS: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27"];

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VH_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn set_dump(p: String) {
    DUMP.set(p).ok();
}

pub fn suites(prop: &str) -> Vec<Suite> {
    let mut v = vec![];
    v.extend_from_slice(lang::SUITES);
    v.extend_from_slice(format::SUITES);
    v.extend_from_slice(value::SUITES);
    v.extend_from_slice(typed::SUITES);
    v.extend_from_slice(schema::SUITES);
    v.extend_from_slice(schemagen::SUITES);
    v.extend_from_slice(lsp::SUITES);
    v.extend_from_slice(cli::SUITES);
    v.extend_from_slice(embed::SUITES);
    v.extend_from_slice(ports::SUITES);
    v.extend_from_slice(tree::SUITES);
    v.extend_from_slice(view::SUITES);
    v.extend_from_slice(report::SUITES);
    v.extend_from_slice(release::SUITES);
    v.extend_from_slice(meta::SUITES);
    v.extend_from_slice(web::SUITES);
    v.into_iter().filter(|s| s.prop == prop).collect()
}

/// Plain checks of one given input: fn(input, scratch directory).
pub type Oracle = fn(&str, &str) -> R;
pub fn oracle(name: &str) -> Option<Oracle> {
    lang::oracle(name).or_else(|| format::oracle(name)).or_else(|| value::oracle(name)).or_else(|| typed::oracle(name)).or_else(|| schema::oracle(name)).or_else(|| lsp::oracle(name)).or_else(|| cli::oracle(name)).or_else(|| embed::oracle(name)).or_else(|| ports::oracle(name)).or_else(|| tree::oracle(name))
}

/// (oracle, file name, text) of committed regression inputs.
pub fn regressions(prop: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let d = verif_dir().join("regress").join(prop);
    let Ok(rd) = std::fs::read_dir(d) else { return out };
    let mut names: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        // name: <oracle>--<anything>
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        let o = n.split("--").next().unwrap().to_string();
        if let Ok(t) = std::fs::read_to_string(&p) {
            out.push((o, n, t));
        }
    }
    out
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let _ = prop;
    vec![]
}
