mod core;
mod cst;
mod events;
mod model;
mod props;
mod text;

use crate::core::*;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

fn limit(cpu: Option<u64>) {
    unsafe {
        setrlimit(RLIMIT_CORE, &[0, 0]);
        setrlimit(RLIMIT_AS, &[6 << 30, 6 << 30]);
        if let Some(c) = cpu {
            setrlimit(RLIMIT_CPU, &[c, c + 5]);
        }
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
}

fn case_seed(seed: u64, s: &Suite, idx: u64) -> u64 {
    let mut x = seed ^ fnv(s.prop).rotate_left(17) ^ fnv(s.name);
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut y)
}

/// Run `f` on a thread with a stack of the size the main thread of a program usually has.
fn on_big_stack(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().ok();
}

struct Worker {
    prop: String,
    seed: u64,
    thorough: bool,
    shard: u64,
    nshards: u64,
    dir: String,
}

fn worker(w: Worker) {
    limit(None);
    let suites: Vec<Suite> = props::suites(&w.prop);
    // What cases write goes to a directory of the worker's own.
    let scratch = format!("{}/w{}", w.dir, w.shard);
    std::fs::create_dir_all(&scratch).unwrap();
    let mut progress = std::fs::File::create(format!("{}/{}.progress", w.dir, w.shard)).unwrap();
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut fails: Vec<J> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let only = std::env::var("VH_SUITE").ok();
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    for (si, s) in suites.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let n = if w.thorough { s.thorough } else { s.quick };
        let n = (n as f64 * scale).ceil() as u64;
        let mut kinds: HashSet<String> = HashSet::new();
        let mut same_kind = 0u64;
        let mut nsamples = 0;
        let mut done = 0u64;
        let mut i = w.shard;
        while i < n {
            use std::os::unix::fs::FileExt;
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(si as u64).to_le_bytes());
            buf[8..].copy_from_slice(&i.to_le_bytes());
            progress.write_all_at(&buf, 0).ok();
            let mut g = G::random(case_seed(w.seed, s, i));
            g.dir = scratch.clone();
            g.idx = i;
            let r = run_case(s, &mut g);
            done += 1;
            for l in &g.labels {
                *labels.entry(format!("{}:{}", s.name, l)).or_default() += 1;
            }
            if g.nontrivial {
                hashes.insert(fnv(&g.input) ^ fnv(s.name));
                if nsamples < 1 && w.shard < 3 && !g.input.is_empty() && i >= 3 * w.nshards {
                    nsamples += 1;
                    samples.push(json!({"suite": s.name, "case": i, "input": clip(&g.input, 500)}));
                }
            }
            if let Err(f) = r {
                if kinds.contains(&f.kind) {
                    same_kind += 1;
                } else {
                    kinds.insert(f.kind.clone());
                    let (ch, f2, input) = shrink(s, g.rec.clone(), &f.kind, &scratch, s.shrink);
                    let (f2, input) = if input.is_empty() && f2.msg.starts_with("(did not") {
                        (f.clone(), g.input.clone())
                    } else {
                        (f2, input)
                    };
                    fails.push(json!({"property": s.prop, "suite": s.name, "case": i, "seed": w.seed, "kind": f.kind, "message": f2.msg, "input": input, "choices": ch,
                        "first_input": clip(&g.input, 4000)}));
                    if kinds.len() >= 12 {
                        break;
                    }
                }
                if same_kind > 3000 {
                    break;
                }
            }
            i += w.nshards;
        }
        *evals.entry(s.name.to_string()).or_default() += done;
        if same_kind > 0 {
            *labels.entry(format!("{}:further-failures", s.name)).or_default() += same_kind;
        }
    }
    progress.flush().ok();
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}/{}.hashes", w.dir, w.shard), hb).unwrap();
    std::fs::write(
        format!("{}/{}.json", w.dir, w.shard),
        serde_json::to_string(&json!({"evals": evals, "labels": labels, "samples": samples, "fails": fails})).unwrap(),
    )
    .unwrap();
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// Run one case (by index or by choices) in a child; Some(signal) if a signal ended it.
fn one(args: &[String], cpu: u64) -> (Option<i32>, Option<i32>) {
    let mut c = Command::new(exe());
    c.args(args).env("VH_CPU", cpu.to_string()).stdout(Stdio::null()).stderr(Stdio::null());
    let st = c.status().unwrap();
    (st.signal(), st.code())
}

fn known_findings() -> Vec<(String, String, String, String, String)> {
    // (property, oracle, kind, input, what)
    let path = props::verif_dir().join("known-findings.txt");
    let mut out = vec![];
    let Ok(text) = std::fs::read_to_string(path) else { return out };
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let Ok(j) = serde_json::from_str::<J>(rest) else {
            eprintln!("bad known-findings line: {line}");
            std::process::exit(71);
        };
        let f = |k: &str| j[k].as_str().unwrap_or_default().to_string();
        // "repeat": [text, n] appends n copies of text to the input.
        let mut input = f("input");
        if let Some(r) = j["repeat"].as_array() {
            input += &r[0].as_str().unwrap_or_default().repeat(r[1].as_u64().unwrap_or(0) as usize);
        }
        out.push((f("property"), f("oracle"), f("kind"), input, f("what")));
    }
    out
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let verif = props::verif_dir();
    let dir = verif.join("work").join(format!("{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let dirs = dir.to_string_lossy().to_string();
    let n = props::suites(prop).iter().map(|_| 8).max().unwrap_or(1) as u64;
    let mut code = 0;
    let mut lines: Vec<String> = vec![];
    let mut fails: Vec<J> = vec![];

    // Known findings and regression inputs, through the plain oracles.
    let known = known_findings();
    let mut known_live = 0u64;
    let mut plain = 0u64;
    let kn: Vec<_> = known.iter().filter(|k| k.0 == prop).cloned().collect();
    let ddirs = dirs.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    let kn2 = kn.clone();
    let p2 = prop.to_string();
    on_big_stack(move || {
        for k in kn2.iter() {
            if let Some(sig) = k.2.strip_prefix("aborts-with-signal-") {
                // In a child: it ends the process.
                let mut c = Command::new(exe());
                c.args(["oracle", &k.1]).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null());
                let mut kid = c.spawn().unwrap();
                let _ = kid.stdin.take().unwrap().write_all(k.3.as_bytes());
                let st = kid.wait().unwrap();
                let r = match st.signal() {
                    Some(s) if s.to_string() == sig => Err(Fail { kind: k.2.clone(), msg: String::new() }),
                    _ => Ok(()),
                };
                tx.send((true, k.clone(), Some(r))).ok();
                continue;
            }
            let r = props::oracle(&k.1).map(|o| {
                let kk = k.clone();
                no_panic("oracle", || o(&kk.3, &ddirs)).and_then(|x| x)
            });
            tx.send((true, k.clone(), r)).ok();
        }
        for (o, name, text) in props::regressions(&p2) {
            let r = props::oracle(&o).map(|f| no_panic("oracle", || f(&text, &ddirs)).and_then(|x| x));
            tx.send((false, (p2.clone(), o, name, text, String::new()), r)).ok();
        }
    });
    for (is_known, k, r) in rx {
        plain += 1;
        let Some(r) = r else {
            eprintln!("known-findings or regression names an unknown oracle: {}", k.1);
            return 71;
        };
        match (is_known, r) {
            (true, Err(f)) if f.kind == k.2 => {
                known_live += 1;
                lines.push(format!("KNOWN-FINDING: property={prop} {}", k.4));
            }
            (_, Ok(())) => {}
            (_, Err(f)) => fails.push(json!({"property": prop, "suite": format!("oracle:{}", k.1), "kind": f.kind, "message": f.msg, "input": k.3, "oracle": k.1})),
        }
    }

    // Workers.
    let mut kids = vec![];
    for shard in 0..n {
        let mut c = Command::new(exe());
        c.args(["worker", prop, &seed.to_string(), &tier, &shard.to_string(), &n.to_string(), &dirs]);
        c.stdin(Stdio::null());
        kids.push((shard, c.spawn().unwrap(), (0u64, 0u64), Instant::now(), false));
    }
    let read_progress = |shard: u64| -> (u64, u64) {
        let b = std::fs::read(format!("{dirs}/{shard}.progress")).unwrap_or_default();
        if b.len() < 16 {
            return (0, 0);
        }
        (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap()))
    };
    let suites = props::suites(prop);
    let mut stuck: Vec<(u64, (u64, u64), i32)> = vec![];
    loop {
        let mut running = false;
        for (shard, kid, last, since, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match kid.try_wait().unwrap() {
                Some(st) => {
                    *done = true;
                    if !st.success() {
                        stuck.push((*shard, read_progress(*shard), st.signal().unwrap_or(-st.code().unwrap_or(1))));
                    }
                }
                None => {
                    running = true;
                    let p = read_progress(*shard);
                    if p != *last {
                        *last = p;
                        *since = Instant::now();
                    } else if since.elapsed() > Duration::from_secs(240) {
                        kid.kill().ok();
                        kid.wait().ok();
                        *done = true;
                        stuck.push((*shard, p, 0));
                    }
                }
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let mut confirmed_crash = 0;
    for (shard, (si, idx), sig) in &stuck {
        let Some(s) = suites.get(*si as usize) else { continue };
        if confirmed_crash >= 2 {
            code = code.max(0);
            continue;
        }
        let args: Vec<String> = ["case", prop, s.name, &seed.to_string(), &idx.to_string(), &dirs].iter().map(|x| x.to_string()).collect();
        // A case takes milliseconds; 60 s of processor time, twice over, is a loop.
        let a = one(&args, 60);
        let b = if a.0.is_some() { one(&args, 90) } else { (None, None) };
        match (a.0, b.0) {
            (Some(x), Some(y)) if x == y && x != 9 => {
                confirmed_crash += 1;
                let hang = x == 24; // SIGXCPU
                let kind = if hang { "does-not-terminate".to_string() } else { format!("aborts-with-signal-{x}") };
                let mut g = G::random(case_seed(seed, s, *idx));
                g.dir = dirs.clone();
                // Draw the case's input without running the code under test.
                let input = std::fs::read_to_string(format!("{dirs}/case-input.txt")).unwrap_or_default();
                let _ = &mut g;
                fails.push(json!({"property": prop, "suite": s.name, "case": idx, "seed": seed, "kind": kind, "message": format!("the process {} on this case (shard {shard})", if hang {"uses more than 90 s of processor time"} else {"is ended by a signal"}), "input": input}));
            }
            _ => {
                eprintln!("worker {shard} of {prop} ended ({sig}) at {}/{idx}; not reproduced alone ({a:?} {b:?})", s.name);
                code = 3;
            }
        }
    }

    // Merge.
    let mut evals = 0u64;
    let mut per_suite: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    for shard in 0..n {
        if let Ok(t) = std::fs::read_to_string(format!("{dirs}/{shard}.json")) {
            let j: J = serde_json::from_str(&t).unwrap();
            for (k, v) in j["evals"].as_object().unwrap() {
                evals += v.as_u64().unwrap();
                *per_suite.entry(k.clone()).or_default() += v.as_u64().unwrap();
            }
            for (k, v) in j["labels"].as_object().unwrap() {
                *labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
            }
            samples.extend(j["samples"].as_array().unwrap().iter().cloned());
            fails.extend(j["fails"].as_array().unwrap().iter().cloned());
        }
        if let Ok(b) = std::fs::read(format!("{dirs}/{shard}.hashes")) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    // One report per (suite, kind); listed findings are not raised again.
    let mut best: BTreeMap<(String, String), J> = BTreeMap::new();
    for f in fails {
        let (s, k) = (f["suite"].as_str().unwrap().to_string(), f["kind"].as_str().unwrap().to_string());
        if kn.iter().any(|x| x.2 == k && f["input"].as_str() == Some(&x.3)) {
            continue;
        }
        let len = |j: &J| j["input"].as_str().map(|s| s.len()).unwrap_or(0);
        match best.get(&(s.clone(), k.clone())) {
            Some(o) if len(o) <= len(&f) => {}
            _ => {
                best.insert((s, k), f);
            }
        }
    }
    let rdir = verif.join("replays");
    std::fs::create_dir_all(&rdir).ok();
    let mut nviol = 0;
    for ((s, k), f) in &best {
        nviol += 1;
        let san: String = format!("{prop}-{s}-{k}").chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).collect();
        let path = rdir.join(format!("{}.json", clip(&san, 120)));
        std::fs::write(&path, serde_json::to_string_pretty(f).unwrap()).ok();
        lines.push(format!("VIOLATION property={prop} replay={}", path.display()));
        lines.push(format!("  [{s}] {k}: {}", clip(f["message"].as_str().unwrap_or(""), 1500)));
        lines.push(format!("  input: {:?}", clip(f["input"].as_str().unwrap_or(""), 1500)));
        code = 1;
    }
    let rules: Vec<String> = suites.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals + plain, "distinct_nontrivial": hashes.len(), "rule": rules.join(" | "),
            "samples": samples, "per_suite": per_suite, "classes": labels,
            "plain_inputs_replayed": plain, "known_findings_still_present": known_live,
        },
        "assumptions": props::assumptions(prop),
        "wall_s": wall, "violations": nviol,
    });
    std::fs::create_dir_all(verif.join("evidence")).ok();
    std::fs::write(verif.join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    std::fs::remove_dir_all(&dir).ok();
    for l in &lines {
        println!("{l}");
    }
    println!("{prop} {tier} seed={seed}: {evals} cases, {} distinct non-trivial, {nviol} violations, {wall:.1}s", hashes.len());
    if std::env::var("VH_LABELS").is_ok() {
        for (k, v) in &labels {
            println!("   {k} {v}");
        }
    }
    code
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let c = check(&a[2]);
            std::process::exit(c);
        }
        Some("worker") => {
            let w = Worker { prop: a[2].clone(), seed: a[3].parse().unwrap(), thorough: a[4] == "thorough", shard: a[5].parse().unwrap(), nshards: a[6].parse().unwrap(), dir: a[7].clone() };
            let (tx, rx) = std::sync::mpsc::channel();
            on_big_stack(move || {
                worker(w);
                tx.send(()).ok();
            });
            if rx.recv().is_err() {
                std::process::exit(72);
            }
        }
        Some("case") => {
            let cpu = std::env::var("VH_CPU").ok().and_then(|s| s.parse().ok());
            limit(cpu);
            let s = props::suites(&a[2]).into_iter().find(|s| s.name == a[3]).unwrap();
            let idx: u64 = a[5].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let dir = a.get(6).cloned().unwrap_or_else(|| "/tmp".into());
            on_big_stack(move || {
                let mut g = G::random(case_seed(seed, &s, idx));
                g.dir = dir;
                g.idx = idx;
                props::set_dump(format!("{}/case-input.txt", g.dir));
                let r = run_case(&s, &mut g);
                println!("{}\n{r:?}", g.input);
            });
        }
        Some("replay") => {
            let mut t = String::new();
            std::fs::File::open(&a[2]).unwrap().read_to_string(&mut t).unwrap();
            let j: J = serde_json::from_str(&t).unwrap();
            let prop = j["property"].as_str().unwrap().to_string();
            let dir = props::verif_dir().join("work").join(format!("replay-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let d = dir.to_string_lossy().to_string();
            let (tx, rx) = std::sync::mpsc::channel();
            on_big_stack(move || {
                let r = if let Some(o) = j["oracle"].as_str() {
                    let text = j["input"].as_str().unwrap();
                    no_panic("oracle", || props::oracle(o).unwrap()(text, &d)).and_then(|x| x)
                } else {
                    let s = props::suites(&prop).into_iter().find(|s| Some(s.name) == j["suite"].as_str()).unwrap();
                    let ch: Vec<u64> = j["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
                    let mut g = if ch.is_empty() { G::random(case_seed(j["seed"].as_u64().unwrap(), &s, j["case"].as_u64().unwrap())) } else { G::replay(ch) };
                    g.dir = d;
                    let r = run_case(&s, &mut g);
                    println!("--- input\n{}\n---", g.input);
                    r
                };
                tx.send(r).ok();
            });
            let r = rx.recv().unwrap();
            std::fs::remove_dir_all(&dir).ok();
            match r {
                Ok(()) => println!("holds"),
                Err(f) => {
                    println!("VIOLATION {}: {}", f.kind, f.msg);
                    std::process::exit(1);
                }
            }
        }
        Some("oracle") => {
            let mut t = String::new();
            std::io::stdin().read_to_string(&mut t).unwrap();
            let name = a[2].clone();
            on_big_stack(move || println!("{:?}", no_panic("oracle", || props::oracle(&name).unwrap()(&t, "/tmp")).and_then(|x| x)));
        }
        Some("list") => {
            for p in props::PROPS {
                for s in props::suites(p) {
                    println!("{p} {} {} {}", s.name, s.quick, s.thorough);
                }
            }
        }
        _ => {
            eprintln!("usage: vh check|replay|list");
            std::process::exit(64);
        }
    }
}
