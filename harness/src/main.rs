//! Monitors for the dynamic bonding curve program.
mod abi;
mod ext;
mod focus;
mod gen;
mod model;
mod params;
mod predict;
mod progs;
mod rng;
mod svm;
mod world;

use gen::Gen;
use rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

struct Args(BTreeMap<String, String>);
impl Args {
    fn new(v: &[String]) -> Args {
        let mut m = BTreeMap::new();
        let mut i = 0;
        while i < v.len() {
            if let Some(k) = v[i].strip_prefix("--") {
                m.insert(k.to_string(), v.get(i + 1).cloned().unwrap_or_default());
                i += 1;
            }
            i += 1;
        }
        Args(m)
    }
    fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn case_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    use sha2::{Digest, Sha256};
    let h = Sha256::digest(format!("{prop}/{seed}/{idx}").as_bytes());
    u64::from_le_bytes(h[..8].try_into().unwrap())
}

fn run_case(prop: &str, seed: u64, idx: u64) -> Gen {
    let s = case_seed(prop, seed, idx);
    let mut r = Rng::new(s);
    let f = focus::focus(prop, &mut r);
    let mut g = Gen::new(r.next(), f);
    if idx % 250 == 137 {
        g.marathon();
    }
    g.history();
    g
}

/// the program logs to fd 1: keep the original for ourselves and send the rest away
fn private_stdout() -> std::fs::File {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(keep)
    }
}

fn viol_json(prop: &str, seed: u64, idx: u64, v: &world::Viol) -> Value {
    json!({"property": prop, "seed": seed, "case": idx, "tags": v.tags, "what": v.what, "log": v.log})
}

/// runs cases first, first+step, .. and writes one line per case and the totals at the end
fn work(a: &Args) {
    let mut out = private_stdout();
    svm::install();
    let (prop, seed) = (a.s("property", "C01"), a.n("seed", 1));
    let (first, step, n) = (a.n("first", 0), a.n("step", 1), a.n("cases", 10));
    let limit = Duration::from_secs(a.n("secs", 60));
    let all = a.0.contains_key("all") || a.0.contains_key("any");
    let t0 = Instant::now();
    let mut stats = world::Stats::default();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut ops: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut cases = 0u64;
    let mut panics: Vec<String> = vec![];
    let mut idx = first;
    let mut reported: BTreeMap<String, u32> = BTreeMap::new();
    let mut sample: Vec<String> = vec![];
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut viols = 0u64;
    // the parent closes our input to end the work early
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    if a.0.contains_key("attended") {
        let stop = stop.clone();
        std::thread::spawn(move || {
            let _ = std::io::Read::read_to_end(&mut std::io::stdin(), &mut vec![]);
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
        });
    }
    while idx < n && t0.elapsed() < limit && !stop.load(std::sync::atomic::Ordering::Relaxed) {
        let _ = writeln!(out, "S {idx}");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&prop, seed, idx)));
        match r {
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or("?".into());
                panics.push(format!("case {idx}: {m} {}", svm::last_panic()));
            }
            Ok(g) => {
                cases += 1;
                let s = &g.w.stats;
                stats.txs += s.txs;
                stats.ok += s.ok;
                stats.refused += s.refused;
                stats.accounts_compared += s.accounts_compared;
                stats.events_compared += s.events_compared;
                stats.inner_calls += s.inner_calls;
                stats.invariants += s.invariants;
                stats.sdk_quotes += s.sdk_quotes;
                stats.unpredicted += s.unpredicted;
                for (k, v) in &g.w.cov {
                    *cov.entry(k.clone()).or_default() += v;
                }
                for (k, v) in &g.w.ops {
                    let e = ops.entry(k.to_string()).or_default();
                    e.0 += v.0;
                    e.1 += v.1;
                }
                shapes.extend(&g.w.shapes);
                if sample.is_empty() && first == 0 && idx >= 1 {
                    sample = g.w.log.iter().take(40).cloned().collect();
                }
                for v in &g.w.viol {
                    if !all && !v.tags.iter().any(|t| *t == prop) {
                        *cov.entry(format!("other-property:{}", v.tags.join(","))).or_default() += 1;
                        continue;
                    }
                    viols += 1;
                    let k = v.what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>();
                    let e = reported.entry(k).or_default();
                    *e += 1;
                    if *e <= a.n("dup", 3) as u32 {
                        let _ = writeln!(out, "V {}", viol_json(&prop, seed, idx, v));
                    }
                }
            }
        }
        idx += step;
    }
    let j = json!({
        "cases": cases, "panics": panics, "violations": viols, "sample": sample, "wanted": (n.saturating_sub(first) + step - 1) / step,
        "stats": {"txs": stats.txs, "ok": stats.ok, "refused": stats.refused, "accounts_compared": stats.accounts_compared,
            "events_compared": stats.events_compared, "inner_calls": stats.inner_calls, "invariants": stats.invariants,
            "sdk_quotes": stats.sdk_quotes, "unpredicted": stats.unpredicted},
        "cov": cov, "ops": ops, "shapes": shapes.into_iter().collect::<Vec<_>>(),
    });
    let _ = writeln!(out, "E {j}");
}

fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let a = Args::new(&v[1.min(v.len())..]);
    match v.first().map(|s| s.as_str()) {
        Some("work") => work(&a),
        Some("check") => std::process::exit(check(&a)),
        Some("replay") => replay(&v[1], v.get(2).map(|s| s == "-v").unwrap_or(false)),
        _ => {
            eprintln!("usage: dbc-monitor check|work|replay");
            std::process::exit(2)
        }
    }
}

fn replay(path: &str, verbose: bool) {
    let mut out = private_stdout();
    svm::install();
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let prop = j["property"].as_str().unwrap_or("C01").to_string();
    let (seed, idx) = (j["seed"].as_u64().unwrap_or(1), j["case"].as_u64().unwrap_or(0));
    let g = run_case(&prop, seed, idx);
    if verbose {
        for l in g.w.log.iter().filter(|_| std::env::var("ALL_LOG").is_ok()) {
            let _ = writeln!(out, "{l}");
        }
    }
    for v in &g.w.viol {
        for l in v.log.iter().rev().take(if verbose { 3 } else { 0 }).rev() {
            let _ = writeln!(out, "   {l}");
        }
        let _ = writeln!(out, "{:?} {}", v.tags, v.what);
    }
    let _ = writeln!(out, "{} deviations, {} transactions", g.w.viol.len(), g.w.stats.txs);
}

struct Worker {
    child: std::process::Child,
    rx: std::sync::mpsc::Receiver<String>,
    current: u64,
    since: Instant,
    end: Option<Value>,
    dead: Option<String>,
    closed: bool,
}

/// the listed finding that a violation is an instance of
fn known_id(known: &[Value], prop: &str, v: &Value) -> Option<String> {
    let what = v["what"].as_str().unwrap_or("");
    known
        .iter()
        .find(|k| {
            k["property"] == json!(prop)
                && k["contains"].as_array().map(|c| !c.is_empty() && c.iter().all(|s| what.contains(s.as_str().unwrap_or("\u{0}")))).unwrap_or(false)
        })
        .map(|k| k["id"].as_str().unwrap_or("").to_string())
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let prop = a.s("property", "C01");
    let tier = a.s("tier", "quick");
    let seed = a.n("seed", 1);
    let jobs = a.n("jobs", 8);
    let cases = a.n("cases", 400);
    let secs = a.n("secs", 60);
    let dir = a.s("out", "/verif");
    let known: Vec<Value> = std::fs::read_to_string(format!("{dir}/known-findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default();
    let exe = std::env::current_exe().expect("own path");
    let mut ws: Vec<Worker> = (0..jobs)
        .map(|i| {
            let mut c = std::process::Command::new(&exe);
            c.arg("work");
            for (k, v) in [
                ("property", prop.clone()),
                ("seed", seed.to_string()),
                ("first", i.to_string()),
                ("step", jobs.to_string()),
                ("cases", cases.to_string()),
                ("secs", secs.to_string()),
            ] {
                c.arg(format!("--{k}")).arg(v);
            }
            for k in ["all", "any"] {
                if a.0.contains_key(k) {
                    c.arg(format!("--{k}")).arg("1");
                }
            }
            let mut child = c.arg("--attended").arg("1").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("worker");
            let so = child.stdout.take().expect("pipe");
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                for l in BufReader::new(so).lines().map_while(Result::ok) {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            });
            Worker { child, rx, current: 0, since: Instant::now(), end: None, dead: None, closed: false }
        })
        .collect();
    let mut viols: Vec<Value> = vec![];
    let mut stopping = false;
    loop {
        let mut open = false;
        for w in ws.iter_mut() {
            loop {
                match w.rx.try_recv() {
                    Ok(l) => {
                        if let Some(n) = l.strip_prefix("S ") {
                            w.current = n.trim().parse().unwrap_or(0);
                            w.since = Instant::now();
                        } else if let Some(v) = l.strip_prefix("V ") {
                            if let Ok(v) = serde_json::from_str(v) {
                                stopping |= !a.0.contains_key("all") && known_id(&known, &prop, &v).is_none();
                                viols.push(v);
                            }
                        } else if let Some(v) = l.strip_prefix("E ") {
                            w.end = serde_json::from_str(v).ok();
                        }
                    }
                    Err(std::sync::mpsc::TryRecvError::Disconnected) => {
                        w.closed = true;
                        break;
                    }
                    Err(_) => break,
                }
            }
            if w.closed {
                continue;
            }
            open = true;
            if stopping {
                drop(w.child.stdin.take());
            }
            if w.since.elapsed() > Duration::from_secs(90) && w.dead.is_none() {
                w.dead = Some("no answer within 90 s".into());
                let _ = w.child.kill();
            }
        }
        if !open {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut ops: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut sample = vec![];
    let mut trouble: Vec<String> = vec![];
    let (mut done, mut wanted, mut n_viol) = (0, 0, 0);
    for w in ws.iter_mut() {
        let st = w.child.wait();
        match &w.end {
            Some(e) => {
                done += e["cases"].as_u64().unwrap_or(0);
                wanted += e["wanted"].as_u64().unwrap_or(0);
                n_viol += e["violations"].as_u64().unwrap_or(0);
                for p in e["panics"].as_array().into_iter().flatten() {
                    trouble.push(p.as_str().unwrap_or("").to_string());
                }
                for (k, v) in e["stats"].as_object().into_iter().flatten() {
                    *tot.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
                }
                for (k, v) in e["cov"].as_object().into_iter().flatten() {
                    *cov.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
                }
                for (k, v) in e["ops"].as_object().into_iter().flatten() {
                    let x = ops.entry(k.clone()).or_default();
                    x.0 += v[0].as_u64().unwrap_or(0);
                    x.1 += v[1].as_u64().unwrap_or(0);
                }
                shapes.extend(e["shapes"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
                for s in e["sample"].as_array().into_iter().flatten() {
                    sample.push(s.clone());
                }
            }
            None => {
                // the process ended in the middle of a case: a crash or a hang in the code under test
                let why = w.dead.clone().unwrap_or_else(|| match st {
                    Ok(s) => format!("ended with {s}"),
                    Err(e) => e.to_string(),
                });
                viols.push(json!({"property": prop, "seed": seed, "case": w.current, "tags": ["C32"],
                    "what": format!("the process running the program {why} in case {}", w.current), "log": []}));
                trouble.push(format!("worker {why} in case {}", w.current));
            }
        }
    }
    let harness: u64 = cov.iter().filter(|(k, _)| k.starts_with("HARNESS-PANIC")).map(|x| x.1).sum();

    // known findings
    let mut new: Vec<Value> = vec![];
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for v in &viols {
        match known_id(&known, &prop, v) {
            Some(k) => *seen.entry(k).or_default() += 1,
            None if a.0.contains_key("all") || a.0.contains_key("any") || v["tags"].as_array().map(|t| t.contains(&json!(prop))).unwrap_or(false) => new.push(v.clone()),
            None => {}
        }
    }
    for k in known.iter().filter(|k| k["property"] == json!(prop)) {
        println!("KNOWN-FINDING: property={prop} {}", k["what"].as_str().unwrap_or(""));
    }
    let mut code = 0;
    if let Some(v) = new.first() {
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        let path = format!("{dir}/replay/{prop}-{seed}-{}.json", v["case"]);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap_or_default());
        if a.0.contains_key("all") || a.0.contains_key("any") {
            for v in &new {
                println!("{} {} {}", v["case"], v["tags"], v["what"].as_str().unwrap_or("").chars().take(a.n("width", 700) as usize).collect::<String>());
            }
        } else {
            println!("{}", v["what"].as_str().unwrap_or("").chars().take(2000).collect::<String>());
        }
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    let refused: u64 = cov.iter().filter(|(k, _)| k.starts_with("refuse:")).count() as u64;
    // classes with many members are reported by their count and a few members
    let mut groups: BTreeMap<&str, Vec<(&String, &u64)>> = BTreeMap::new();
    for kv in cov.iter() {
        groups.entry(kv.0.split(':').next().unwrap_or("")).or_default().push(kv);
    }
    let mut classes = serde_json::Map::new();
    for (g, v) in groups {
        let many = v.len() > 120;
        if many {
            classes.insert(format!("{g} (distinct members)"), json!(v.len()));
            classes.insert(format!("{g} (total)"), json!(v.iter().map(|x| *x.1).sum::<u64>()));
        }
        for (k, n) in v.into_iter().take(if many { 12 } else { usize::MAX }) {
            classes.insert(k.chars().take(160).collect(), json!(n));
        }
    }
    let mut ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.get("txs").copied().unwrap_or(0),
            "distinct_nontrivial": shapes.len(),
            "rule": "one evaluation = one transaction executed on the real program and judged; distinct and non-trivial = distinct combinations of instruction, outcome (accepted, or error code and position), prediction class, configuration features (fee mode, dynamic fee, collect mode, token types, migration target, vesting, fixed supply), pool stage and hostile variation, counted over transactions that reached the program",
            "samples": sample,
            "histories": done, "histories_planned": wanted,
            "transactions_accepted": tot.get("ok"), "transactions_refused": tot.get("refused"),
            "accounts_compared_with_prediction": tot.get("accounts_compared"),
            "events_compared_with_prediction": tot.get("events_compared"),
            "inner_calls_observed": tot.get("inner_calls"),
            "state_invariants_evaluated": tot.get("invariants"),
            "sdk_quotes_compared": tot.get("sdk_quotes"),
            "transactions_without_prediction": tot.get("unpredicted"),
            "distinct_refusal_reasons": refused,
            "instructions_accepted_refused": ops,
            "classes": classes,
            "harness_trouble": trouble,
            "known_findings_seen": seen,
        },
        "assumptions": [
            "the program runs natively (not as SBF) with debug assertions and overflow checks, in a ledger simulator that implements account privileges, ownership, rent, lamport balance and call depth rules",
            "token, metadata, locker and AMM programs are stand-ins written from their interfaces, with the real SPL token state layouts",
        ],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": n_viol,
    });
    // the same histories under a sanitizer, run before
    if let Some(x) = a.0.get("sanitized").and_then(|f| std::fs::read(f).ok()).and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
        let c = &x["coverage"];
        ev["coverage"]["address_sanitizer_run"] = json!({
            "transactions": c["evaluations"], "histories": c["histories"], "distinct": c["distinct_nontrivial"],
            "accepted": c["transactions_accepted"], "refused": c["transactions_refused"], "wall_s": x["wall_s"], "violations": x["violations"],
        });
    }
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let _ = std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap_or_default());
    println!(
        "{prop}: {done}/{wanted} histories, {} transactions ({} accepted), {} distinct, {} accounts and {} events compared, {:.1} s",
        tot.get("txs").unwrap_or(&0),
        tot.get("ok").unwrap_or(&0),
        shapes.len(),
        tot.get("accounts_compared").unwrap_or(&0),
        tot.get("events_compared").unwrap_or(&0),
        t0.elapsed().as_secs_f64()
    );
    if code == 0 && (!trouble.is_empty() || harness > 0) {
        println!("harness trouble: {trouble:?} {harness}");
        for (k, v) in cov.iter().filter(|(k, _)| k.starts_with("HARNESS")) {
            println!("  {v} {k}");
        }
        // a history the harness itself could not follow is abandoned and said to be; many of them are no answer
        if harness > 0 || trouble.len() as u64 * 2000 > done as u64 {
            code = 2;
        }
    }
    if code == 0 && done == 0 {
        code = 2;
    }
    code
}
