//! Batch driver: fixed run counts over several worker processes, hang and abort detection, minimisation of a
//! failing choice list in fresh processes, replay files and the evidence record.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::ctx::{describe_panic, guarded_any, mix, Ctx, Rng, Source, Viol};
use crate::props::{self, Prop};

const ATTEMPT_TIMEOUT: Duration = Duration::from_secs(40);
const STALL: Duration = Duration::from_secs(40);

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| {
        let mut p = PathBuf::from(env!("CARGO_MANIFEST_DIR"));
        p.pop();
        p
    })
}

pub struct RunOut {
    pub viol: Option<String>,
    pub rec: Vec<u32>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sched_hash: u64,
    pub full_hash: u64,
    pub digest: u64,
    pub time: u64,
    pub switches: u64,
    pub yields: u64,
    pub objects: u64,
    pub trace: Vec<String>,
}

/// Execute one simulated run.
pub fn one(p: &Prop, src: Source, tracing: bool, depth: u32) -> RunOut {
    crate::alloc::disarm();
    let c = Ctx::new(src, tracing, depth);
    let r = guarded_any(|| (p.run)(&c));
    crate::alloc::disarm();
    let mut viol = match r {
        Ok(Ok(())) => None,
        Ok(Err(Viol(m))) => Some(m),
        Err(e) => Some(describe_panic("scenario", &*e)),
    };
    let mut g = c.lock();
    if let Some(f) = g.fail.take() {
        viol = Some(f);
    }
    RunOut {
        viol,
        rec: std::mem::take(&mut g.rec),
        faults: std::mem::take(&mut g.faults),
        probes: std::mem::take(&mut g.probes),
        sched_hash: g.sched_hash,
        full_hash: g.full_hash,
        digest: g.digest,
        time: g.time,
        switches: g.switches,
        yields: g.yields,
        objects: g.objects,
        trace: std::mem::take(&mut g.trace),
    }
}

fn run_seed(p: &Prop, seed: u64, idx: u64) -> u64 {
    let h = p.id.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    mix(mix(seed, h), idx)
}

/// Message class kept stable while minimising: the words without numbers and quoted data.
fn class(m: &str) -> String {
    let m = if let Some(i) = m.find(": ") { &m[..(i + 26).min(m.len())] } else { m };
    let mut s: String = m.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(40).collect();
    s.truncate(28);
    s
}

const DIVERGED: &str = "the same calls did not give the same bytes twice";

fn one_line(m: &str) -> String {
    m.replace('\n', "\\n").replace('\r', "\\r")
}

// ---------------------------------------------------------------------------------------------
// Worker process.

pub fn worker(id: &str, seed: u64, start: u64, stride: u64, count: u64, cap_ms: u64, depth: u32, progress: &str, slot: u64) -> i32 {
    let Some(p) = props::find(id) else { return 2 };
    let known = Known::load(id);
    let file = fs::OpenOptions::new().write(true).open(progress).expect("progress file");
    let t0 = Instant::now();
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut fault_runs = 0u64;
    let mut probes: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut time, mut switches, mut yields, mut objects, mut draws, mut runs, mut replays, mut diverged) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut history = 0u64;
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut i = start;
    while i < count {
        if t0.elapsed().as_millis() as u64 > cap_ms {
            break;
        }
        file.write_all_at(&(i + 1).to_le_bytes(), slot * 8).expect("progress");
        let r = one(p, Source::Random(Rng::new(run_seed(p, seed, i))), false, depth);
        runs += 1;
        if !r.faults.is_empty() {
            fault_runs += 1;
        }
        for (k, v) in &r.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &r.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        time += r.time;
        switches += r.switches;
        yields += r.yields;
        objects += r.objects;
        draws += r.rec.len() as u64;
        writeln!(out, "h {:x} {:x}", r.sched_hash, r.full_hash).ok();
        // Independent of the order of runs, so of how they are dealt to workers.
        history += (r.full_hash ^ r.sched_hash.rotate_left(17) ^ r.digest.rotate_left(31)) & 0xffff_ffff;
        if let Some(m) = &r.viol {
            if let Some(k) = known.matching(m) {
                writeln!(out, "known {k}").ok();
            } else {
                writeln!(out, "viol {i}\t{}", one_line(m)).ok();
                out.flush().ok();
                break;
            }
        }
        // The same choices must give the same history and the same bytes.
        if runs % 64 == 1 {
            let again = one(p, Source::Replay(r.rec.clone(), 0), false, depth);
            replays += 1;
            if again.full_hash != r.full_hash || again.sched_hash != r.sched_hash || again.digest != r.digest || again.viol.is_some() != r.viol.is_some() {
                diverged += 1;
                writeln!(out, "diverged {i}").ok();
            }
        }
        i += stride;
    }
    for (k, v) in faults {
        writeln!(out, "fault {k} {v}").ok();
    }
    for (k, v) in probes {
        writeln!(out, "probe {k} {v}").ok();
    }
    writeln!(out, "sum runs {runs}\nsum fault_runs {fault_runs}\nsum time {time}\nsum switches {switches}\nsum yields {yields}\nsum objects {objects}\nsum draws {draws}\nsum replays {replays}\nsum diverged {diverged}\nsum histories_checksum {history}").ok();
    out.flush().ok();
    file.write_all_at(&u64::MAX.to_le_bytes(), slot * 8).ok();
    0
}

// ---------------------------------------------------------------------------------------------
// One attempt in this (fresh) process: prints the outcome.

#[derive(Clone, Debug)]
pub enum What {
    /// The runs listed, one after the other, with their own seeds.
    Runs { seed: u64, runs: Vec<u64> },
    Choices(Vec<u32>),
}

pub fn attempt(id: &str, what: &What, depth: u32, tracing: bool) -> (Option<String>, RunOut) {
    let p = props::find(id).expect("property");
    match what {
        What::Choices(xs) => {
            let r = one(p, Source::Replay(xs.clone(), 0), tracing, depth);
            (r.viol.clone(), r)
        }
        What::Runs { seed, runs } => {
            let mut last = None;
            let mut seen: BTreeMap<u64, (u64, u64, u64)> = BTreeMap::new();
            for (k, &i) in runs.iter().enumerate() {
                let r = one(p, Source::Random(Rng::new(run_seed(p, *seed, i))), tracing && k + 1 == runs.len(), depth);
                let mut v = r.viol.clone();
                // A run listed twice must do the same twice.
                let sum = (r.full_hash, r.sched_hash, r.digest);
                if *seen.entry(i).or_insert(sum) != sum && v.is_none() && p.divergence_is_violation {
                    v = Some(DIVERGED.into());
                }
                last = Some((v, r));
                if last.as_ref().unwrap().0.is_some() {
                    break;
                }
            }
            last.expect("no runs")
        }
    }
}

/// Child entry: reads the description on stdin, prints the outcome on stdout.
pub fn attempt_child(id: &str, depth: u32) -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let what = parse_what(&s).expect("attempt description");
    let (v, r) = attempt(id, &what, depth, s.starts_with("T"));
    let mut out = std::io::stdout();
    let mut t = String::new();
    match v {
        None => t.push_str("OK\n"),
        Some(m) => t.push_str(&format!("VIOL {}\n", one_line(&m))),
    }
    t.push_str("REC");
    for x in &r.rec {
        t.push_str(&format!(" {x}"));
    }
    t.push('\n');
    for (k, v) in &r.faults {
        t.push_str(&format!("FAULT {k} {v}\n"));
    }
    for l in &r.trace {
        t.push_str(&format!("TRACE {}\n", one_line(l)));
    }
    out.write_all(t.as_bytes()).ok();
    out.flush().ok();
    0
}

fn show_what(w: &What, tracing: bool) -> String {
    let pre = if tracing { "T" } else { "N" };
    match w {
        What::Choices(xs) => format!("{pre} choices {}", xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
        What::Runs { seed, runs } => format!("{pre} runs {seed} {}", runs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
    }
}

fn parse_what(s: &str) -> Option<What> {
    let mut it = s.split_whitespace().skip(1);
    match it.next()? {
        "choices" => Some(What::Choices(it.map(|x| x.parse().ok()).collect::<Option<_>>()?)),
        "runs" => {
            let seed = it.next()?.parse().ok()?;
            Some(What::Runs { seed, runs: it.map(|x| x.parse().ok()).collect::<Option<_>>()? })
        }
        _ => None,
    }
}

struct Tried {
    viol: Option<String>,
    rec: Vec<u32>,
    trace: Vec<String>,
    faults: Vec<String>,
}

fn try_child(id: &str, what: &What, depth: u32, tracing: bool, timeout: Duration) -> Tried {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(["attempt", id, &depth.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn attempt");
    let mut stdin = ch.stdin.take().unwrap();
    let desc = show_what(what, tracing);
    let feeder = std::thread::spawn(move || {
        stdin.write_all(desc.as_bytes()).ok();
    });
    let mut stdout = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut v = Vec::new();
        stdout.read_to_end(&mut v).ok();
        v
    });
    let t0 = Instant::now();
    let mut hung = false;
    let status = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if t0.elapsed() > timeout => {
                hung = true;
                ch.kill().ok();
                ch.wait().ok();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    feeder.join().ok();
    let text = String::from_utf8_lossy(&reader.join().unwrap_or_default()).into_owned();
    let mut out = Tried { viol: None, rec: vec![], trace: vec![], faults: vec![] };
    if hung {
        out.viol = Some(format!("no progress: the run did not end within {} s", timeout.as_secs()));
        return out;
    }
    if !status.map(|s| s.success()).unwrap_or(false) {
        out.viol = Some(format!("process died ({})", status.map(|s| s.to_string()).unwrap_or_default()));
        return out;
    }
    for l in text.lines() {
        if let Some(m) = l.strip_prefix("VIOL ") {
            out.viol = Some(m.to_string());
        } else if let Some(r) = l.strip_prefix("REC") {
            out.rec = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        } else if let Some(t) = l.strip_prefix("TRACE ") {
            out.trace.push(t.to_string());
        } else if let Some(t) = l.strip_prefix("FAULT ") {
            out.faults.push(t.to_string());
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Minimisation.

fn minimise(id: &str, depth: u32, first: Vec<u32>, msg: &str, budget: Duration) -> (Vec<u32>, String, u64) {
    let cls = class(msg);
    let t0 = Instant::now();
    let mut best = first;
    let mut best_msg = msg.to_string();
    let mut tries = 0u64;
    let timeout = if msg.starts_with("no progress") { Duration::from_secs(3) } else { Duration::from_secs(10) };
    // A candidate is accepted when it fails in the same way and its canonical recording is no larger.
    let mut accept = |cand: &[u32], best: &mut Vec<u32>, best_msg: &mut String| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        tries += 1;
        let r = try_child(id, &What::Choices(cand.to_vec()), depth, false, timeout);
        let Some(m) = r.viol else { return false };
        if class(&m) != cls {
            return false;
        }
        let mut rec = if r.rec.is_empty() { cand.to_vec() } else { r.rec };
        while rec.last() == Some(&0) {
            rec.pop();
        }
        let key = |v: &[u32]| (v.len(), v.iter().map(|&x| x as u64).sum::<u64>());
        if key(&rec) < key(best) {
            *best = rec;
            *best_msg = m;
            return true;
        }
        false
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut at = 0;
            while at < best.len() && t0.elapsed() < budget {
                let end = (at + size).min(best.len());
                let mut cand = best[..at].to_vec();
                cand.extend_from_slice(&best[end..]);
                if !accept(&cand, &mut best, &mut best_msg) {
                    at += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        let mut size = (best.len() / 4).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut at = 0;
            while at < best.len() && t0.elapsed() < budget {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    cand[at..end].iter_mut().for_each(|x| *x = 0);
                    accept(&cand, &mut best, &mut best_msg);
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single values.
        let mut at = 0;
        while at < best.len() && t0.elapsed() < budget {
            let (mut lo, v) = (0u32, best[at]);
            let mut hi = v;
            while lo + 1 < hi && t0.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                if at >= cand.len() {
                    break;
                }
                cand[at] = mid;
                if accept(&cand, &mut best, &mut best_msg) {
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
            at += 1;
        }
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    (best, best_msg, tries)
}

// ---------------------------------------------------------------------------------------------
// Known findings.

pub struct Known(Vec<(String, String)>);

impl Known {
    fn load(id: &str) -> Known {
        let mut v = Vec::new();
        if let Ok(s) = fs::read_to_string(verif_dir().join("KNOWN_FINDINGS")) {
            for l in s.lines() {
                // finding: property=<id> match=<text> :: <what fails>
                if let Some(r) = l.strip_prefix(&format!("finding: property={id} match=")) {
                    if let Some((m, d)) = r.split_once(" :: ") {
                        v.push((m.to_string(), d.to_string()));
                    }
                }
            }
        }
        Known(v)
    }
    fn matching(&self, m: &str) -> Option<usize> {
        self.0.iter().position(|(k, _)| m.contains(k.as_str()))
    }
}

// ---------------------------------------------------------------------------------------------
// JSON writing.

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn js_map<K: AsRef<str>>(m: &BTreeMap<K, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k.as_ref()))).collect::<Vec<_>>().join(", "))
}

fn js_list<S: AsRef<str>>(v: &[S]) -> String {
    format!("[{}]", v.iter().map(|s| js(s.as_ref())).collect::<Vec<_>>().join(", "))
}

// ---------------------------------------------------------------------------------------------

struct Batch {
    viols: Vec<(u64, String)>,
    sums: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sched: HashSet<u64>,
    full: HashSet<u64>,
    known: BTreeMap<usize, u64>,
    diverged: Vec<u64>,
    harness_errors: Vec<String>,
}

pub fn workers() -> u64 {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8))
}

fn batch(p: &Prop, seed: u64, count: u64, cap: Duration, depth: u32, n: u64) -> Batch {
    let exe = std::env::current_exe().unwrap();
    let prog = std::env::temp_dir().join(format!("sim-progress-{}", std::process::id()));
    fs::write(&prog, vec![0u8; (n * 8) as usize]).expect("progress file");
    let mut kids: Vec<(Child, std::thread::JoinHandle<Vec<String>>)> = Vec::new();
    for k in 0..n {
        let mut ch = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), &k.to_string(), &n.to_string(), &count.to_string(), &cap.as_millis().to_string(), &depth.to_string()])
            .arg(&prog)
            .arg(k.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let so = ch.stdout.take().unwrap();
        let h = std::thread::spawn(move || BufReader::new(so).lines().map_while(Result::ok).collect::<Vec<_>>());
        kids.push((ch, h));
    }
    let file = fs::File::open(&prog).expect("progress file");
    let mut last = vec![(0u64, Instant::now()); n as usize];
    let mut done: Vec<Option<bool>> = vec![None; n as usize];
    let mut suspects: Vec<(u64, String)> = Vec::new();
    let mut errors = Vec::new();
    let read_slot = |k: usize| {
        let mut b = [0u8; 8];
        file.read_exact_at(&mut b, k as u64 * 8).ok();
        u64::from_le_bytes(b)
    };
    while done.iter().any(|d| d.is_none()) {
        std::thread::sleep(Duration::from_millis(20));
        for k in 0..n as usize {
            if done[k].is_some() {
                continue;
            }
            let cur = read_slot(k);
            if cur != last[k].0 {
                last[k] = (cur, Instant::now());
            }
            match kids[k].0.try_wait().expect("wait") {
                Some(s) if s.success() => done[k] = Some(true),
                Some(s) => {
                    done[k] = Some(false);
                    let cur = read_slot(k);
                    if cur == 0 || cur == u64::MAX {
                        errors.push(format!("worker {k} died outside a run: {s}"));
                    } else {
                        suspects.push((cur - 1, format!("process died ({s})")));
                    }
                }
                None if last[k].1.elapsed() > STALL => {
                    kids[k].0.kill().ok();
                    kids[k].0.wait().ok();
                    done[k] = Some(false);
                    suspects.push((cur.saturating_sub(1), "no progress".into()));
                }
                None => {}
            }
        }
        if !suspects.is_empty() {
            for k in 0..n as usize {
                if done[k].is_none() {
                    kids[k].0.kill().ok();
                    kids[k].0.wait().ok();
                    done[k] = Some(false);
                }
            }
        }
    }
    let mut b = Batch {
        viols: suspects,
        sums: BTreeMap::new(),
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        sched: HashSet::new(),
        full: HashSet::new(),
        known: BTreeMap::new(),
        diverged: vec![],
        harness_errors: errors,
    };
    for (_, h) in kids {
        for l in h.join().unwrap_or_default() {
            let w: Vec<&str> = l.splitn(3, ' ').collect();
            match w.as_slice() {
                ["h", a, f] => {
                    b.sched.insert(u64::from_str_radix(a, 16).unwrap_or(0));
                    b.full.insert(u64::from_str_radix(f, 16).unwrap_or(0));
                }
                ["fault", k, v] => *b.faults.entry(k.to_string()).or_insert(0) += v.parse().unwrap_or(0),
                ["probe", k, v] => *b.probes.entry(k.to_string()).or_insert(0) += v.parse().unwrap_or(0),
                ["sum", k, v] => *b.sums.entry(k.to_string()).or_insert(0) += v.parse().unwrap_or(0),
                ["known", k] => *b.known.entry(k.parse().unwrap_or(0)).or_insert(0) += 1,
                ["diverged", k] => b.diverged.push(k.parse().unwrap_or(0)),
                ["viol", ..] => {
                    if let Some((i, m)) = l[5..].split_once('\t') {
                        b.viols.push((i.parse().unwrap_or(0), m.to_string()));
                    }
                }
                _ => {}
            }
        }
    }
    fs::remove_file(&prog).ok();
    b.viols.sort();
    b
}

pub fn check(id: &str) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let depth = if thorough { 3 } else { 1 };
    let mut count = if thorough { p.quick * p.thorough_factor } else { p.quick };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        count = n;
    }
    let cap = Duration::from_secs(if thorough { 780 } else { 150 });
    let n = workers();
    println!("sim: property={id} tier={tier} VERIF_SEED={seed} runs={count} workers={n}");
    let b = batch(p, seed, count, cap, depth, n);
    let t_batch = t0.elapsed();
    let dir = verif_dir();
    let known = Known::load(id);
    let get = |k: &str| b.sums.get(k).copied().unwrap_or(0);

    let mut verdicts: Vec<String> = Vec::new();
    let mut errors = b.harness_errors.clone();
    let mut replay_lines = Vec::new();
    let mut viols = b.viols.clone();
    if viols.is_empty() && p.divergence_is_violation && !b.diverged.is_empty() {
        viols.push((b.diverged[0], DIVERGED.into()));
    }
    if let Some((idx, msg)) = viols.first().cloned() {
        let (path, final_msg, ok) = report(p, seed, depth, idx, &msg, n, &dir, thorough);
        if ok {
            println!("violation in run {idx}: {final_msg}");
            println!("VIOLATION property={id} replay={path}");
            replay_lines.push(path);
            verdicts.push(final_msg);
        } else {
            errors.push(format!("run {idx} reported '{msg}' but it does not reproduce"));
        }
    }
    for (k, cnt) in &b.known {
        println!("KNOWN-FINDING: property={id} {} ({cnt} runs)", known.0[*k].1);
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = get("runs");
    let per_hour = if t_batch.as_secs_f64() > 0.0 { (runs as f64 / t_batch.as_secs_f64() * 3600.0) as u64 } else { 0 };
    // Samples: a few traces of runs from this batch.
    let mut samples = Vec::new();
    for i in [0u64, 1, count / 2] {
        if i >= count || !verdicts.is_empty() {
            continue;
        }
        let (_, r) = attempt(id, &What::Runs { seed, runs: vec![i] }, depth, true);
        let tr: Vec<String> = r.trace.iter().take(14).map(|l| l.chars().take(260).collect()).collect();
        samples.push(format!(
            "{{\"run\": {i}, \"seed\": {}, \"draws\": {}, \"virtual_time\": {}, \"trace_head\": {}}}",
            run_seed(p, seed, i),
            r.rec.len(),
            r.time,
            js_list(&tr)
        ));
    }
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {runs},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"simulated_runs_per_hour\": {per_hour},\n    \"seeds_per_hour\": {per_hour},\n    \"simulated_time_ticks\": {},\n    \"scheduling_points\": {},\n    \"context_switches\": {},\n    \"objects_or_builders_exercised\": {},\n    \"random_choices\": {},\n    \"runs_with_at_least_one_fault\": {},\n    \"faults_injected\": {},\n    \"rare_condition_probes\": {},\n    \"distinct_schedule_and_fault_histories\": {},\n    \"distinct_full_histories\": {},\n    \"distinctness_measure\": {},\n    \"in_batch_replays_checked\": {},\n    \"in_batch_replays_diverged\": {},\n    \"worker_processes\": {n},\n    \"real_components\": {},\n    \"stub_components\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {wall:.2},\n  \"violations\": {},\n  \"replays\": {},\n  \"harness_errors\": {}\n}}\n",
        js(id),
        js(&tier),
        b.full.len(),
        js(p.rule),
        samples.join(", "),
        get("time"),
        get("yields"),
        get("switches"),
        get("objects"),
        get("draws"),
        get("fault_runs"),
        js_map(&b.faults),
        js_map(&b.probes),
        b.sched.len(),
        b.full.len(),
        js("a 64-bit hash folded over every drawn choice and its bound (full history), and over every actor hand-over and fired fault with its position in the choice stream (schedule and fault history)"),
        get("replays"),
        get("diverged"),
        js_list(&[p.real, "every pdf-writer module reached through its public API, built from /repo's working tree with overflow and debug assertions on"]),
        js_list(&[
            "producers, coordinator and supervisor (simulated callers)",
            "chunk transport (simulated: delay, reordering, loss, duplication)",
            "caller callbacks (iterators, renumbering closure, xref filter closure)",
            "allocator failure decision (real allocator behind it)",
            "codecs other than ASCIIHex and RunLength in the xref filter closure",
        ]),
        js_list(p.assumptions),
        verdicts.len(),
        js_list(&replay_lines),
        js_list(&errors),
    );
    let evd = dir.join("evidence");
    fs::create_dir_all(&evd).ok();
    if let Err(e) = fs::write(evd.join(format!("{id}.json")), ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!("sim: {runs} runs in {:.1} s ({per_hour} per hour), {} distinct histories, faults {:?}", t_batch.as_secs_f64(), b.full.len(), b.faults);
    if std::env::var("SIM_PROBES").is_ok() {
        println!("sim: probes {:?}", b.probes);
        println!("sim: sums {:?}", b.sums);
    }
    if !verdicts.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        eprintln!("harness errors: {errors:?}");
        return 3;
    }
    if !b.diverged.is_empty() {
        println!("sim: note: {} in-batch replays diverged", b.diverged.len());
    }
    0
}

fn report(p: &Prop, seed: u64, depth: u32, idx: u64, msg: &str, n: u64, dir: &PathBuf, thorough: bool) -> (String, String, bool) {
    let rd = dir.join("replays");
    fs::create_dir_all(&rd).ok();
    let path = rd.join(format!("{}-{}-{}.json", p.id, seed, idx));
    let single = What::Runs { seed, runs: vec![idx] };
    let r = try_child(p.id, &single, depth, false, ATTEMPT_TIMEOUT);
    let budget = std::env::var("SIM_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 120 } else { 25 });
    let budget = Duration::from_secs(budget);
    let (what, m, tries) = match r.viol {
        Some(m) if !r.rec.is_empty() => {
            let (c, m, t) = minimise(p.id, depth, r.rec, &m, budget);
            (What::Choices(c), m, t)
        }
        // The process died: the choices are regenerated from the seed.
        Some(m) => (single, m, 0),
        None if msg == DIVERGED => {
            let mut runs: Vec<u64> = (idx % n..=idx).step_by(n as usize).collect();
            runs.push(idx);
            let mut found = None;
            for w in [vec![idx, idx], runs] {
                let w = What::Runs { seed, runs: w };
                if let Some(m) = try_child(p.id, &w, depth, false, Duration::from_secs(200)).viol {
                    found = Some((w, m, 0));
                    break;
                }
            }
            match found {
                Some(f) => f,
                None => return (String::new(), String::new(), false),
            }
        }
        None => {
            // State left behind by earlier runs: replay the whole prefix this worker had executed.
            let runs: Vec<u64> = (idx % n..=idx).step_by(n as usize).collect();
            let w = What::Runs { seed, runs };
            let r = try_child(p.id, &w, depth, false, Duration::from_secs(200));
            match r.viol {
                Some(m) => (w, m, 0),
                None => return (String::new(), String::new(), false),
            }
        }
    };
    let t = try_child(p.id, &what, depth, true, Duration::from_secs(200));
    let confirmed = t.viol.as_deref() == Some(m.as_str()) || t.viol.as_deref().map(class) == Some(class(&m));
    let (kind, data) = match &what {
        What::Choices(c) => ("choices", format!("[{}]", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))),
        What::Runs { runs, .. } => ("runs", format!("[{}]", runs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))),
    };
    let text = format!(
        "{{\n  \"property\": {},\n  \"seed\": {seed},\n  \"run\": {idx},\n  \"depth\": {depth},\n  \"kind\": \"{kind}\",\n  \"{kind}\": {data},\n  \"violation\": {},\n  \"first_seen_as\": {},\n  \"confirmed_in_fresh_process\": {confirmed},\n  \"minimiser_attempts\": {tries},\n  \"faults\": {},\n  \"trace\": {},\n  \"replay_with\": {}\n}}\n",
        js(p.id),
        js(&m),
        js(msg),
        js_list(&t.faults),
        js_list(&t.trace),
        js(&format!("/verif/check.sh replay {}", path.display())),
    );
    fs::write(&path, text).ok();
    (path.display().to_string(), m, true)
}

fn json_field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\"{key}\": ");
    let i = s.find(&k)? + k.len();
    let rest = &s[i..];
    let end = rest.find('\n').unwrap_or(rest.len());
    Some(rest[..end].trim_end_matches(','))
}

/// Re-execute a replay file.
pub fn replay(path: &str) -> i32 {
    let Ok(s) = fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let f = |k: &str| json_field(&s, k).map(|x| x.trim_matches('"').to_string());
    let (Some(id), Some(kind), Some(seed), Some(depth)) = (f("property"), f("kind"), f("seed"), f("depth")) else {
        eprintln!("not a replay file");
        return 2;
    };
    let list = json_field(&s, &kind).unwrap_or("[]").trim_matches(|c| c == '[' || c == ']').to_string();
    let what = if kind == "choices" {
        What::Choices(list.split(',').filter_map(|x| x.trim().parse().ok()).collect())
    } else {
        What::Runs { seed: seed.parse().unwrap_or(1), runs: list.split(',').filter_map(|x| x.trim().parse().ok()).collect() }
    };
    let r = try_child(&id, &what, depth.parse().unwrap_or(1), true, Duration::from_secs(300));
    for l in &r.trace {
        println!("{l}");
    }
    match r.viol {
        Some(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("the replay holds");
            0
        }
    }
}
