//! Parent process: starts shards, watches them, merges what they observed, writes evidence, decides.
use crate::ctx::{clip, install_panic_hook, Ctx, SEQ};
use crate::props::{self, Prop};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub const EXIT_OK: i32 = 0;
pub const EXIT_VIOLATION: i32 = 10;
pub const EXIT_HANG: i32 = 42;
pub const EXIT_MEMORY: i32 = 43;
pub const EXIT_INCONCLUSIVE: i32 = 44;

const HANG_CPU_S: f64 = 60.0;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cpu_seconds() -> f64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(") ").next().unwrap_or("");
    let f: Vec<&str> = rest.split(' ').collect();
    if f.len() < 13 {
        return 0.0;
    }
    (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}

/// The body of a shard process.
pub fn shard(p: &Prop, shard: usize, n: usize, thorough: bool, seed: u64, dir: &Path) -> i32 {
    install_panic_hook();
    crate::alloc::set_cap(3 << 30);
    std::thread::spawn(|| {
        let mut last = (0, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let seq = SEQ.load(Relaxed);
            let cpu = cpu_seconds();
            // an odd number: a case is being executed
            if seq != last.0 || seq == 0 {
                last = (seq, cpu);
            } else if cpu - last.1 > HANG_CPU_S {
                std::process::exit(EXIT_HANG);
            }
        }
    });
    let mut ctx = Ctx::new(p.id, shard, n, seed, thorough, dir);
    // deep recursion in the code under test should not depend on the main thread's limits
    let r = (p.run)(&mut ctx);
    let mut out = String::new();
    out.push_str(&format!("evals {}\n", ctx.evals));
    for (k, v) in &ctx.events {
        out.push_str(&format!("event {} {}\n", v, k));
    }
    for s in &ctx.samples {
        out.push_str(&format!("sample {}\n", s.replace('\n', "\\n")));
    }
    let mut kb = Vec::with_capacity(ctx.keys.len() * 8);
    for k in &ctx.keys {
        kb.extend_from_slice(&k.to_le_bytes());
    }
    fs::write(dir.join("keys.bin"), kb).unwrap();
    fs::write(dir.join("result.txt"), out).unwrap();
    if dir.join("inconclusive.txt").exists() && r.is_ok() {
        return EXIT_INCONCLUSIVE;
    }
    match r {
        Ok(()) => EXIT_OK,
        Err(_) => EXIT_VIOLATION,
    }
}

fn spawn(p: &Prop, i: usize, n: usize, tier: &str, dir: &Path, journal: bool) -> Child {
    fs::create_dir_all(dir).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["shard", p.id, &i.to_string(), &n.to_string(), tier])
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(fs::File::create(dir.join("stdout")).unwrap())
        .stderr(fs::File::create(dir.join("stderr")).unwrap())
        .env_remove("CHANOMARC")
        .env_remove("RUST_LOG")
        .env_remove("VMON_JOURNAL");
    if journal {
        c.env("VMON_JOURNAL", dir.join("journal"));
    }
    c.spawn().unwrap()
}

enum Outcome {
    Ok,
    Violation(String),
    Inconclusive(String),
}

fn classify(st: ExitStatus, dir: &Path) -> Result<Outcome, String> {
    match st.code() {
        Some(EXIT_OK) => Ok(Outcome::Ok),
        Some(EXIT_VIOLATION) => Ok(Outcome::Violation(
            fs::read_to_string(dir.join("violation.txt")).unwrap_or_default(),
        )),
        Some(EXIT_INCONCLUSIVE) => Ok(Outcome::Inconclusive(
            fs::read_to_string(dir.join("inconclusive.txt")).unwrap_or_default(),
        )),
        Some(EXIT_HANG) => Err(format!("one case used more than {} s of CPU", HANG_CPU_S)),
        Some(EXIT_MEMORY) => Err("one case used more than 3 GiB of memory".into()),
        Some(c) => Ok(Outcome::Inconclusive(format!(
            "shard ended with exit code {}: {}",
            c,
            tail(&dir.join("stderr"))
        ))),
        None => match st.signal() {
            Some(9) | Some(15) | Some(2) | Some(1) => Ok(Outcome::Inconclusive(format!(
                "shard was killed from outside (signal {:?})",
                st.signal()
            ))),
            s => Err(format!("the process died by signal {:?}: {}", s, tail(&dir.join("stderr")))),
        },
    }
}

fn tail(p: &Path) -> String {
    let s = fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(1500)).collect()
}

/// The body of `vmon check`.
pub fn check(id: &str) -> i32 {
    let started = Instant::now();
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = PathBuf::from(std::env::var_os("VMON_VERIF").unwrap_or_else(|| "/verif".into()));
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    // the number of shards is part of the case selection: keep it independent of the machine
    let n = if p.shards == 0 { 8 } else { p.shards };
    let parallel = cores.clamp(1, n);
    let scratch = std::env::temp_dir().join(format!("vmon-{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).unwrap();
    let limit = Duration::from_secs(if tier == "quick" { 780 } else { 6 * 3600 });

    let mut waiting: Vec<usize> = (0..n).rev().collect();
    let mut running: Vec<(usize, Child)> = Vec::new();
    let mut done: Vec<usize> = Vec::new();
    let mut violation: Option<String> = None;
    let mut inconclusive: Vec<String> = Vec::new();
    while !(waiting.is_empty() && running.is_empty()) && violation.is_none() {
        while running.len() < parallel && !waiting.is_empty() {
            let i = waiting.pop().unwrap();
            running.push((i, spawn(p, i, n, tier, &scratch.join(format!("s{}", i)), false)));
        }
        let mut k = 0;
        while k < running.len() {
            let fin = running[k].1.try_wait().unwrap();
            if let Some(st) = fin {
                let (i, _) = running.remove(k);
                let dir = scratch.join(format!("s{}", i));
                match classify(st, &dir) {
                    Ok(Outcome::Ok) => done.push(i),
                    Ok(Outcome::Violation(v)) => violation = Some(v),
                    Ok(Outcome::Inconclusive(e)) => inconclusive.push(e),
                    Err(crash) => {
                        // run the shard again, with a journal that names the case
                        let dir = scratch.join(format!("s{}j", i));
                        let mut c = spawn(p, i, n, tier, &dir, true);
                        let st2 = c.wait().unwrap();
                        match classify(st2, &dir) {
                            Ok(Outcome::Violation(v)) => violation = Some(v),
                            Err(crash2) => {
                                let j = fs::read(dir.join("journal"))
                                    .map(|b| String::from_utf8_lossy(&b).into_owned())
                                    .unwrap_or_default();
                                violation = Some(format!(
                                    "property {}\nseed {} shard {}/{} tier {}\n\n{}\n\n{}\n",
                                    id, seed, i, n, tier, j, crash2
                                ));
                            }
                            _ => inconclusive.push(format!("{} (not repeatable)", crash)),
                        }
                    }
                }
            } else {
                k += 1;
            }
        }
        if started.elapsed() > limit {
            inconclusive.push("wall-clock budget exhausted".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (_, c) in running.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }

    // merge
    let mut evals = 0u64;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    for i in 0..n {
        let dir = scratch.join(format!("s{}", i));
        if let Ok(s) = fs::read_to_string(dir.join("result.txt")) {
            for l in s.lines() {
                if let Some(x) = l.strip_prefix("evals ") {
                    evals += x.parse::<u64>().unwrap_or(0);
                } else if let Some(x) = l.strip_prefix("event ") {
                    if let Some((n, k)) = x.split_once(' ') {
                        *events.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                    }
                } else if let Some(x) = l.strip_prefix("sample ") {
                    samples.push(x.to_string());
                }
            }
        }
        known.extend(fs::read_to_string(dir.join("known.txt")).unwrap_or_default().lines().map(|l| l.to_string()));
        if let Ok(mut f) = fs::File::open(dir.join("keys.bin")) {
            let mut b = Vec::new();
            let _ = f.read_to_end(&mut b);
            for c in b.chunks_exact(8) {
                keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    samples.sort();
    samples.dedup();
    let step = (samples.len() / 8).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).take(8).collect();
    if violation.is_none() && inconclusive.is_empty() {
        if let Some(min) = p.min_nontrivial {
            if (keys.len() as u64) < min {
                inconclusive.push(format!("only {} distinct non-trivial cases observed (at least {} expected)", keys.len(), min));
            }
        }
    }

    let evdir = verif.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    let ev_list: Vec<String> = events.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let sm: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{{}}},\n  \"samples\": [{}],\n  \"shards\": {},\n  \"shards_completed\": {},\n  \"inconclusive\": [{}],\n  \"known_findings\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(id),
        json_str(tier),
        seed,
        json_str(p.level),
        evals,
        keys.len(),
        json_str(p.rule),
        ev_list.join(", "),
        sm.join(",\n   "),
        n,
        done.len(),
        inconclusive.iter().map(|s| json_str(&clip(s, 500))).collect::<Vec<_>>().join(", "),
        known.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        assumptions.join(", "),
        started.elapsed().as_secs_f64(),
        violation.is_some() as u32
    );
    fs::write(evdir.join(format!("{}.json", id)), ev).unwrap();

    for k in &known {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    let code = if let Some(v) = violation {
        let path = evdir.join(format!("{}-violation.txt", id));
        fs::write(&path, &v).unwrap();
        println!("{}", clip(&v, 4000));
        println!("VIOLATION property={} replay={}", id, path.display());
        1
    } else if !inconclusive.is_empty() {
        for e in &inconclusive {
            println!("INCONCLUSIVE property={} {}", id, clip(e, 2000));
        }
        2
    } else {
        println!(
            "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s {}",
            id,
            evals,
            keys.len(),
            started.elapsed().as_secs_f64(),
            events.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")
        );
        0
    };
    let _ = fs::remove_dir_all(&scratch);
    let _ = std::io::stdout().flush();
    code
}
