//! Use by several threads: C23 and C29. The scenarios run in processes of their own (see race.rs and mill.rs).
use super::Prop;
use crate::ctx::{clip, Ctx, R};
use crate::race;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub static PROPS: &[Prop] = &[Prop {
    id: "C23",
    level: "exploration",
    rule: "scenarios in fresh processes: up to 4 pipelines (preset, neologdn, every kind of stage, tables, files), 2 to 32 threads started at a barrier, each normalising and tracing few or many texts on shared instances, own instances or both, with and without debug logging (also switched meanwhile), with yields, spins and sleeps injected at allocations inside the calls; every result compared with that of a process that makes the calls one after another; under ThreadSanitizer with the standard library instrumented, and in the thorough tier under Miri; non-trivial: distinct order of call starts and ends",
    assumptions: &["interleavings are those that occur under the injected disturbances; ThreadSanitizer judges accesses of the observed executions"],
    shards: 4,
    min_nontrivial: Some(60),
    run: c23,
},
Prop {
    id: "C29",
    level: "exploration",
    rule: "scenarios in fresh processes: 2 to 64 threads started at a barrier, each carrying out a program of its own (loading common files by relative and absolute names, files of its own under names that all use, discovered configurations, refused files; builders, tables, exports, published sets; making, using and dropping pipelines), sometimes with a thread for every operation, with and without debug logging, with yields, spins and sleeps injected at allocations; every result compared with that of a process that carries out the programs one after another; also under ThreadSanitizer, and in the thorough tier under Miri; non-trivial: distinct order of starts and ends of operations",
    assumptions: &["interleavings are those that occur under the injected disturbances; ThreadSanitizer judges accesses of the observed executions", "the program does not change environment variables or its working directory meanwhile"],
    shards: 4,
    min_nontrivial: Some(60),
    run: c29,
}];

/// CPU time of a process in seconds.
fn cpu(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
    if f.len() < 13 {
        return 0.0;
    }
    (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}

enum End {
    Exit(Option<i32>),
    /// no CPU used for a long time, or far too much
    Stuck(String),
}

fn run(mut c: Command, dir: &Path, limit: f64) -> Result<(End, String, String), String> {
    let mut child = c
        .stdin(Stdio::null())
        .stdout(fs::File::create(dir.join("out")).unwrap())
        .stderr(fs::File::create(dir.join("err")).unwrap())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut last = (0.0, Instant::now());
    let mut step = 2;
    let end = loop {
        if let Some(st) = child.try_wait().map_err(|e| e.to_string())? {
            break End::Exit(st.code());
        }
        let used = cpu(child.id());
        if used > last.0 {
            last = (used, Instant::now());
        }
        let idle = last.1.elapsed().as_secs();
        if idle > 60 || used > limit {
            let _ = child.kill();
            let _ = child.wait();
            break End::Stuck(if idle > 60 { "the threads wait for each other: no CPU time used for 60 s".into() } else { format!("not finished after {} s of CPU time", used) });
        }
        std::thread::sleep(Duration::from_millis(step));
        step = (step + 2).min(50);
    };
    let text = |n: &str| String::from_utf8_lossy(&fs::read(dir.join(n)).unwrap_or_default()).into_owned();
    Ok((end, text("out"), text("err")))
}

fn one(ctx: &mut Ctx, what: &str, seed: u64, profile: &str, exe: &Path, wrap: &[String]) -> R {
    let dir = ctx.path("race");
    fs::create_dir_all(&dir).unwrap();
    let want = dir.join("expected");
    let args = |how: &str| -> Vec<std::ffi::OsString> { vec![what.into(), how.into(), seed.to_string().into(), profile.into(), dir.join(how).into(), want.clone().into()] };
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args("alone"));
    let (end, out, err) = run(c, &dir, 200.0).unwrap();
    let desc = format!("scenario {} ({})", seed, profile);
    if !matches!(end, End::Exit(Some(0))) {
        return Err(ctx.violation(&format!("{}, calls one after another in one thread: {}\n{}", desc, out, clip(&err, 3000))));
    }
    let mut c = if wrap.is_empty() { Command::new(exe) } else { Command::new(&wrap[0]) };
    if !wrap.is_empty() {
        c.args(&wrap[1..]);
    }
    c.args(args("threads"));
    c.env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 history_size=4 report_thread_leaks=0 suppress_equal_stacks=1");
    let (end, out, err) = run(c, &dir, if profile == "native" { 400.0 } else { 1500.0 }).unwrap();
    let mut orders = 0;
    for l in out.lines() {
        if let Some(x) = l.strip_prefix("event ") {
            if let Some((n, k)) = x.split_once(' ') {
                ctx.event(k, n.parse().unwrap_or(0));
            }
        } else if let Some(x) = l.strip_prefix("key ") {
            ctx.key(&[x.as_bytes(), profile.as_bytes()]);
            orders += 1;
        } else if let Some(x) = l.strip_prefix("sample ") {
            ctx.sample(|| format!("{}: {}", desc, x));
        }
    }
    ctx.evals += 1;
    crate::ctx::SEQ.fetch_add(2, std::sync::atomic::Ordering::Relaxed);
    let v = out.lines().find_map(|l| l.strip_prefix("violation ")).map(|v| v.replace("\\n", "\n"));
    let e = match (end, v) {
        (_, Some(v)) => Some(v),
        (End::Stuck(s), _) => Some(s),
        (End::Exit(Some(66)), _) if profile == "tsan" => Some(format!("ThreadSanitizer:\n{}", clip(&err, 6000))),
        (End::Exit(Some(0)), _) if orders == 1 => None,
        (End::Exit(c), _) => {
            let ub = err.contains("Undefined Behavior") || err.contains("deadlock");
            if profile == "miri" && !ub {
                fs::write(ctx.dir.join("inconclusive.txt"), format!("Miri did not run: {}", clip(&err, 1500))).unwrap();
                None
            } else {
                Some(format!("the process ended with {:?}: {}", c, clip(&err, 6000)))
            }
        }
    };
    let _ = fs::remove_dir_all(&dir);
    match e {
        Some(e) => Err(ctx.violation(&format!("{}\n\n{}", desc, e))),
        None => Ok(()),
    }
}

fn c23(ctx: &mut Ctx) -> R {
    race::shareable().map_err(|e| ctx.violation(&e))?;
    scenarios(ctx, "race", [(120, 4000), (60, 1200), (0, 120)])
}

fn c29(ctx: &mut Ctx) -> R {
    scenarios(ctx, "mill", [(120, 6000), (45, 1200), (0, 80)])
}

fn scenarios(ctx: &mut Ctx, what: &str, n: [(usize, usize); 3]) -> R {
    let exe = std::env::current_exe().unwrap();
    let tsan = PathBuf::from(std::env::var_os("VMON_TSAN").expect("VMON_TSAN"));
    let seeds = |ctx: &mut Ctx, n: usize| -> Vec<u64> {
        let k = ctx.rng.below(1 << 40) as u64;
        (0..n as u64).map(|i| k + i).collect()
    };
    let k = ctx.budget(n[0].0, n[0].1);
    for s in seeds(ctx, k) {
        one(ctx, what, s, "native", &exe, &[])?;
        ctx.event("scenarios compared", 1);
    }
    let k = ctx.budget(n[1].0, n[1].1);
    for s in seeds(ctx, k) {
        one(ctx, what, s, "tsan", &tsan, &[])?;
        ctx.event("scenarios under ThreadSanitizer", 1);
    }
    if let (Some(m), true) = (std::env::var_os("VMON_MIRI"), ctx.thorough) {
        let wrap = vec![m.to_string_lossy().into_owned()];
        let k = ctx.budget(n[2].0, n[2].1);
        for s in seeds(ctx, k) {
            one(ctx, what, s, "miri", &exe, &wrap)?;
            ctx.event("scenarios under Miri", 1);
        }
    }
    Ok(())
}
