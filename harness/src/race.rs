//! Many threads on shared pipelines: the body of the processes that C23 starts.
//! `alone` computes, one call after another, what every call of a scenario returns;
//! `threads` makes the same calls from many threads at once and compares.
use crate::cfg::{self, Op, Pipe, Stage};
use crate::ctx::{clip, show, Ctx};
use crate::gen;
use crate::rng::{fnv, Rng};
use crate::{alloc, ctx};
use chanoma::Chanoma;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};

/// Lets the scenarios compile even if the library's types lose Send or Sync; that is reported separately.
pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

trait Lacking {
    fn has_sync(&self) -> bool {
        false
    }
    fn has_send(&self) -> bool {
        false
    }
}
struct ProbeSync<T>(PhantomData<T>);
impl<T> Lacking for ProbeSync<T> {}
impl<T: Sync> ProbeSync<T> {
    fn has_sync(&self) -> bool {
        true
    }
}
struct ProbeSend<T>(PhantomData<T>);
impl<T> Lacking for ProbeSend<T> {}
impl<T: Send> ProbeSend<T> {
    fn has_send(&self) -> bool {
        true
    }
}

/// Can a safe program share it at all?
pub fn shareable() -> Result<(), String> {
    if !ProbeSync::<Chanoma>(PhantomData).has_sync() {
        return Err("Chanoma is not Sync: a program without unsafe code cannot share it between threads".into());
    }
    if !ProbeSend::<Chanoma>(PhantomData).has_send() {
        return Err("Chanoma is not Send: a program without unsafe code cannot give it to another thread".into());
    }
    Ok(())
}

pub struct Logger;
pub static LOGGED: AtomicU64 = AtomicU64::new(0);
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // the message of a preset stage holds the whole table: only some are formatted
        if LOGGED.fetch_add(1, Relaxed) % 16 == 0 {
            let _ = format!("{}", r.args()).len();
        }
        std::thread::yield_now();
    }
    fn flush(&self) {}
}
pub static LOGGER: Logger = Logger;

#[derive(Clone, Copy, PartialEq)]
pub enum Profile {
    Native,
    Tsan,
    Miri,
}

struct Scenario {
    pipes: Vec<Pipe>,
    texts: Vec<Vec<String>>,
    threads: usize,
    calls: usize,
    /// 0: pipelines made before the threads start; 1: every thread makes its own at the same time; 2: both
    build: usize,
    /// 0 off, 1 debug, 2 switched while the threads run
    level: usize,
    perturb: u32,
    rng: Rng,
}

fn small_pipe(r: &mut Rng) -> Pipe {
    let mut ops = Vec::new();
    if r.chance(2, 3) {
        let stages = vec![Stage::Reduce('ー'), Stage::Space, Stage::Lig(vec![("か゛".into(), "が".into()), ("ab".into(), "x".into())]), Stage::Elim(vec!['~', '～']), Stage::Trim];
        let n = r.range(1, stages.len());
        ops.push(Op::Yaml(cfg::FileCfg { stages: stages[..n].to_vec(), items: vec![('Ａ', 'A'), ('ｱ', 'ア')] }));
    }
    if ops.is_empty() || r.chance(1, 2) {
        ops.push(Op::Table(vec![('１', '1'), ('b', 'c'), ('あ', 'い')]));
    }
    Pipe { ops, direct: r.chance(1, 2) }
}

fn scenario(seed: u64, profile: Profile) -> Scenario {
    let mut r = Rng::new(fnv(&[b"race", &seed.to_le_bytes()]));
    let np = match profile {
        Profile::Miri => 1,
        _ => r.range(1, 4),
    };
    let mut pipes = Vec::new();
    for i in 0..np {
        pipes.push(if profile == Profile::Miri {
            small_pipe(&mut r)
        } else {
            match (seed as usize + i) % 6 {
                0 => Pipe { ops: vec![Op::Preset], direct: r.chance(1, 2) },
                1 => Pipe { ops: vec![Op::Neologdn], direct: r.chance(1, 2) },
                // every kind of stage
                2 => {
                    let mut kinds: Vec<usize> = (0..6).collect();
                    r.shuffle(&mut kinds);
                    let stages = kinds.iter().map(|k| cfg::stage(&mut r, *k)).collect();
                    Pipe { ops: vec![Op::Yaml(cfg::FileCfg { stages, items: cfg::pairs(&mut r, 40) })], direct: true }
                }
                // one stage, so that nothing else separates the calls
                3 => {
                    let k = r.below(7);
                    let s = cfg::stage(&mut r, k);
                    Pipe { ops: vec![Op::Yaml(cfg::FileCfg { stages: vec![s], items: vec![] })], direct: true }
                }
                _ => cfg::pipe(&mut r),
            }
        });
    }
    let nt = match profile {
        Profile::Miri => 4,
        Profile::Tsan => r.range(2, 14),
        Profile::Native => r.range(2, 40),
    };
    // sometimes few texts, used again and again; sometimes large ones
    let large = r.chance(1, 4);
    let mut texts = Vec::new();
    for p in &pipes {
        let focus = p.focus();
        let mut v: Vec<String> = Vec::new();
        let mut prev = String::new();
        for _ in 0..nt {
            let t = if profile == Profile::Miri {
                (0..r.below(7)).map(|_| gen::mixed(&mut r, &focus)).collect()
            } else if large && r.chance(1, 3) {
                gen::big(&mut r, &focus, if profile == Profile::Tsan { 5000 } else { 70_000 })
            } else {
                gen::next(&mut r, &focus, &prev)
            };
            let t: String = if profile == Profile::Tsan { t.chars().take(6000).collect() } else { t };
            prev = t.clone();
            v.push(t);
        }
        texts.push(v);
    }
    let threads = match profile {
        Profile::Miri => 3,
        Profile::Tsan => *r.pick(&[2, 3, 4, 8]),
        Profile::Native => *r.pick(&[2, 3, 4, 8, 8, 16, 32]),
    };
    let size: usize = texts.iter().flatten().map(|t| t.len()).sum::<usize>() / (np * nt) + 300;
    let calls = match profile {
        Profile::Miri => 4,
        Profile::Tsan => (900_000 / size / threads).clamp(6, 300),
        Profile::Native => (9_000_000 / size / threads).clamp(10, 4000),
    };
    let level = r.below(4).min(2);
    Scenario {
        pipes,
        texts,
        threads,
        calls: if level > 0 { (calls / 4).max(6) } else { calls },
        build: r.below(3),
        level,
        perturb: *r.pick(&[0, 0, 4, 16, 64, 256]),
        rng: r,
    }
}

/// What a call returns, as a number.
pub fn digest(c: &Chanoma, t: &str, traced: bool) -> u64 {
    if !traced {
        return fnv(&[c.normalize(t).as_bytes()]);
    }
    let m = c.normalize_with_positions(t);
    digest_records(m.text(), m.modified_records().iter().map(|r| (r.text.as_str(), &r.positions)))
}

pub fn digest_records<'a>(text: &str, recs: impl Iterator<Item = (&'a str, &'a Vec<chanoma::Position>)>) -> u64 {
    let mut h = fnv(&[text.as_bytes()]);
    for (t, ps) in recs {
        h = fnv(&[&h.to_le_bytes(), t.as_bytes(), &ps.len().to_le_bytes()]);
        for p in ps {
            h = fnv(&[
                &h.to_le_bytes(),
                p.from.as_bytes(),
                p.to.as_bytes(),
                &p.index.to_le_bytes(),
                &p.length.to_le_bytes(),
                &p.utf8_index.to_le_bytes(),
                &p.utf8_length.to_le_bytes(),
            ]);
        }
    }
    h
}

fn context(dir: &Path) -> Ctx {
    std::fs::create_dir_all(dir).unwrap();
    let mut c = Ctx::new("C23", 0, 1, 0, false, dir);
    c.stay = true;
    c
}

/// Expected results, one call after another with instances used by nobody else.
fn alone(s: &Scenario, dir: &Path) -> Result<Vec<[u64; 2]>, String> {
    let mut ctx = context(dir);
    let mut out = Vec::new();
    for (p, ts) in s.pipes.iter().zip(&s.texts) {
        let c = p.build(&mut ctx)?;
        for t in ts {
            out.push([digest(&c, t, false), digest(&c, t, true)]);
        }
    }
    Ok(out)
}

static FLYING: AtomicUsize = AtomicUsize::new(0);
static TICKET: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicBool = AtomicBool::new(false);
static DONE: AtomicUsize = AtomicUsize::new(0);

pub fn main(a: &[String]) -> i32 {
    let seed: u64 = a[1].parse().unwrap();
    let profile = match &a[2][..] {
        "tsan" => Profile::Tsan,
        "miri" => Profile::Miri,
        _ => Profile::Native,
    };
    let dir = Path::new(&a[3]);
    let file = Path::new(&a[4]);
    let mut s = scenario(seed, profile);
    if a[0] == "alone" {
        return match alone(&s, dir) {
            Ok(v) => {
                let t: String = v.iter().map(|x| format!("{} {}\n", x[0], x[1])).collect();
                std::fs::write(file, t).unwrap();
                0
            }
            Err(e) => {
                println!("violation {}", e.replace('\n', " "));
                1
            }
        };
    }
    ctx::install_panic_hook();
    let want: Vec<[u64; 2]> = std::fs::read_to_string(file)
        .unwrap()
        .lines()
        .map(|l| {
            let (x, y) = l.split_once(' ').unwrap();
            [x.parse().unwrap(), y.parse().unwrap()]
        })
        .collect();
    let mut base = vec![0];
    for t in &s.texts {
        base.push(base.last().unwrap() + t.len());
    }
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(if s.level == 0 { log::LevelFilter::Off } else { log::LevelFilter::Debug });
    let rng = s.rng.clone();
    let pipes: Vec<Shared<Chanoma>> = if s.build != 1 {
        let mut ctx = context(dir);
        s.pipes.iter().map(|p| Shared(p.build(&mut ctx).unwrap())).collect()
    } else {
        Vec::new()
    };
    let pipes = Arc::new(pipes);
    let threads = s.threads;
    let s = {
        s.rng = rng;
        Arc::new(s)
    };
    let want = Arc::new(want);
    let base = Arc::new(base);
    let barrier = Arc::new(Barrier::new(threads));
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let mut hs = Vec::new();
    alloc::perturb(s.perturb);
    for id in 0..threads {
        let (s, pipes, want, base, barrier, bad) = (s.clone(), pipes.clone(), want.clone(), base.clone(), barrier.clone(), bad.clone());
        let dir = dir.join(format!("t{}", id));
        hs.push(std::thread::spawn(move || {
            let mut r = Rng::new(fnv(&[&seed.to_le_bytes(), &(id as u64).to_le_bytes()]));
            let mut ctx = context(&dir);
            let mut log: Vec<(u64, u64)> = Vec::with_capacity(s.calls);
            let mut overlap = 0u64;
            let mut own: BTreeMap<usize, Shared<Chanoma>> = BTreeMap::new();
            barrier.wait();
            for k in 0..s.calls {
                if FAILED.load(Relaxed) {
                    break;
                }
                // in the first calls all threads use the same pipeline and text
                let p = if k < 2 { 0 } else { r.below(s.pipes.len()) };
                let t = if k < 2 { k % s.texts[p].len() } else { r.below(s.texts[p].len()) };
                let traced = if k < 2 { seed % 2 == 0 } else { r.chance(1, 3) };
                if s.level == 2 && id == 0 && r.chance(1, 3) {
                    log::set_max_level(*r.pick(&[log::LevelFilter::Off, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace]));
                }
                let mine = s.build == 1 || (s.build == 2 && id % 2 == 1);
                if mine && (!own.contains_key(&p) || r.chance(1, 40)) {
                    match ctx::guard(|| s.pipes[p].build(&mut ctx)) {
                        Ok(Ok(c)) => {
                            own.insert(p, Shared(c));
                        }
                        Ok(Err(e)) | Err(e) => {
                            FAILED.store(true, Relaxed);
                            *bad.lock().unwrap() = Some(format!("{}\n\n{}", s.pipes[p].describe(), e));
                            break;
                        }
                    }
                }
                let c = if mine { &own[&p].0 } else { &pipes[p].0 };
                let text = &s.texts[p][t];
                let at = TICKET.fetch_add(1, Relaxed);
                if FLYING.fetch_add(1, Relaxed) > 0 {
                    overlap += 1;
                }
                let g = ctx::guard(|| digest(c, text, traced));
                FLYING.fetch_sub(1, Relaxed);
                let end = TICKET.fetch_add(1, Relaxed);
                log.push((at, end));
                DONE.fetch_add(1, Relaxed);
                let w = want[base[p] + t][traced as usize];
                if g != Ok(w) {
                    FAILED.store(true, Relaxed);
                    let got = match g {
                        Err(p) => p,
                        Ok(_) => {
                            let again = ctx::guard(|| c.normalize(text)).unwrap_or_else(|e| e);
                            let fresh = ctx::guard(|| s.pipes[p].build(&mut ctx).map(|c| c.normalize(text))).and_then(|x| x).unwrap_or_else(|e| e);
                            format!("another result than when run alone; called again it gives {}; an instance of this thread's own gives {}", show(&again), show(&fresh))
                        }
                    };
                    *bad.lock().unwrap() = Some(format!(
                        "{}\n\n{} threads, thread {} call {}, {} {} of text {}\n\n{}",
                        s.pipes[p].describe(),
                        s.threads,
                        id,
                        k,
                        if mine { "own instance" } else { "shared instance" },
                        if traced { "trace" } else { "normalisation" },
                        show(text),
                        got
                    ));
                    break;
                }
            }
            (log, overlap)
        }));
    }
    let mut events: Vec<(u64, usize, bool)> = Vec::new();
    let mut overlap = 0;
    for (i, h) in hs.into_iter().enumerate() {
        let (l, o) = h.join().unwrap();
        overlap += o;
        for (a, e) in l {
            events.push((a, i, true));
            events.push((e, i, false));
        }
    }
    alloc::perturb(0);
    log::set_max_level(log::LevelFilter::Off);
    events.sort();
    let order: Vec<u8> = events.iter().flat_map(|e| [e.1 as u8, e.2 as u8]).collect();
    println!("key {}", fnv(&[&order]));
    let first: Vec<String> = events.iter().take(40).map(|e| format!("{}{}", if e.2 { "+" } else { "-" }, e.1)).collect();
    println!("sample {} threads, first starts (+) and ends (-): {}", s.threads, first.join(" "));
    println!("event {} calls from threads", events.len() / 2);
    println!("event {} calls that ran at the same time as another", overlap);
    println!("event {} messages logged by the threads", LOGGED.load(Relaxed));
    // nothing is left behind
    if bad.lock().unwrap().is_none() {
        for (p, c) in pipes.iter().enumerate() {
            for (t, text) in s.texts[p].iter().enumerate() {
                for traced in [false, true] {
                    let g = ctx::guard(|| digest(&c.0, text, traced));
                    if g != Ok(want[base[p] + t][traced as usize]) {
                        *bad.lock().unwrap() = Some(format!("{}\n\nafter the threads have ended, {} of {} differs from what it was before", s.pipes[p].describe(), if traced { "trace" } else { "normalisation" }, show(text)));
                    }
                }
            }
        }
    }
    let b = bad.lock().unwrap().take();
    match b {
        Some(v) => {
            println!("violation {}", clip(&v, 3000).replace('\n', "\\n"));
            1
        }
        None => 0,
    }
}
