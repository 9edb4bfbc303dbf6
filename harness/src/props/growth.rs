//! Growth of work and memory, and what stays allocated: C26.
use super::Prop;
use crate::alloc;
use crate::cfg::{self, Op, Pipe, Stage};
use crate::ctx::{clip, guard, show, Ctx, R, SEQ};
use crate::gen;
use crate::rng::{fnv, Rng};
use chanoma::{file, Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub static PROPS: &[Prop] = &[Prop {
    id: "C26",
    level: "exploration",
    rule: "pipelines of every kind with texts built from repeated units, blocks and random characters (uniform, alternating, every or no character edited, all distinct, partial matches) at 1 Ki to 256 Ki characters (4 Mi in the thorough tier): bytes allocated and peak per call counted by the allocator, CPU time per call measured and, where it grows suspiciously, executed instructions counted under cachegrind; 16 times the text may take at most 40 times the bytes and 32 times the instructions; live bytes followed over geometrically growing numbers of calls with ever new texts and over creations of pipelines, tables, builders and failed loads; non-trivial: distinct pipeline, shape and mode measured on the whole ladder",
    assumptions: &["super-linear growth with an exponent below about 1.3, or a coefficient so small that it stays hidden at the largest length, is not seen"],
    shards: 0,
    min_nontrivial: Some(150),
    run: c26,
}];

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu_time() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_PROCESS_CPUTIME_ID: work given to other threads counts, too
    unsafe { clock_gettime(2, &mut t) };
    t.s as f64 + t.ns as f64 / 1e9
}

struct Shape {
    pipe: Pipe,
    /// 0 unit repeated, 1 two halves, 2 units in turn with growing blocks, 3 random, 4 distinct characters
    kind: usize,
    a: Vec<char>,
    b: Vec<char>,
    seed: u64,
}

impl Shape {
    fn text(&self, n: usize) -> String {
        let rep = |u: &[char], n: usize| -> String { u.iter().cycle().take(if u.is_empty() { 0 } else { n }).collect() };
        match self.kind {
            0 => rep(&self.a, n),
            1 => format!("{}{}", rep(&self.a, n / 2), rep(&self.b, n - n / 2)),
            2 => {
                let mut s = String::new();
                let mut left = n;
                let mut k = 1;
                while left > 0 {
                    let m = k.min(left);
                    s.push_str(&rep(if k % 2 == 0 { &self.a } else { &self.b }, m));
                    left -= m;
                    k += 1;
                }
                s
            }
            3 => {
                let mut r = Rng::new(self.seed);
                (0..n).map(|_| if r.chance(1, 2) { *r.pick(&self.a) } else { *r.pick(&self.b) }).collect()
            }
            _ => {
                let skip = (self.seed % 0x3000) as u32;
                (0x20 + skip..0x10ffff).chain(0x20..).filter_map(char::from_u32).take(n).collect()
            }
        }
    }
    fn describe(&self) -> String {
        let u = |v: &Vec<char>| show(&v.iter().collect::<String>());
        let k = ["unit repeated", "two halves", "growing blocks", "random choice", "distinct characters"][self.kind];
        format!("{}\ntext: {} of {} and {}", self.pipe.describe(), k, u(&self.a), u(&self.b))
    }
}

fn shape(seed: u64, k: usize) -> Shape {
    let mut r = Rng::new(fnv(&[b"growth", &seed.to_le_bytes(), &k.to_le_bytes()]));
    let pipe = match k % 11 {
        s @ 0..=5 => {
            let st = match s {
                4 if r.chance(1, 2) => {
                    // partial matches of long rules
                    let c = gen::any(&mut r);
                    let n = r.range(2, 12);
                    let mut d = gen::any(&mut r);
                    while d == c {
                        d = gen::any(&mut r);
                    }
                    let mut f: String = std::iter::repeat(c).take(n).collect();
                    f.push(d);
                    let mut t = gen::any(&mut r);
                    while t == c || t == d {
                        t = gen::any(&mut r);
                    }
                    Stage::Lig(vec![(f, t.to_string())])
                }
                _ => cfg::stage(&mut r, s),
            };
            Pipe { ops: vec![Op::Yaml(cfg::FileCfg { stages: vec![st], items: vec![] })], direct: true }
        }
        6 => Pipe { ops: vec![Op::Preset], direct: true },
        7 | 8 => Pipe { ops: vec![Op::Neologdn], direct: true },
        9 => Pipe { ops: vec![Op::Table(cfg::pairs(&mut r, 60))], direct: true },
        _ => cfg::pipe(&mut r),
    };
    let mut focus = pipe.focus();
    if focus.is_empty() {
        focus.push('a');
    }
    let kind = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 3, 4]);
    // often a single character of the pipeline's own
    let unit = |r: &mut Rng| -> Vec<char> {
        let n = *r.pick(&[1, 1, 2, 2, 3, 7]);
        // the rules of a ligature stage as a whole
        if r.chance(1, 3) {
            let rules: Vec<&(String, String)> = pipe
                .ops
                .iter()
                .flat_map(|o| match o {
                    Op::Yaml(f) => f.stages.iter().flat_map(|s| match s {
                        Stage::Lig(v) => v.iter().collect::<Vec<_>>(),
                        _ => vec![],
                    }).collect::<Vec<_>>(),
                    _ => vec![],
                })
                .collect();
            if !rules.is_empty() {
                return r.pick(&rules).0.chars().collect();
            }
        }
        (0..n).map(|_| if r.chance(5, 6) { *r.pick(&focus) } else { gen::any(r) }).collect()
    };
    let a = unit(&mut r);
    let b = unit(&mut r);
    Shape { seed: r.next(), pipe, kind, a, b }
}

fn call(c: &Chanoma, t: &str, traced: bool) -> usize {
    if traced {
        c.normalize_with_positions(t).modified_records().len()
    } else {
        c.normalize(t).len()
    }
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    n: usize,
    total: usize,
    peak: usize,
    time: f64,
}

fn measure(c: &Chanoma, s: &Shape, n: usize, traced: bool) -> Cost {
    let t = s.text(n);
    let mut time = f64::MAX;
    let mut best = Cost { n, total: usize::MAX, peak: usize::MAX, time };
    for i in 0..3 {
        let live = alloc::reset_peak();
        let before = alloc::snap();
        let t0 = cpu_time();
        call(c, &t, traced);
        let t1 = cpu_time() - t0;
        let after = alloc::snap();
        let peak = alloc::peak().saturating_sub(live);
        best.total = best.total.min(after.total - before.total);
        best.peak = best.peak.min(peak);
        time = time.min(t1);
        SEQ.fetch_add(2, Relaxed);
        if i > 0 && time > 0.2 {
            break;
        }
    }
    best.time = time;
    best
}

/// Body of `vmon scale`.
pub fn main(a: &[String]) -> i32 {
    let s = shape(a[0].parse().unwrap(), a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let dir = Path::new(&a[4]);
    std::fs::create_dir_all(dir).unwrap();
    let mut ctx = Ctx::new("C26", 0, 1, 0, false, dir);
    let c = s.pipe.build(&mut ctx).unwrap();
    let t = s.text(n);
    // the text is made in any case; only the call makes the difference
    if a[5] == "1" {
        call(&c, &t, a[3] == "1");
    }
    0
}

fn instructions(ctx: &mut Ctx, args: &[String; 4], with: bool) -> Option<f64> {
    let dir = ctx.path("d");
    let out = ctx.path("cg");
    let mut ch = Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--branch-sim=no"])
        .arg(format!("--cachegrind-out-file={}", out.display()))
        .arg(std::env::current_exe().unwrap())
        .arg("scale")
        .args(args)
        .arg(&dir)
        .arg(if with { "1" } else { "0" })
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    let st = loop {
        SEQ.fetch_add(2, Relaxed);
        if let Some(s) = ch.try_wait().ok()? {
            break s;
        }
        if t0.elapsed().as_secs() > 240 {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let _ = std::fs::remove_dir_all(&dir);
    let s = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    if !st.success() {
        return None;
    }
    s.lines().find_map(|l| l.strip_prefix("summary:")).and_then(|x| x.trim().parse().ok())
}

fn growth(ctx: &mut Ctx) -> R {
    let ladder: &[usize] = if ctx.thorough { &[1 << 10, 1 << 12, 1 << 14, 1 << 16, 1 << 18, 1 << 20, 1 << 22] } else { &[1 << 10, 1 << 12, 1 << 14, 1 << 16, 1 << 18] };
    let seed = ctx.rng.next() >> 20;
    for k in 0..ctx.budget(264, 4400) {
        let s = shape(seed, k);
        let c = match guard(|| s.pipe.build(ctx)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) | Err(e) => return Err(ctx.violation(&format!("{}\n{}", s.describe(), e))),
        };
        for traced in [false, true] {
            let mut costs: Vec<Cost> = Vec::new();
            for n in ladder {
                let mut m = None;
                ctx.judge(&|| format!("{}\n{} characters, {}", s.describe(), n, if traced { "traced" } else { "plain" }), || {
                    m = Some(measure(&c, &s, *n, traced));
                    Ok(())
                })?;
                let m = m.unwrap();
                costs.push(m);
                ctx.event("calls measured", 1);
                if costs.len() < 3 {
                    continue;
                }
                let b = costs[costs.len() - 3];
                let desc = |what: &str| {
                    let l: Vec<String> = costs.iter().map(|c| format!("{} characters: {} bytes allocated, peak {}, {:.2} ms", c.n, c.total, c.peak, c.time * 1e3)).collect();
                    format!("{}\n{}\n\n{}\n{}", s.describe(), if traced { "traced" } else { "plain" }, what, l.join("\n"))
                };
                // a fixed part does not matter, and small texts are served from fixed parts
                let floor = 100.0 * b.n as f64 / 16.0;
                if m.total as f64 > 40.0 * (b.total as f64 + floor) {
                    let t = desc("16 times the text allocates more than 40 times the bytes");
                    return Err(ctx.violation(&t));
                }
                if m.peak as f64 > 40.0 * (b.peak as f64 + floor) {
                    let t = desc("16 times the text holds more than 40 times the bytes at once");
                    return Err(ctx.violation(&t));
                }
                if m.time > 0.03 && m.time > 70.0 * b.time {
                    // again, then by counting instructions
                    ctx.event("suspicions of growing CPU time", 1);
                    let b2 = measure(&c, &s, b.n, traced);
                    let m2 = measure(&c, &s, m.n, traced);
                    if m2.time < 70.0 * b2.time {
                        continue;
                    }
                    let args = |n: usize| [seed.to_string(), k.to_string(), n.to_string(), (traced as u32).to_string()];
                    let lo = instructions(ctx, &args(b.n), true).zip(instructions(ctx, &args(b.n), false)).map(|x| x.0 - x.1);
                    let hi = instructions(ctx, &args(m.n), true).zip(instructions(ctx, &args(m.n), false)).map(|x| x.0 - x.1);
                    ctx.event("suspicions examined by counting instructions", 1);
                    match (lo, hi) {
                        (Some(lo), Some(hi)) => {
                            if hi > 32.0 * lo {
                                let t = desc(&format!("16 times the text executes more than 32 times the instructions: {} and {}", lo, hi));
                                return Err(ctx.violation(&t));
                            }
                        }
                        (Some(_), None) if m2.time > 2.0 && m2.time > 120.0 * b2.time => {
                            let t = desc("16 times the text takes more than 120 times the CPU time, and too many instructions to be counted");
                            return Err(ctx.violation(&t));
                        }
                        _ => {}
                    }
                }
            }
            ctx.key(&[s.describe().as_bytes(), &[traced as u8]]);
            ctx.sample(|| {
                let l = costs.last().unwrap();
                format!("{} {}: {} characters, {} bytes allocated, {:.2} ms", clip(&s.describe(), 200), traced, l.n, l.total, l.time * 1e3)
            });
        }
    }
    Ok(())
}

/// Follows the live bytes while `f(i)` is called ever more often.
fn retained(ctx: &mut Ctx, desc: &dyn Fn() -> String, first: usize, f: &mut dyn FnMut(usize, usize)) -> R {
    let mut i = 0;
    let mut done = |f: &mut dyn FnMut(usize, usize), step: usize, n: usize| {
        for _ in 0..n {
            f(i, step);
            i += 1;
            SEQ.fetch_add(2, Relaxed);
        }
    };
    // whatever is set up once
    done(f, 0, first);
    let mut grown = Vec::new();
    let mut n = first;
    let mut live = alloc::snap().live;
    for step in 1..=4 {
        done(f, step, n);
        let now = alloc::snap().live;
        grown.push(now as i64 - live as i64);
        live = now;
        n *= 4;
    }
    ctx.evals += i as u64;
    ctx.event("calls followed for what stays allocated", i as u64);
    if grown[1..].iter().all(|g| *g > 0) {
        return Err(ctx.violation(&format!("{}\n\nlive memory grew over the last 3 of 4 rounds of calls, each 4 times as many as the one before, by {:?} bytes", desc(), grown)));
    }
    Ok(())
}

fn retention(ctx: &mut Ctx) -> R {
    let seed = ctx.rng.next() >> 20;
    for k in 0..ctx.budget(88, 1600) {
        let s = shape(seed, k + 11 * ctx.shard);
        let c = match guard(|| s.pipe.build(ctx)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) | Err(e) => return Err(ctx.violation(&format!("{}\n{}", s.describe(), e))),
        };
        let focus = s.pipe.focus();
        let traced = k % 2 == 0;
        let mut r = Rng::new(seed ^ k as u64);
        // ever new short texts; all distinct characters come by
        retained(ctx, &|| format!("{}\n{} of random short texts", s.pipe.describe(), if traced { "traces" } else { "normalisations" }), 20, &mut |i, _| {
            let t: String = match i % 4 {
                0 => gen::nth_string(&['a', 'ー', ' ', '～', 'か', '゛'], i),
                1 => (0..8).filter_map(|j| char::from_u32(0x80 + ((i * 8 + j) as u32) % 0xf000)).collect(),
                _ => {
                    let n = r.below(20);
                    (0..n).map(|_| gen::mixed(&mut r, &focus)).collect()
                }
            };
            call(&c, &t, traced);
        })?;
        // ever longer texts: a buffer kept for the next call would grow with them
        let mut grown = Vec::new();
        for n in [1000, 4000, 16_000, 64_000] {
            let t = s.text(n);
            let before = alloc::snap().live;
            for _ in 0..2 {
                call(&c, &t, traced);
            }
            grown.push(alloc::snap().live as i64 - before as i64);
            SEQ.fetch_add(2, Relaxed);
        }
        ctx.event("lengths followed for what stays allocated", 4);
        if grown.iter().all(|g| *g > 0) {
            return Err(ctx.violation(&format!("{}\n\nafter the results of texts of 1000, 4000, 16000 and 64000 characters were dropped, {:?} more bytes were in use", s.describe(), grown)));
        }
        // the pipeline itself
        let before = alloc::snap().live;
        drop(c);
        let after = alloc::snap().live;
        if !s.pipe.ops.is_empty() && after >= before && !s.pipe.describe().contains("(0 entries)") && k % 11 >= 6 && k % 11 <= 8 {
            return Err(ctx.violation(&format!("{}\n\ndropping the pipeline released nothing", s.pipe.describe())));
        }
    }
    Ok(())
}

fn creations(ctx: &mut Ctx) -> R {
    let dir = ctx.path("d");
    std::fs::create_dir_all(&dir).unwrap();
    let good = dir.join("g.yaml");
    let csv = dir.join("g.csv");
    let bad = dir.join("b.yaml");
    let badcsv = dir.join("b.csv");
    let f = cfg::file_cfg(&mut ctx.rng, 7);
    std::fs::write(&good, f.yaml()).unwrap();
    std::fs::write(&csv, cfg::csv_of(&cfg::pairs(&mut ctx.rng, 60))).unwrap();
    std::fs::write(&bad, "modifiers:\n  character_eliminator:\n    - \"a\"\n    - 5\n").unwrap();
    std::fs::write(&badcsv, b"h,h\na,b\n\xff,c\n").unwrap();
    let pairs = cfg::pairs(&mut ctx.rng, 60);
    let t = cfg::table_of(&pairs);
    let mut log: Vec<(&str, usize, Box<dyn FnMut(usize)>)> = Vec::new();
    log.push(("Chanoma::preset", 1, Box::new(|_| drop(Chanoma::preset()))));
    log.push(("Chanoma::neologdn", 1, Box::new(|_| drop(Chanoma::neologdn()))));
    log.push(("use_preset, use_neologdn", 1, Box::new(|_| {
        let mut c = Chanoma::new();
        c.use_preset();
        c.use_neologdn();
        c.normalize("ｶﾞ Ａ");
    })));
    let t2 = t.clone();
    log.push(("from_table, add_table", 10, Box::new(move |_| {
        let mut c = Chanoma::from_table(t2.clone());
        c.add_table(t2.clone());
        c.normalize_with_positions("ab");
    })));
    let g = good.clone();
    log.push(("from_config_file of a YAML file", 3, Box::new(move |_| drop(Chanoma::from_config_file(&g)))));
    let g = csv.clone();
    log.push(("from_config_file of a CSV file", 10, Box::new(move |_| drop(Chanoma::from_config_file(&g)))));
    let g = bad.clone();
    log.push(("from_config_file of a broken YAML file", 10, Box::new(move |_| drop(Chanoma::from_config_file(&g)))));
    let g = badcsv.clone();
    log.push(("from_config_file of a broken CSV file", 10, Box::new(move |_| drop(Chanoma::from_config_file(&g)))));
    let d = dir.clone();
    log.push(("from_config_file of files that do not exist", 10, Box::new(move |i| drop(Chanoma::from_config_file(d.join(format!("n{}.yaml", i)))))));
    let (g, c) = (good.clone(), csv.clone());
    log.push(("builders", 3, Box::new(move |i| {
        let mut b = TableBuilder::new();
        if i % 3 == 0 {
            b.preset();
        }
        let _ = b.add_from_csv(&c).map(|_| ());
        let _ = b.add_from_yaml(&g).map(|_| ());
        b.add_corr(&chanoma::characters_set::digits::DIGITS);
        b.remove_corr(&chanoma::characters_set::digits::DIGITS);
        if i % 2 == 0 {
            let t = b.build();
            let _ = t.items().len() + t.corr().items().len();
            drop(t.builder());
        }
    })));
    log.push(("tables and correspondences of ever new entries", 3, Box::new(|i| {
        let v: Vec<Item> = (0..20).map(|j| Item::new(format!("{}", i * 20 + j), format!("{}", j))).collect();
        let co = Correspondence::new(Synthesized::new(v));
        let mut t = Table::new();
        t.add(&co);
        t.add(&co);
        t.remove(&co);
        let b: Table = t.clone();
        let _ = b.items();
    })));
    let t3 = t.clone();
    log.push(("exports", 3, Box::new(move |_| {
        let _ = file::to_csv_writer(&t3.corr(), Vec::new()).into_inner().map(|v| v.len());
        let _ = serde_yaml::to_string(&file::to_serialized_corr(&t3.corr()));
    })));
    let g = good.clone();
    log.push(("load_rc", 3, Box::new(move |i| {
        std::env::set_var("CHANOMARC", if i % 2 == 0 { g.as_os_str() } else { "/nonexistent.yaml".as_ref() });
        let _ = Chanoma::load_rc();
        std::env::remove_var("CHANOMARC");
    })));
    for (k, (name, weight, mut f)) in log.into_iter().enumerate() {
        if !ctx.mine(k) {
            continue;
        }
        let mut g = |i: usize, _: usize| f(i);
        retained(ctx, &|| format!("{}\nfile:\n{}\ntable {}", name, std::fs::read_to_string(&good).unwrap_or_default(), cfg::pairs_str(&pairs)), weight, &mut g)?;
        ctx.event("kinds of objects created and dropped", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = PathBuf::new();
    Ok(())
}

fn c26(ctx: &mut Ctx) -> R {
    creations(ctx)?;
    retention(ctx)?;
    growth(ctx)
}
