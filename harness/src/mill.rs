//! Many threads, each with configurations, tables, builders and pipelines of its own: the body of the processes that
//! C29 starts. Every thread carries out a program of operations that is fixed by the seed. `alone` carries out one
//! program after another in one thread and writes down what every operation gives; `threads` carries out all of them
//! at once and compares.
use crate::cfg::{self, Pipe};
use crate::ctx::{self, clip, guard, show, Ctx};
use crate::race::{digest, Profile, LOGGED, LOGGER};
use crate::rng::{fnv, Rng};
use crate::{alloc, gen};
use chanoma::characters_set as cs;
use chanoma::{file, Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};

fn corr(v: &[(char, char)]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(v.iter().map(|(a, b)| Item::new(a.to_string(), b.to_string())).collect()))
}

fn listing(t: &Table) -> Vec<u8> {
    t.items().iter().flat_map(|i| format!("{}\u{0}{}\u{1}", i.from, i.to).into_bytes()).collect()
}

struct Plan {
    threads: usize,
    ops: usize,
    level: bool,
    perturb: u32,
    /// a thread of its own for every operation
    churn: bool,
    small: bool,
    /// CHANOMARC is set for the whole process
    rc: bool,
}

fn plan(seed: u64, profile: Profile) -> Plan {
    let mut r = Rng::new(fnv(&[b"mill plan", &seed.to_le_bytes()]));
    let miri = profile == Profile::Miri;
    Plan {
        threads: match profile {
            Profile::Miri => 3,
            Profile::Tsan => *r.pick(&[2, 3, 4, 8]),
            Profile::Native => *r.pick(&[2, 4, 8, 16, 32, 64]),
        },
        ops: match profile {
            Profile::Miri => 3,
            Profile::Tsan => 10,
            Profile::Native => *r.pick(&[10, 25, 60]),
        },
        level: r.chance(1, 5),
        perturb: *r.pick(&[0, 0, 4, 16, 64, 256]),
        churn: r.chance(1, 4),
        small: miri,
        rc: r.chance(1, 2),
    }
}

/// What all threads can see: files in the working directory and at home, and a table and a builder's result to copy.
struct Common {
    shared: PathBuf,
    table: Table,
}

const SHARED: [(&str, &str); 6] = [
    ("a.yaml", "modifiers:\n  consecutive_character_reducer: ー\n  ligature_translator: {か゛: が, ab: x}\nitems:\n  - {from: a, to: b}\n  - {from: b, to: c}\n"),
    ("b.csv", "from,to\nあ,い\nい,う\nx,y,z\n"),
    ("c.yml", "items: {q: [r, s], t: u}\n"),
    ("broken.yaml", "items: [\n"),
    ("broken.csv", "h,h\na,b\n\u{1}\n"),
    ("d.json", "{}"),
];

fn common(dir: &Path, p: &Plan, seed: u64) -> Common {
    let shared = dir.join("shared");
    let home = dir.join("home");
    std::fs::create_dir_all(&shared).unwrap();
    std::fs::create_dir_all(home.join(".config/chanoma")).unwrap();
    for (n, t) in SHARED {
        std::fs::write(shared.join(n), t).unwrap();
    }
    std::fs::write(shared.join("broken.csv"), b"h,h\na,b\n\xff,c\n").unwrap();
    std::fs::write(home.join(".config/chanoma/chanomarc.yaml"), "items: {1: []}\n".replace('1', "\"1\"")).unwrap();
    std::fs::write(home.join("chanomarc.csv"), "h,h\na,1\nｱ,2\n").unwrap();
    std::fs::write(shared.join(".chanomarc.yml"), "modifiers:\n  trim:\nitems: [{from: \"1\", to: \"3\"}]\n").unwrap();
    std::env::set_var("HOME", &home);
    std::env::set_current_dir(&shared).unwrap();
    if p.rc {
        std::env::set_var("CHANOMARC", if seed % 4 == 0 { "a.yaml".into() } else { shared.join("b.csv") });
    } else {
        std::env::remove_var("CHANOMARC");
    }
    let mut t = Table::new();
    t.add(&corr(&[('ア', 'い'), ('1', '2'), ('z', 'y')]));
    Common { shared, table: t }
}

struct Worker {
    r: Rng,
    ctx: Ctx,
    own: Option<(Pipe, Chanoma)>,
    builder: TableBuilder,
}

impl Worker {
    fn new(seed: u64, id: usize, dir: &Path) -> Worker {
        let d = dir.join(format!("t{}", id));
        std::fs::create_dir_all(&d).unwrap();
        let mut ctx = Ctx::new("C29", id, 1, seed, false, &d);
        ctx.stay = true;
        Worker { r: Rng::new(fnv(&[b"mill", &seed.to_le_bytes(), &id.to_le_bytes()])), ctx, own: None, builder: TableBuilder::new() }
    }

    fn texts(&mut self, focus: &[char], small: bool) -> Vec<String> {
        let n = if small { 1 } else { self.r.range(1, 4) };
        (0..n)
            .map(|_| {
                if small {
                    (0..self.r.below(6)).map(|_| gen::mixed(&mut self.r, focus)).collect()
                } else {
                    let t = gen::text(&mut self.r, focus);
                    t.chars().take(4000).collect()
                }
            })
            .collect()
    }

    fn run(&mut self, c: &Chanoma, texts: &[String]) -> Vec<u8> {
        texts.iter().flat_map(|t| [digest(c, t, false), digest(c, t, true)]).flat_map(|x| x.to_le_bytes()).collect()
    }

    /// One operation: what it was, and what it gave.
    fn step(&mut self, com: &Common, p: &Plan) -> (String, Vec<u8>) {
        let focus = ['a', 'b', 'ー', 'か', '゛', 'あ', 'い', '1', 'ｱ', 'x', ' ', 'ア', 'z', 'Ａ', '～'];
        match self.r.below(if p.small { 9 } else { 14 }) {
            0 => {
                // a file that all threads load, by its relative or absolute name
                let n = self.r.pick(&SHARED).0;
                let path = match self.r.below(3) {
                    0 => PathBuf::from(n),
                    1 => Path::new("./../shared").join(n),
                    _ => com.shared.join(n),
                };
                let t = self.texts(&focus, p.small);
                match Chanoma::from_config_file(&path) {
                    Ok(c) => (format!("configuration {:?}, texts {:?}", path, t), self.run(&c, &t)),
                    Err(_) => (format!("configuration {:?}", path), b"refused".to_vec()),
                }
            }
            1 => {
                let t = self.texts(&focus, p.small);
                match Chanoma::load_rc() {
                    Ok(c) => (format!("load_rc, texts {:?}", t), self.run(&c, &t)),
                    Err(e) => ("load_rc".into(), format!("refused: {}", e).into_bytes()),
                }
            }
            2 => {
                let n = self.r.pick(&SHARED).0;
                let yaml = self.r.chance(1, 2);
                let t = if yaml { file::table_from_yaml_path(n) } else { file::table_from_csv_path(n) };
                (format!("table from {} as {}", n, if yaml { "YAML" } else { "CSV" }), t.map(|t| listing(&t)).unwrap_or(b"refused".to_vec()))
            }
            3 => {
                let n = self.r.pick(&SHARED).0;
                let ok = if n.ends_with("csv") { self.builder.add_from_csv(n).is_ok() } else { self.builder.add_from_yaml(n).is_ok() };
                let t = std::mem::take(&mut self.builder).build();
                let l = listing(&t);
                self.builder = t.builder();
                (format!("{} added to a builder", n), [vec![ok as u8], l].concat())
            }
            4 => {
                let v = cfg::pairs(&mut self.r, if p.small { 4 } else { 40 });
                let add = self.r.chance(2, 3);
                if add {
                    self.builder.add_corr(&corr(&v));
                } else {
                    self.builder.remove_corr(&corr(&v));
                }
                let t = std::mem::take(&mut self.builder).build();
                let l = listing(&t);
                self.builder = t.builder();
                (format!("entries {} a builder: {}", if add { "added to" } else { "removed from" }, cfg::pairs_str(&v)), l)
            }
            5 => {
                // a copy of a common table, changed and used
                let mut t = com.table.clone();
                let v = cfg::pairs(&mut self.r, 6);
                t.add(&corr(&v));
                let csv = file::to_csv_writer(&t.corr(), Vec::new()).into_inner().unwrap();
                let yaml = serde_yaml::to_string(&file::to_serialized_corr(&t.corr())).unwrap_or_default();
                (format!("copy of a table with {}, exported", cfg::pairs_str(&v)), [csv, yaml.into_bytes(), listing(&com.table)].concat())
            }
            6 | 7 => {
                // an own pipeline, kept for some time
                if self.own.is_none() || self.r.chance(1, 4) {
                    let pipe = if p.small {
                        Pipe { ops: vec![cfg::Op::Table(cfg::pairs(&mut self.r, 4))], direct: true }
                    } else {
                        cfg::pipe(&mut self.r)
                    };
                    match pipe.build(&mut self.ctx) {
                        Ok(c) => self.own = Some((pipe, c)),
                        Err(e) => return (pipe.describe(), e.into_bytes()),
                    }
                }
                let (pipe, c) = self.own.take().unwrap();
                let f = pipe.focus();
                let t = self.texts(&f, p.small);
                let out = self.run(&c, &t);
                let d = format!("{}\ntexts {:?}", pipe.describe(), t);
                self.own = Some((pipe, c));
                (d, out)
            }
            8 => {
                let x = match self.r.below(3) {
                    0 => cs::ALL - &cs::digits::DIGITS,
                    1 => cs::digits::DIGITS + &cs::kanas::KANAS,
                    _ => cs::punctuations::PUNCTUATIONS - &cs::punctuations::Punctuations::EQUAL_SIGN,
                };
                ("published sets combined".into(), x.items().iter().flat_map(|i| format!("{}{}", i.from, i.to).into_bytes()).collect())
            }
            9 | 10 => {
                // a file of this thread's own, of a name that other threads use in their directories
                let f = cfg::file_cfg(&mut self.r, 7);
                let csv = self.r.chance(1, 3);
                let text = if csv { cfg::csv_of(&f.items) } else { f.yaml() };
                let path = self.ctx.dir.join(if csv { "own.csv" } else { "own.yaml" });
                std::fs::write(&path, &text).unwrap();
                let focus: Vec<char> = f.items.iter().take(20).flat_map(|x| [x.0, x.1]).chain(focus).collect();
                let t = self.texts(&focus, false);
                match Chanoma::from_config_file(&path) {
                    Ok(c) => (format!("configuration\n{}\ntexts {:?}", clip(&text, 1500), t), self.run(&c, &t)),
                    Err(_) => (format!("configuration\n{}", clip(&text, 1500)), b"refused".to_vec()),
                }
            }
            11 => {
                let mut c = if self.r.chance(1, 2) { Chanoma::preset() } else { Chanoma::neologdn() };
                if self.r.chance(1, 2) {
                    c.use_preset();
                }
                let t = self.texts(&focus, false);
                (format!("preset or neologdn, texts {:?}", t), self.run(&c, &t))
            }
            12 => {
                let mut b = TableBuilder::new();
                b.preset();
                let t = b.build();
                ("preset table".into(), listing(&t))
            }
            _ => {
                let t = std::mem::take(&mut self.builder).build();
                let text = self.texts(&focus, false);
                let c = Chanoma::from_table(t.clone());
                let out = self.run(&c, &text);
                self.builder = TableBuilder::from_table(t);
                (format!("pipeline from the builder's table, texts {:?}", text), out)
            }
        }
    }
}

static FLYING: AtomicUsize = AtomicUsize::new(0);
static TICKET: AtomicU64 = AtomicU64::new(0);

fn programs(seed: u64, p: &Plan, dir: &Path, com: &Common) -> Vec<Vec<u64>> {
    (0..p.threads)
        .map(|id| {
            let mut w = Worker::new(seed, id, dir);
            (0..p.ops).map(|_| fnv(&[&w.step(com, p).1])).collect()
        })
        .collect()
}

pub fn main(a: &[String]) -> i32 {
    let seed: u64 = a[1].parse().unwrap();
    let profile = match &a[2][..] {
        "tsan" => Profile::Tsan,
        "miri" => Profile::Miri,
        _ => Profile::Native,
    };
    // the names of the directories are the same in both processes, so that errors can be compared
    let dir = Path::new(&a[3]).parent().unwrap().join("mill");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let out = Path::new(&a[4]);
    let p = plan(seed, profile);
    ctx::install_panic_hook();
    let com = common(&dir, &p, seed);
    if a[0] == "alone" {
        return match guard(|| programs(seed, &p, &dir, &com)) {
            Ok(v) => {
                let t: String = v.iter().map(|x| x.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ") + "\n").collect();
                std::fs::write(out, t).unwrap();
                0
            }
            Err(e) => {
                println!("violation {}", e.replace('\n', " "));
                1
            }
        };
    }
    let want: Vec<Vec<u64>> = std::fs::read_to_string(out).unwrap().lines().map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect()).collect();
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(if p.level { log::LevelFilter::Debug } else { log::LevelFilter::Off });
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let shared = Arc::new((com, p, want));
    let n = shared.1.threads;
    let barrier = Arc::new(Barrier::new(n));
    let mut hs = Vec::new();
    alloc::perturb(shared.1.perturb);
    for id in 0..n {
        let (sh, bad, barrier, dir) = (shared.clone(), bad.clone(), barrier.clone(), dir.clone());
        hs.push(std::thread::spawn(move || {
            let (com, p, want) = &*sh;
            let mut w = Worker::new(seed, id, &dir);
            let mut log: Vec<(u64, u64)> = Vec::new();
            let mut overlap = 0u64;
            barrier.wait();
            for k in 0..p.ops {
                if bad.lock().unwrap().is_some() {
                    break;
                }
                let at = TICKET.fetch_add(1, Relaxed);
                if FLYING.fetch_add(1, Relaxed) > 0 {
                    overlap += 1;
                }
                let g = if p.churn {
                    std::thread::scope(|s| s.spawn(|| guard(|| w.step(com, p))).join().unwrap_or_else(|_| Err("the thread panicked".into())))
                } else {
                    guard(|| w.step(com, p))
                };
                FLYING.fetch_sub(1, Relaxed);
                let end = TICKET.fetch_add(1, Relaxed);
                log.push((at, end));
                let e = match g {
                    Ok((_, out)) if fnv(&[&out]) == want[id][k] => continue,
                    Ok((d, out)) => format!("{}\n\ngives another result than when done alone: {}", d, show(&clip(&String::from_utf8_lossy(&out), 600))),
                    Err(e) => e,
                };
                *bad.lock().unwrap() = Some(format!("{} threads, thread {}, operation {}: {}", p.threads, id, k, e));
                break;
            }
            (log, overlap)
        }));
    }
    let mut events: Vec<(u64, usize, bool)> = Vec::new();
    let mut overlap = 0;
    for (i, h) in hs.into_iter().enumerate() {
        let (l, o) = h.join().unwrap();
        overlap += o;
        for (a, e) in l {
            events.push((a, i, true));
            events.push((e, i, false));
        }
    }
    alloc::perturb(0);
    log::set_max_level(log::LevelFilter::Off);
    events.sort();
    let order: Vec<u8> = events.iter().flat_map(|e| [e.1 as u8, e.2 as u8]).collect();
    println!("key {}", fnv(&[&order]));
    let first: Vec<String> = events.iter().take(40).map(|e| format!("{}{}", if e.2 { "+" } else { "-" }, e.1)).collect();
    println!("sample {} threads, first starts (+) and ends (-): {}", n, first.join(" "));
    println!("event {} operations in threads", events.len() / 2);
    println!("event {} operations that ran at the same time as another", overlap);
    println!("event {} messages logged by the threads", LOGGED.load(Relaxed));
    let b = bad.lock().unwrap().take();
    match b {
        Some(v) => {
            println!("violation {}", clip(&v, 3000).replace('\n', "\\n"));
            1
        }
        None => {
            // the common files and the common table are as before
            for (n, t) in SHARED {
                if n != "broken.csv" && std::fs::read_to_string(shared.0.shared.join(n)).ok().as_deref() != Some(t) {
                    println!("violation the file {} was changed", n);
                    return 1;
                }
            }
            0
        }
    }
}
