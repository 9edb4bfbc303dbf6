//! Independence of instance, process, repetition and history: C24.
use super::Prop;
use crate::cfg::{self, Op, Pipe, Stage};
use crate::ctx::{clip, guard, show, Ctx, R};
use crate::gen;
use crate::race::digest;
use crate::rng::{fnv, Rng};
use chanoma::{file, Chanoma, Corr, Correspondence, Item, Synthesized, TableBuilder};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;

pub static PROPS: &[Prop] = &[Prop {
    id: "C24",
    level: "exploration",
    rule: "batches of configurations of every kind (also with overlapping rules and contradicting or longer entries) and texts: texts, traces, table listings and exports computed in one process, then by new instances in another thread in another order with other calls in between, then by new processes with other hash seeds, environments and working directories, and compared; instances used for up to 70000 calls against their first answers and against fresh instances; repeated runs of the output program; non-trivial: distinct configuration and text with a changed text",
    assumptions: &["hash seeds are those the operating system hands out"],
    shards: 0,
    min_nontrivial: Some(3000),
    run: c24,
}];

fn word(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    (0..n).map(|_| gen::any(r)).collect()
}

struct Case {
    pipe: Option<Pipe>,
    yaml: String,
    texts: Vec<String>,
    /// entries for a table, with repetitions and contradictions
    items: Vec<(String, String)>,
    minus: Vec<(String, String)>,
}

fn case(seed: u64, k: usize) -> Case {
    let mut r = Rng::new(fnv(&[b"repeat", &seed.to_le_bytes(), &k.to_le_bytes()]));
    let pipe = match k % 8 {
        0 => Some(Pipe { ops: vec![Op::Preset], direct: true }),
        1 => Some(Pipe { ops: vec![Op::Neologdn], direct: true }),
        2 | 3 => None,
        4 => Some(Pipe { ops: vec![Op::Yaml(cfg::FileCfg { stages: vec![Stage::Lig(cfg::rules(&mut r))], items: vec![] })], direct: true }),
        _ => Some(cfg::pipe(&mut r)),
    };
    let yaml = cfg::wild(&mut r);
    let focus = match &pipe {
        Some(p) => p.focus(),
        None => cfg::wild_focus(&yaml),
    };
    let mut texts = Vec::new();
    let mut prev = String::new();
    for i in 0..14 {
        let t = if i == 13 && k % 5 == 0 { gen::big(&mut r, &focus, 20_000) } else { gen::next(&mut r, &focus, &prev) };
        prev = t.clone();
        texts.push(t);
    }
    let n = *r.pick(&[0, 1, 3, 10, 40, 300]);
    let few: Vec<String> = (0..6).map(|_| word(&mut r)).collect();
    let w = |r: &mut Rng| if r.chance(1, 2) { r.pick(&few).clone() } else { word(r) };
    let items = (0..n).map(|_| (w(&mut r), w(&mut r))).collect();
    let minus = (0..r.below(8)).map(|_| (w(&mut r), w(&mut r))).collect();
    Case { pipe, yaml, texts, items, minus }
}

fn corr(v: &[(String, String)]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(v.iter().map(|(a, b)| Item::new(a.clone(), b.clone())).collect()))
}

fn build(ctx: &mut Ctx, c: &Case) -> Result<Chanoma, String> {
    match &c.pipe {
        Some(p) => p.build(ctx),
        None => cfg::load_content(ctx, "yaml", &c.yaml),
    }
}

fn describe(c: &Case) -> String {
    match &c.pipe {
        Some(p) => p.describe(),
        None => format!("yaml file:\n{}", c.yaml),
    }
}

type Out = Vec<(usize, usize, u64, u64)>;

/// The listing and the exports of one table, as numbers.
fn exports(c: &Case) -> (u64, u64) {
    let co = corr(&c.items);
    let built = |minus: bool| {
        let mut b = TableBuilder::new();
        if c.items.len() % 2 == 0 {
            b.preset();
        }
        b.add_corr(&co);
        if minus {
            b.remove_corr(&corr(&c.minus));
        }
        b.build()
    };
    let mut list = String::new();
    let mut h = Vec::new();
    // after every step: a later one may put in order what an earlier one did not
    let mut steps = vec![built(false)];
    steps.push(built(true));
    let mut t = steps[c.items.len() % 2].clone();
    t.add(&corr(&c.minus));
    steps.push(t.clone());
    t.remove(&corr(&c.items[..c.items.len() / 2]));
    steps.push(t);
    steps.push(chanoma::Table::from_corr(co.clone(), chanoma::table::Origin::New));
    for t in &steps {
        for i in t.items() {
            list.push_str(&format!("{:?}\n", i));
        }
        h.extend(file::to_csv_writer(&t.corr(), Vec::new()).into_inner().unwrap());
        h.extend(serde_yaml::to_string(&file::to_serialized_corr(&t.corr())).unwrap_or_default().into_bytes());
    }
    let t = built(true);
    for i in t.items().iter().chain(t.corr().items().iter()).chain(t.clone().items().iter()) {
        list.push_str(&format!("{:?}\n", i));
    }
    h.extend(file::to_csv_writer(&t.corr(), Vec::new()).into_inner().unwrap());
    h.extend(file::to_csv_writer(&co, Vec::new()).into_inner().unwrap());
    h.extend(serde_yaml::to_string(&file::to_serialized_corr(&t.corr())).unwrap_or_default().into_bytes());
    h.extend(serde_yaml::to_string(&file::to_serialized_corr(&co)).unwrap_or_default().into_bytes());
    for s in [&chanoma::characters_set::ALL.items()] {
        h.extend(format!("{:?}", s).into_bytes());
    }
    (fnv(&[list.as_bytes()]), fnv(&[&h]))
}

/// Results of all cases. `how`: 0 in order; otherwise another order, with other calls in between.
fn results(ctx: &mut Ctx, seed: u64, n: usize, how: u64) -> Result<Out, String> {
    let mut r = Rng::new(how);
    let mut order: Vec<usize> = (0..n).collect();
    if how != 0 {
        r.shuffle(&mut order);
    }
    let mut out = Out::new();
    for k in order {
        let c = case(seed, k);
        let mut ch = build(ctx, &c).map_err(|e| format!("{}\n{}", describe(&c), e))?;
        let mut ts: Vec<usize> = (0..c.texts.len()).collect();
        if how != 0 {
            r.shuffle(&mut ts);
            ts.truncate(r.range(c.texts.len() / 2, c.texts.len()));
        }
        for t in ts {
            if how != 0 {
                for _ in 0..r.below(3) {
                    let x = r.below(c.texts.len());
                    let other: String = match r.below(3) {
                        0 => c.texts[x].clone(),
                        1 => c.texts[t].chars().skip(1).collect(),
                        _ => gen::next(&mut r, &[], &c.texts[t]),
                    };
                    if r.chance(1, 2) {
                        ch.normalize(&other);
                    } else {
                        ch.normalize_with_positions(&other);
                    }
                }
                if r.chance(1, 6) {
                    ch = build(ctx, &c)?;
                }
            }
            out.push((k, t, digest(&ch, &c.texts[t], false), digest(&ch, &c.texts[t], true)));
        }
        let (a, b) = exports(&c);
        out.push((k, usize::MAX, a, b));
        if how != 0 {
            let (a, b) = exports(&c);
            out.push((k, usize::MAX, a, b));
        }
    }
    Ok(out)
}

/// Body of `vmon digest`.
pub fn main(a: &[String]) -> i32 {
    let seed = a[0].parse().unwrap();
    let n = a[1].parse().unwrap();
    let how = a[2].parse().unwrap();
    let dir = Path::new(&a[3]);
    std::fs::create_dir_all(dir).unwrap();
    let mut ctx = Ctx::new("C24", 0, 1, 0, false, dir);
    match results(&mut ctx, seed, n, how) {
        Ok(v) => {
            let mut o = String::new();
            for (k, t, a, b) in v {
                o.push_str(&format!("{} {} {} {}\n", k, t, a, b));
            }
            print!("{}", o);
            0
        }
        Err(e) => {
            eprintln!("{}", e);
            3
        }
    }
}

fn compare(ctx: &mut Ctx, seed: u64, base: &HashMap<(usize, usize), (u64, u64)>, got: &Out, who: &str) -> R {
    for (k, t, a, b) in got {
        ctx.evals += 1;
        let (x, y) = base[&(*k, *t)];
        if (x, y) == (*a, *b) {
            continue;
        }
        let c = case(seed, *k);
        let text = if *t == usize::MAX {
            let what = if x != *a { "the listing" } else { "an export" };
            format!("{} of the table with entries {:?} without {:?} differs {}", what, c.items, c.minus, who)
        } else {
            let what = if x != *a { "the normalised text" } else { "the trace" };
            let mut some = Vec::new();
            for _ in 0..8 {
                let g = guard(|| build(ctx, &c).map(|ch| format!("{} / {:?}", ch.normalize(&c.texts[*t]), ch.normalize_with_positions(&c.texts[*t]).modified_records().iter().map(|r| (r.text.clone(), r.positions.clone())).collect::<Vec<_>>())));
                let g = match g {
                    Ok(Ok(g)) => clip(&g, 600),
                    Ok(Err(e)) => e,
                    Err(e) => e,
                };
                if !some.contains(&g) {
                    some.push(g);
                }
            }
            format!("{}\n\n{} of {} differs {}\nfresh instances here give {}", describe(&c), what, show(&c.texts[*t]), who, some.join("\n or "))
        };
        return Err(ctx.violation(&text));
    }
    Ok(())
}

fn batches(ctx: &mut Ctx) -> R {
    let exe = std::env::current_exe().unwrap();
    for _ in 0..ctx.budget(24, 800) {
        let seed = ctx.rng.next() >> 20;
        let n = 40;
        let first = match guard(|| results(ctx, seed, n, 0)) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) | Err(e) => return Err(ctx.violation(&e)),
        };
        let base: HashMap<(usize, usize), (u64, u64)> = first.iter().map(|x| ((x.0, x.1), (x.2, x.3))).collect();
        for k in 0..n {
            let c = case(seed, k);
            for (t, text) in c.texts.iter().enumerate() {
                if base[&(k, t)].0 != fnv(&[text.as_bytes()]) {
                    ctx.key(&[&seed.to_le_bytes(), &k.to_le_bytes(), text.as_bytes()]);
                    ctx.sample(|| format!("{} | text {}", clip(&describe(&c), 300), show(text)));
                }
            }
        }
        crate::ctx::SEQ.fetch_add(2, std::sync::atomic::Ordering::Relaxed);
        // another thread, another order, other calls in between
        let how = ctx.rng.next() | 1;
        let dir = ctx.path("d");
        let again = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                std::fs::create_dir_all(&dir).unwrap();
                let mut c = Ctx::new("C24", 0, 1, 0, false, &dir);
                guard(|| results(&mut c, seed, n, how))
            })
            .unwrap()
            .join()
            .unwrap();
        match again {
            Ok(Ok(v)) => compare(ctx, seed, &base, &v, "in another instance, thread and order of calls")?,
            Ok(Err(e)) | Err(e) => return Err(ctx.violation(&e)),
        }
        ctx.event("batches in another thread and order", 1);
        // other processes
        for i in 0..3 {
            let how = if i == 0 { 0 } else { ctx.rng.next() | 1 };
            let dir = ctx.path("p");
            std::fs::create_dir_all(&dir).unwrap();
            let mut c = Command::new(&exe);
            c.args(["digest", &seed.to_string(), &n.to_string(), &how.to_string()]).arg(&dir).current_dir(&dir);
            match i {
                0 => {
                    c.env("HOME", "/nonexistent").env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo");
                }
                1 => {
                    c.env_clear();
                }
                _ => {
                    c.env("RUST_LOG", "trace").env("HOME", &dir).env("LANG", "C").env("USER", "someone").env("CHANOMARC", "/nonexistent.yaml");
                }
            }
            let o = c.output().unwrap();
            if !o.status.success() {
                return Err(ctx.violation(&format!("batch {}: a process that repeats what succeeded here ended with {:?}: {}", seed, o.status, clip(&String::from_utf8_lossy(&o.stderr), 3000))));
            }
            let v: Out = String::from_utf8_lossy(&o.stdout)
                .lines()
                .map(|l| {
                    let f: Vec<&str> = l.split(' ').collect();
                    (f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap())
                })
                .collect();
            compare(ctx, seed, &base, &v, "in another process")?;
            let _ = std::fs::remove_dir_all(&dir);
            ctx.event("batches in other processes", 1);
            crate::ctx::SEQ.fetch_add(2, std::sync::atomic::Ordering::Relaxed);
        }
    }
    Ok(())
}

/// One instance, used very often.
fn histories(ctx: &mut Ctx) -> R {
    let rounds = if ctx.thorough { 12 } else { 1 };
    for i in 0..rounds {
        for kind in 0..10 {
            if !ctx.mine(kind + i) {
                continue;
            }
            let r = &mut ctx.rng;
            let (p, calls) = match kind {
                0..=6 => (
                    Pipe { ops: vec![Op::Yaml(cfg::FileCfg { stages: vec![cfg::stage(r, kind)], items: vec![] })], direct: true },
                    if kind == 6 { 8000 } else { 70_000 },
                ),
                7 => (Pipe { ops: vec![Op::Preset], direct: true }, 30_000),
                8 => (Pipe { ops: vec![Op::Table(cfg::pairs(r, 30))], direct: true }, 70_000),
                _ => (Pipe { ops: vec![Op::Yaml(cfg::file_cfg(r, 7)), Op::Preset], direct: true }, 20_000),
            };
            let focus = p.focus();
            let traced = r.chance(1, 3);
            let mk = |ctx: &mut Ctx| p.build(ctx);
            let c = match mk(ctx) {
                Ok(c) => c,
                Err(e) => return Err(ctx.violation(&format!("{}\n{}", p.describe(), e))),
            };
            let calls = if traced { calls / 8 } else { calls };
            let mut texts: Vec<(String, u64)> = Vec::new();
            let mut fresh = match mk(ctx) {
                Ok(c) => c,
                Err(e) => return Err(ctx.violation(&e)),
            };
            let mut used = 0;
            for k in 0..calls {
                let old = !texts.is_empty() && ctx.rng.chance(1, 3);
                let (t, want) = if old {
                    // sometimes one of the last, sometimes a very old one
                    let n = texts.len();
                    let i = if ctx.rng.chance(1, 2) { n - 1 - ctx.rng.below(n.min(4)) } else { ctx.rng.below(n) };
                    (texts[i].0.clone(), Some(texts[i].1))
                } else {
                    let prev = texts.last().map(|x| x.0.clone()).unwrap_or_default();
                    let t: String = if ctx.rng.chance(1, 4) {
                        gen::next(&mut ctx.rng, &focus, &prev).chars().take(300).collect()
                    } else {
                        let n = ctx.rng.below(12);
                        (0..n).map(|_| gen::mixed(&mut ctx.rng, &focus)).collect()
                    };
                    (t, None)
                };
                // what an instance that was used less says
                let w = match want {
                    Some(w) => Some(w),
                    None if k % 16 == 0 => {
                        used += 1;
                        if used % 64 == 0 && kind != 7 && kind != 9 {
                            fresh = mk(ctx).unwrap_or_else(|_| Chanoma::new());
                        }
                        Some(digest(&fresh, &t, traced))
                    }
                    None => None,
                };
                let mut d = 0;
                let desc = || format!("{}\n\n{} calls on this instance, then the {} of {}", p.describe(), k, if traced { "trace" } else { "normalisation" }, show(&t));
                ctx.judge(&desc, || {
                    d = digest(&c, &t, traced);
                    match w {
                        Some(w) if w != d => Err(format!("differs from {}", if want.is_some() { "what this instance gave before" } else { "what a fresh instance gives" })),
                        _ => Ok(()),
                    }
                })?;
                if want.is_none() {
                    if texts.len() > 5000 {
                        let n = texts.len();
                        let i = ctx.rng.below(n);
                        texts.swap_remove(i);
                    }
                    texts.push((t, d));
                }
            }
            ctx.event("calls on instances used again and again", calls as u64);
            // short texts in turn, so that every text is met by a call of nearly every number
            let n = 97;
            let special: Vec<char> = "\u{9}\u{a}\u{b}\u{c}\u{d} \u{85}\u{a0}\u{1680}\u{2000}\u{2003}\u{2009}\u{200a}\u{2028}\u{2029}\u{202f}\u{205f}\u{3000}\u{200b}\u{feff}\u{0}~∼∾〜〰～ー‐﹣－゛゜\u{3099}\u{309a}ﾞﾟａＡａ０ｱァあ漢é😀.,!'\"-_".chars().collect();
            let mut turn: Vec<(String, (u64, u64))> = Vec::new();
            for i in 0..n {
                let (x, y) = (special[i % special.len()], if focus.is_empty() { 'a' } else { focus[i % focus.len()] });
                let m = gen::mixed(&mut ctx.rng, &focus);
                let t: String = match i % 3 {
                    0 => [x, y, m, x].iter().collect(),
                    1 => [m, m, y, x].iter().collect(),
                    _ => [x, m, y, x, x].iter().collect(),
                };
                let d = (digest(&fresh, &t, false), digest(&fresh, &t, true));
                turn.push((t, d));
            }
            let calls = n * match (kind, ctx.thorough) {
                (7 | 9, _) => 150,
                (6, _) => 400,
                (_, false) => 1100,
                (_, true) => 8400,
            };
            for traced in [false, true] {
                let calls = if traced { calls / 3 } else { calls };
                for k in 0..calls {
                    let (t, want) = &turn[k % n];
                    let d = guard(|| digest(&c, t, traced));
                    if d != Ok(if traced { want.1 } else { want.0 }) {
                        let what = format!("{} differs after many calls", if traced { "the trace" } else { "the normalisation" });
                        return Err(ctx.violation(&format!("{}\n\n{} of {}, {}th call: {:?}", p.describe(), what, show(t), k, d)));
                    }
                }
                ctx.evals += calls as u64;
                ctx.event("calls with short texts in turn", calls as u64);
            }
        }
    }
    Ok(())
}

fn programs(ctx: &mut Ctx) -> R {
    if ctx.shard > 1 {
        return Ok(());
    }
    let bin = PathBuf::from(std::env::var_os("VMON_BIN").expect("VMON_BIN")).join("output");
    let format = ["csv", "yaml"][ctx.shard];
    let mut first: Option<Vec<u8>> = None;
    for _ in 0..if ctx.thorough { 300 } else { 30 } {
        let o = Command::new(&bin).args(["--format", format]).output().unwrap().stdout;
        if *first.get_or_insert_with(|| o.clone()) != o {
            return Err(ctx.violation(&format!("two runs of output --format {} printed different files", format)));
        }
        ctx.evals += 1;
        ctx.event("runs of the output program", 1);
    }
    Ok(())
}

/// The same pipeline again and again in one process: every instance has its own hash seeds.
fn instances(ctx: &mut Ctx) -> R {
    for k in 0..ctx.budget(1600, 60_000) {
        let seed = ctx.rng.next() >> 20;
        let c = case(seed, *ctx.rng.pick(&[2, 3, 4, 5, 6, 7, 2, 4]) + 8 * k);
        let mut first: Option<Vec<(u64, u64)>> = None;
        let mut lists: Option<(u64, u64)> = None;
        for i in 0..6 {
            let ch = match guard(|| build(ctx, &c)) {
                Ok(Ok(ch)) => ch,
                Ok(Err(e)) | Err(e) => return Err(ctx.violation(&format!("{}\n{}", describe(&c), e))),
            };
            let mut v = Vec::new();
            for t in &c.texts {
                let mut d = (0, 0);
                ctx.judge(&|| format!("{}\ntext {}", describe(&c), show(t)), || {
                    d = (digest(&ch, t, false), digest(&ch, t, true));
                    Ok(())
                })?;
                v.push(d);
            }
            let f = first.get_or_insert_with(|| v.clone());
            if *f != v {
                let at = (0..v.len()).find(|x| f[*x] != v[*x]).unwrap();
                let what = if f[at].0 != v[at].0 { "text" } else { "trace" };
                return Err(ctx.violation(&format!("{}\n\nthe {} for {} differs between two instances", describe(&c), what, show(&c.texts[at]))));
            }
            if i < 3 {
                let e = exports(&c);
                if *lists.get_or_insert(e) != e {
                    return Err(ctx.violation(&format!("listing or export of the table with entries {:?} without {:?} differs from one time to the next", c.items, c.minus)));
                }
            }
        }
        for t in &c.texts {
            ctx.key(&[describe(&c).as_bytes(), t.as_bytes()]);
        }
        ctx.event("configurations built six times", 1);
    }
    Ok(())
}

fn c24(ctx: &mut Ctx) -> R {
    programs(ctx)?;
    instances(ctx)?;
    histories(ctx)?;
    batches(ctx)?;
    Ok(())
}
