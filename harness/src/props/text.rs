//! Properties of texts and pipelines: C01-C12, C25.
use super::Prop;
use crate::cfg::{self, csv_of, load_content, map_of, pairs_str, table_of, FileCfg, Op, Pipe, Stage};
use crate::ctx::{diff, show, Ctx, R};
use crate::gen;
use crate::model::{self, Models};
use crate::rng::{fnv, Rng};
use chanoma::{Chanoma, Table, TableBuilder};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        level: "exploration",
        rule: "random pipelines (builder calls, YAML and CSV files, no stages) times texts; each text normalised plainly at the log levels off, error, warn, info, debug, trace with an installed logger that formats every message, and traced at off and trace; non-trivial: distinct (pipeline, text) whose result differs from the text",
        assumptions: &["log levels are those of the log crate with a logger that accepts everything up to the maximum level"],
        shards: 0,
        min_nontrivial: Some(2000),
        run: c01,
    },
    Prop {
        id: "C02",
        level: "exploration",
        rule: "random tables of one-character entries with distinct sources (chains, cycles, permutations, look-alikes, up to thousands of entries), given by from_table, add_table, YAML stage, YAML items, CSV; result compared with the per-character map, and joined texts with joined results; non-trivial: distinct (table, text) with at least one converted character",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c02,
    },
    Prop {
        id: "C03",
        level: "exploration",
        rule: "every scalar value alone, doubled and between context characters, all scalar values in one text, all pairs of sources and context characters, random and large texts, through eight ways of making the preset (also beside stages that do nothing); compared with an independent table; non-trivial: distinct text that the preset changes",
        assumptions: &["the documented set is the one in DESIGN.md (README examples and Unicode forms)"],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c03,
    },
    Prop {
        id: "C04",
        level: "exploration",
        rule: "all strings over the critical alphabet up to a length bound, every scalar value (quick: all of the BMP, kana supplements and emoji, and one in eight others) in nine contexts, random and large texts; predicate on the result, and second normalisation equals the first; non-trivial: distinct text that neologdn changes",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(20000),
        run: c04,
    },
    Prop {
        id: "C05",
        level: "exploration",
        rule: "the workloads of C04 plus traced runs; compared with an independent staged reference model; non-trivial: distinct text that neologdn changes",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(20000),
        run: c05,
    },
    Prop {
        id: "C06",
        level: "exploration",
        rule: "single-stage pipelines loaded from YAML with random character lists; all strings over the listed characters and their look-alikes up to a bound, random and large texts, plainly and traced; compared with a membership filter; non-trivial: distinct (list, text) with a deletion",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c06,
    },
    Prop {
        id: "C07",
        level: "exploration",
        rule: "single-stage pipelines loaded from YAML for characters of all encoded lengths; all strings over the character and its look-alikes up to a bound, runs of lengths around powers of two up to 65537, random texts, plainly and traced; non-trivial: distinct (character, text) with a collapsed run",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c07,
    },
    Prop {
        id: "C08",
        level: "exploration",
        rule: "space stage loaded from YAML; all strings over a ten-character alphabet up to a bound, every scalar value beside a space, random and large texts, plainly and traced; non-trivial: distinct text with a removed space",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c08,
    },
    Prop {
        id: "C09",
        level: "exploration",
        rule: "trim stage loaded from YAML; all strings over an eight-character alphabet up to a bound, every scalar value at the ends, random and large texts, plainly and traced; non-trivial: distinct text with a removed space",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c09,
    },
    Prop {
        id: "C10",
        level: "exploration",
        rule: "random rule sets that do not interfere, texts made of whole and broken sources, compared with leftmost single-pass replacement; arbitrary (overlapping, chained, nested) rule sets in three instances with different hash seeds, compared with one another; non-trivial: distinct (rules, text) with a replacement",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c10,
    },
    Prop {
        id: "C11",
        level: "exploration",
        rule: "traced runs of pipelines with conversion, repetition and trim stages among others; every reported edit is located in its stage's input by bytes and by characters, order and disjointness checked, and the edits applied; non-trivial: distinct (pipeline, text) with an edit that changes something",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c11,
    },
    Prop {
        id: "C12",
        level: "exploration",
        rule: "random histories of builder calls (constructors, use_preset, use_neologdn, add_table, loaded YAML and CSV files) with normalisations between the calls, up to 1030 stages; text after every stage compared with the composition of reference models; non-trivial: distinct (history, text) whose result differs from the text",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c12,
    },
    Prop {
        id: "C25",
        level: "exploration",
        rule: "hostile texts (controls, noncharacters, all planes, empty, up to 10^6 characters and more) times random pipelines, interfering ligatures included, plainly and traced; no panic, abort or hang, and the length bound; non-trivial: distinct (pipeline, text)",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c25,
    },
];

fn eq(what: &str, got: &str, want: &str) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(diff(what, got, want))
    }
}

/// Plain and traced result against the expected one.
pub fn both(c: &Chanoma, t: &str, want: &str) -> Result<bool, String> {
    eq("plain run", &c.normalize(t), want)?;
    eq("traced run", c.normalize_with_positions(t).text(), want)?;
    Ok(want != t)
}

// ---------------------------------------------------------------- C01

struct Logger;
static LOGGED: AtomicU64 = AtomicU64::new(0);
static LEVEL: AtomicUsize = AtomicUsize::new(0);

impl log::Log for Logger {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() as usize <= LEVEL.load(Relaxed)
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let s = format!("{}", r.args());
            LOGGED.fetch_add(1 + (s.len() as u64 & 0), Relaxed);
        }
    }
    fn flush(&self) {}
}

static LOGGER: Logger = Logger;
const LEVELS: [log::LevelFilter; 6] = [
    log::LevelFilter::Off,
    log::LevelFilter::Error,
    log::LevelFilter::Warn,
    log::LevelFilter::Info,
    log::LevelFilter::Debug,
    log::LevelFilter::Trace,
];

fn set_level(l: log::LevelFilter) {
    LEVEL.store(l as usize, Relaxed);
    log::set_max_level(l);
}

/// Plain and traced at every log level.
fn at_levels(c: &Chanoma, t: &str) -> Result<bool, String> {
    set_level(log::LevelFilter::Off);
    let plain = c.normalize(t);
    eq("traced run (log off) against plain run", c.normalize_with_positions(t).text(), &plain)?;
    for l in LEVELS {
        set_level(l);
        let g = crate::ctx::guard(|| c.normalize(t));
        set_level(log::LevelFilter::Off);
        let g = g.map_err(|e| format!("at log level {}: {}", l, e))?;
        eq(&format!("plain run at log level {} against log off", l), &g, &plain)?;
    }
    set_level(log::LevelFilter::Trace);
    let g = crate::ctx::guard(|| c.normalize_with_positions(t).text().to_string());
    set_level(log::LevelFilter::Off);
    eq("traced run at log level trace", &g?, &plain)?;
    Ok(plain != t)
}

fn c01(ctx: &mut Ctx) -> R {
    log::set_logger(&LOGGER).unwrap();
    let pipes = ctx.budget(6000, 60000);
    let per = 14;
    for k in 0..pipes {
        let p = match k {
            0 => Pipe { ops: vec![], direct: false },
            _ if k % 100 == 50 => cfg::long(&mut ctx.rng),
            _ => cfg::pipe(&mut ctx.rng),
        };
        if p.ops.len() > 250 {
            ctx.event("pipelines of more than 250 stages", 1);
        }
        // the configuration is loaded at some level, too
        let l = *ctx.rng.pick(&LEVELS);
        set_level(l);
        let c = match p.build(ctx) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", p.describe(), e))),
        };
        set_level(log::LevelFilter::Off);
        let focus = p.focus();
        let h = p.hash();
        let mut prev = String::new();
        for _ in 0..per {
            let t = gen::next(&mut ctx.rng, &focus, &prev);
            ctx.text(h, &|| p.describe(), &t, &|t| at_levels(&c, t))?;
            ctx.event("runs compared", 8);
            prev = t;
        }
        if p.ops.is_empty() {
            ctx.event("pipelines without stages", 1);
        }
    }
    // rules that interfere, contradicting and longer entries
    for _ in 0..ctx.budget(1500, 20000) {
        let y = cfg::wild(&mut ctx.rng);
        let c = match load_content(ctx, "yaml", &y) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", y, e))),
        };
        let focus = cfg::wild_focus(&y);
        let h = fnv(&[y.as_bytes()]);
        let mut prev = String::new();
        for _ in 0..per {
            let t = gen::next(&mut ctx.rng, &focus, &prev);
            ctx.text(h, &|| y.clone(), &t, &|t| at_levels(&c, t))?;
            prev = t;
        }
        ctx.event("configurations with interfering rules", 1);
    }
    // large texts, few
    for k in 0..ctx.budget(400, 6000) {
        let p = if k % 4 == 0 {
            cfg::pipe(&mut ctx.rng)
        } else {
            cfg::single(&mut ctx.rng, k)
        };
        let c = match p.build(ctx) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", p.describe(), e))),
        };
        let t = if k % 3 == 0 { gen::big(&mut ctx.rng, &p.focus(), 70000) } else { gen::scaled(&mut ctx.rng, &p.focus(), 70000) };
        ctx.text(p.hash(), &|| p.describe(), &t, &|t| {
            let plain = c.normalize(t);
            eq("traced run", c.normalize_with_positions(t).text(), &plain)?;
            set_level(log::LevelFilter::Debug);
            let g = crate::ctx::guard(|| c.normalize(t));
            set_level(log::LevelFilter::Off);
            eq("plain run at log level debug", &g?, &plain)?;
            Ok(plain != t)
        })?;
        ctx.event("large texts", 1);
    }
    let n = LOGGED.load(Relaxed);
    ctx.event("log messages formatted", n);
    Ok(())
}

// ---------------------------------------------------------------- C02

/// One table by every way of giving it.
fn table_instances(ctx: &mut Ctx, p: &[(char, char)]) -> Result<Vec<(&'static str, Chanoma)>, String> {
    let mut v = Vec::new();
    v.push(("from_table", Chanoma::from_table(table_of(p))));
    let mut c = Chanoma::new();
    c.add_table(table_of(p));
    v.push(("add_table", c));
    let f = FileCfg { stages: vec![Stage::Conv(p.to_vec())], items: vec![] };
    v.push(("yaml stage", load_content(ctx, "yaml", &f.yaml())?));
    let f = FileCfg { stages: vec![], items: p.to_vec() };
    v.push(("yaml items", load_content(ctx, "yml", &f.yaml())?));
    v.push(("csv", load_content(ctx, "csv", &csv_of(p))?));
    let mut b = TableBuilder::new();
    b.add_corr(&table_of(p).corr());
    v.push(("builder", Chanoma::from_table(b.build())));
    Ok(v)
}

/// Stages with every number of parameters up to some hundreds, over texts that need all of them.
fn every_size(ctx: &mut Ctx, mk: fn(&mut Rng, &[char]) -> Stage) -> R {
    let m = Models::new();
    for (k, n) in super::tables::sizes().enumerate() {
        if !ctx.mine(k) {
            continue;
        }
        let base = *ctx.rng.pick(&[0x4e00u32, 0xac00, 0x3400, 0x20000, 0x10000]);
        let step = *ctx.rng.pick(&[1u32, 3, 7]);
        let size = if base == 0xac00 { 11000 } else { 5000.max(n as u32 + 1) };
        let mut chars: Vec<char> = (0..n as u32).filter_map(|i| char::from_u32(base + (i * step) % size)).collect();
        chars.dedup();
        let mut seen = HashSet::new();
        chars.retain(|c| seen.insert(*c));
        let s = mk(&mut ctx.rng, &chars);
        let h = fnv(&[format!("{:?}", s).as_bytes()]);
        let c = match &s {
            Stage::Conv(p) if k % 2 == 0 => Chanoma::from_table(table_of(p)),
            _ => one_stage(ctx, &s)?,
        };
        let pipe = Pipe { ops: vec![Op::Yaml(FileCfg { stages: vec![s.clone()], items: vec![] })], direct: true };
        for _ in 0..3 {
            let mut t = pipe.all_of_it(&mut ctx.rng);
            t.push_str("abcあいう");
            ctx.text(h, &|| stage_desc(&s), &t, &|t| both(&c, t, &s.apply(&m, t)))?;
        }
        ctx.event("numbers of parameters", 1);
    }
    Ok(())
}

fn c02(ctx: &mut Ctx) -> R {
    every_size(ctx, |r, v| {
        let mut w: Vec<char> = v.to_vec();
        match r.below(3) {
            0 => w.reverse(),
            1 => w.iter_mut().for_each(|c| *c = 'a'),
            _ => w.rotate_left(1.min(v.len())),
        }
        Stage::Conv(v.iter().copied().zip(w).collect())
    })?;
    let tables = ctx.budget(16000, 200000);
    for k in 0..tables {
        let mut p = cfg::pairs(&mut ctx.rng, if k % 40 == 0 { 3000 } else { 100 });
        match k % 8 {
            1 => {
                // a permutation of a small set
                let src: Vec<char> = p.iter().map(|x| x.0).collect();
                let mut dst = src.clone();
                ctx.rng.shuffle(&mut dst);
                p = src.into_iter().zip(dst).collect();
            }
            2 => {
                // a chain
                let n = ctx.rng.range(2, 40);
                let mut s: Vec<char> = Vec::new();
                for _ in 0..n {
                    let c = gen::any(&mut ctx.rng);
                    if !s.contains(&c) {
                        s.push(c);
                    }
                }
                let cyc = ctx.rng.chance(1, 2);
                p = s.windows(2).map(|w| (w[0], w[1])).collect();
                if cyc && s.len() > 1 {
                    p.push((s[s.len() - 1], s[0]));
                }
                ctx.rng.shuffle(&mut p);
            }
            _ => {}
        }
        let inst = match table_instances(ctx, &p) {
            Ok(i) => i,
            Err(e) => return Err(ctx.violation(&format!("table {}\n\n{}", pairs_str(&p), e))),
        };
        let map = map_of(&p);
        let focus: Vec<char> = p.iter().flat_map(|(a, b)| [*a, *b]).collect();
        let h = fnv(&[format!("{:?}", p).as_bytes()]);
        ctx.event("table entries", p.len() as u64);
        let mut prev = String::new();
        for j in 0..18 {
            let (name, c) = &inst[(j + k) % inst.len()];
            let t = if j == 3 {
                let mut v: Vec<char> = p.iter().map(|x| x.0).collect();
                ctx.rng.shuffle(&mut v);
                v.into_iter().collect()
            } else {
                gen::next(&mut ctx.rng, &focus, &prev)
            };
            ctx.text(h, &|| format!("table {} given by {}", pairs_str(&p), name), &t, &|t| {
                both(c, t, &model::convert(t, &map))
            })?;
            // joined texts
            let a = prev.clone();
            let b = t.clone();
            ctx.judge(
                &|| format!("table {} given by {}; joining {} and {}", pairs_str(&p), name, show(&a), show(&b)),
                || {
                    let ab = c.normalize(&format!("{}{}", a, b));
                    eq("joined text", &ab, &format!("{}{}", c.normalize(&a), c.normalize(&b)))
                },
            )?;
            ctx.event("joined texts", 1);
            prev = t;
        }
    }
    for k in 0..ctx.budget(120, 400) {
        let p = cfg::pairs(&mut ctx.rng, 2000);
        let c = Chanoma::from_table(table_of(&p));
        let map = map_of(&p);
        let focus: Vec<char> = p.iter().flat_map(|(a, b)| [*a, *b]).collect();
        let t = gen::big(&mut ctx.rng, &focus, 300000);
        let h = fnv(&[format!("{:?}", p).as_bytes()]);
        let oracle = |t: &str| both(&c, t, &model::convert(t, &map));
        ctx.text(h, &|| format!("table {}", pairs_str(&p)), &t, &oracle)?;
        ctx.event("large texts", 1);
        if k == 0 {
            huge_texts(ctx, 8, true, h, &|| format!("table {}", pairs_str(&p)), &focus, &oracle)?;
        }
    }
    if ctx.mine(0) {
        // a table over very many characters: every scalar of a range to its successor, and to one character
        let n = 0x110000u32;
        let all: Vec<char> = (0..n).filter_map(char::from_u32).collect();
        for kind in 0..2 {
            let p: Vec<(char, char)> = (0..all.len())
                .map(|i| (all[i], if kind == 0 { all[(i + 1) % all.len()] } else { '\u{1f600}' }))
                .collect();
            let c = Chanoma::from_table(table_of(&p));
            let map = map_of(&p);
            let t: String = all.iter().collect();
            ctx.text(kind, &|| format!("table over {} characters (kind {})", all.len(), kind), &t, &|t| {
                eq("plain run", &c.normalize(t), &model::convert(t, &map))?;
                Ok(true)
            })?;
            ctx.event("entries of the whole-range table", p.len() as u64);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03(ctx: &mut Ctx) -> R {
    let m = Models::new();
    let mut b = TableBuilder::new();
    b.preset();
    let mut n = Chanoma::new();
    n.use_preset();
    let mut b2 = Table::new().builder();
    b2.preset();
    let mut a = Chanoma::default();
    a.add_table(b2.build());
    // beside stages that do nothing to the texts or nothing more
    let mut e = Chanoma::from_table(table_of(&[]));
    e.use_preset();
    let mut twice = Chanoma::preset();
    twice.use_preset();
    let mut before = Chanoma::preset();
    before.add_table(table_of(&[]));
    let f = FileCfg { stages: vec![Stage::Elim(vec![])], items: vec![] };
    let mut loaded = match load_content(ctx, "yaml", &f.yaml()) {
        Ok(c) => c,
        Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", f.yaml(), e))),
    };
    loaded.use_preset();
    let inst = [
        ("preset()", Chanoma::preset()),
        ("from_table(empty).use_preset()", e),
        ("preset().use_preset()", twice),
        ("preset().add_table(empty)", before),
        ("loaded file with stages that do nothing, use_preset()", loaded),
        ("new().use_preset()", n),
        ("from_table(builder.preset())", Chanoma::from_table(b.build())),
        ("add_table(Table::new().builder().preset())", a),
    ];
    let ok = |c: &Chanoma, t: &str| -> Result<bool, String> {
        let want = m.preset(t);
        both(c, t, &want)?;
        eq("second application", &c.normalize(&want), &want)?;
        Ok(want != t)
    };
    let sources: Vec<char> = model::preset_pairs().iter().map(|x| x.0).collect();
    // every scalar value
    for (i, c) in gen::scalars().enumerate() {
        if !ctx.mine(i / 64) {
            continue;
        }
        let (name, inst) = &inst[(i / 7) % inst.len()];
        let t = c.to_string();
        let want = m.preset(&t);
        let got = crate::ctx::guard(|| inst.normalize(&t));
        if got.as_deref() != Ok(&want[..]) {
            ctx.text(0, &|| format!("{} on single characters", name), &t, &|t| ok(inst, t))?;
        }
        ctx.evals += 1;
        if want != t {
            ctx.key(&[t.as_bytes()]);
        }
        if i % 8 == 0 || sources.contains(&c) || (c as u32) < 0x400 {
            for t in [format!("{}{}", c, c), format!("ｱ{}Ｂ", c), format!("{}ー{}　", c, c), format!("漢{}", c)] {
                ctx.text(0, &|| name.to_string(), &t, &|t| ok(inst, t))?;
            }
        }
    }
    if ctx.shard == 0 {
        ctx.event("scalar values", 0x110000 - 2048);
    }
    // pairs
    let others: Vec<char> = sources
        .iter()
        .copied()
        .chain(gen::MARKS.iter().copied())
        .chain(gen::DASHES.iter().copied())
        .chain(gen::TILDES.iter().copied())
        .chain(gen::SPACES.iter().copied())
        .chain(model::preset_pairs().iter().map(|x| x.1))
        .collect();
    for (i, a) in others.iter().enumerate() {
        if !ctx.mine(i) {
            continue;
        }
        for b in &others {
            let t = format!("{}{}", a, b);
            let (name, inst) = &inst[i % inst.len()];
            ctx.text(0, &|| name.to_string(), &t, &|t| ok(inst, t))?;
        }
    }
    let mut prev = String::new();
    for k in 0..ctx.budget(60000, 3000000) {
        let (name, inst) = &inst[k % inst.len()];
        let t = gen::next(&mut ctx.rng, &others, &prev);
        ctx.text(0, &|| name.to_string(), &t, &|t| ok(inst, t))?;
        prev = t;
    }
    for k in 0..ctx.budget(120, 600) {
        let (name, inst) = &inst[k % inst.len()];
        let t = gen::big(&mut ctx.rng, &others, 300000);
        ctx.text(0, &|| name.to_string(), &t, &|t| ok(inst, t))?;
        ctx.event("large texts", 1);
    }
    for (i, (name, inst)) in inst.iter().enumerate() {
        for k in 0..2 {
            if ctx.mine(2 * i + k) {
                let mut all: Vec<char> = gen::scalars().collect();
                if k == 1 {
                    all.reverse();
                }
                let all: String = all.into_iter().collect();
                ctx.text(0, &|| name.to_string(), &all, &|t| ok(inst, t))?;
                ctx.event("texts of all scalar values", 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04, C05

const CRITICAL: &[char] = &[
    'ー', '~', '〜', ' ', '　', 'a', '１', 'か', 'ﾊ', '゛', 'ﾞ', '゜', '－', 'ｰ', 'あ', 'う',
];

fn neo_instances(ctx: &mut Ctx) -> Result<Vec<(&'static str, Chanoma)>, String> {
    let mut n = Chanoma::new();
    n.use_neologdn();
    Ok(vec![
        ("neologdn()", Chanoma::neologdn()),
        ("new().use_neologdn()", n),
        ("neologdn stage of a YAML file", load_content(ctx, "yaml", "modifiers:\n  neologdn:\n")?),
    ])
}

fn neo_focus() -> Vec<char> {
    let mut v: Vec<char> = CRITICAL.to_vec();
    v.extend(CRITICAL);
    v.extend(gen::DASHES);
    v.extend(gen::TILDES);
    v.extend(gen::MARKS);
    v.extend("かさたはうカサタハウほホとトﾊﾋｶｳﾂ".chars());
    v.extend("abzAZ09 ＡＺ０９＝　".chars());
    v
}

/// The workload of both neologdn properties.
fn neo_workload(ctx: &mut Ctx, oracle: &dyn Fn(&Chanoma, &str) -> Result<bool, String>) -> R {
    let inst = match neo_instances(ctx) {
        Ok(i) => i,
        Err(e) => return Err(ctx.violation(&e)),
    };
    // all strings over the critical alphabet
    let max = if ctx.thorough { 5 } else { 4 };
    let total = gen::count_strings(CRITICAL.len(), max);
    for i in 0..total {
        if ctx.mine(i) {
            let t = gen::nth_string(CRITICAL, i);
            let (name, c) = &inst[(i / 5) % inst.len()];
            ctx.text(0, &|| name.to_string(), &t, &|t| oracle(c, t))?;
        }
    }
    ctx.event("strings over the critical alphabet", (total / ctx.nshards) as u64);
    // every scalar value in contexts
    for (i, x) in gen::scalars().enumerate() {
        // kana supplements and emoji are not rare
        let rare = (x as u32) >= 0x10000 && !matches!(x as u32, 0x1aff0..=0x1b16f | 0x1f000..=0x1faff);
        if !ctx.mine(i / 16) || (rare && !ctx.thorough && ctx.rng.below(8) != 0) {
            continue;
        }
        let (name, c) = &inst[i % inst.len()];
        for t in [
            format!("{}", x),
            format!("ー{}ー", x),
            format!("a {} b", x),
            format!("a{} b {}1", x, x),
            format!("カ{}゛", x),
            format!("{}{}", x, x),
            format!("{}゛", x),
            format!("{}ﾟー", x),
            format!(" {} ", x),
        ] {
            ctx.text(0, &|| name.to_string(), &t, &|t| oracle(c, t))?;
        }
        ctx.event("scalar values in nine contexts", 1);
    }
    // every kana with every mark, both widths, with something deleted in between
    let kana: Vec<char> = (0x3041..=0x30ffu32).chain(0x31f0..=0x31ff).chain(0xff61..=0xff9f).filter_map(char::from_u32).collect();
    for (i, k) in kana.iter().enumerate() {
        if !ctx.mine(i) {
            continue;
        }
        let (name, c) = &inst[i % inst.len()];
        for mk in gen::MARKS {
            for mid in ["", "~", " ", "ー", "〜～"] {
                for (pre, post) in [("", ""), ("ー", "ー"), ("か", "゛"), ("a ", " b")] {
                    let t = format!("{}{}{}{}{}", pre, k, mid, mk, post);
                    ctx.text(0, &|| name.to_string(), &t, &|t| oracle(c, t))?;
                }
            }
        }
    }
    let focus = neo_focus();
    let mut prev = String::new();
    for k in 0..ctx.budget(100000, 4000000) {
        let (name, c) = &inst[k % inst.len()];
        let t = gen::next(&mut ctx.rng, &focus, &prev);
        ctx.text(0, &|| name.to_string(), &t, &|t| oracle(c, t))?;
        prev = t;
    }
    for k in 0..ctx.budget(56, 600) {
        let (name, c) = &inst[k % inst.len()];
        let t = gen::big(&mut ctx.rng, &focus, 140000);
        ctx.text(0, &|| name.to_string(), &t, &|t| oracle(c, t))?;
        ctx.event("large texts", 1);
    }
    let (name, c) = &inst[0];
    huge_texts(ctx, 8, true, 0, &|| name.to_string(), &focus, &|t| oracle(c, t))
}

fn normal_form(m: &Models, t: &str) -> Result<(), String> {
    let v: Vec<char> = t.chars().collect();
    let alnum = |c: char| c.is_ascii_alphanumeric();
    for (i, &c) in v.iter().enumerate() {
        let bad = |why: &str| Err(format!("{} at character {} of the result {}", why, i, show(t)));
        match c {
            '＂' | '＇' | '＝' => {}
            '\u{ff01}'..='\u{ff5e}' => return bad("full-width ASCII form"),
            '\u{ff61}'..='\u{ff9f}' => return bad("half-width katakana or mark"),
            '　' => return bad("ideographic space"),
            ' ' => {
                if i == 0 || i + 1 == v.len() || !alnum(v[i - 1]) || !alnum(v[i + 1]) {
                    return bad("space that is not alone between two ASCII letters or digits");
                }
            }
            _ => {}
        }
        if model::TILDES.contains(&c) {
            return bad("tilde");
        }
        if model::HYPHENS.contains(&c) || model::CHOONPUS.contains(&c) {
            return bad("hyphen or long vowel variant");
        }
        if i + 1 < v.len() {
            if c == 'ー' && v[i + 1] == 'ー' {
                return bad("two long vowel marks");
            }
            if m.joinable(c, v[i + 1]) {
                return bad("kana and mark not joined");
            }
        }
    }
    Ok(())
}

fn c04(ctx: &mut Ctx) -> R {
    let m = Models::new();
    neo_workload(ctx, &|c, t| {
        let once = c.normalize(t);
        normal_form(&m, &once)?;
        let twice = c.normalize(&once);
        eq("second normalisation", &twice, &once)?;
        Ok(once != t)
    })
}

fn c05(ctx: &mut Ctx) -> R {
    let m = Models::new();
    neo_workload(ctx, &|c, t| both(c, t, &m.neologdn(t)))
}

// ---------------------------------------------------------------- C06 - C09

fn one_stage(ctx: &mut Ctx, s: &Stage) -> Result<Chanoma, crate::ctx::Stop> {
    let f = FileCfg { stages: vec![s.clone()], items: vec![] };
    let y = f.yaml();
    load_content(ctx, "yaml", &y).map_err(|e| ctx.violation(&format!("{}\n\n{}", y, e)))
}

fn stage_desc(s: &Stage) -> String {
    let mut o = String::new();
    s.yaml(&mut o);
    format!("stage from YAML:\n{}", crate::ctx::clip(&o, 1500))
}

/// All strings over `alpha` up to `max`, spread over the shards.
fn all_strings(ctx: &mut Ctx, s: &Stage, alpha: &[char], max: usize, split: bool, oracle: &dyn Fn(&str) -> Result<bool, String>) -> R {
    let total = gen::count_strings(alpha.len(), max);
    let h = fnv(&[format!("{:?}", s).as_bytes()]);
    for i in 0..total {
        if split && !ctx.mine(i) {
            continue;
        }
        let t = gen::nth_string(alpha, i);
        ctx.text(h, &|| stage_desc(s), &t, oracle)?;
        ctx.event("strings enumerated", 1);
    }
    Ok(())
}

fn c06(ctx: &mut Ctx) -> R {
    every_size(ctx, |_, v| Stage::Elim(v.to_vec()))?;
    for k in 0..ctx.budget(12000, 200000) {
        let list = cfg::chars(&mut ctx.rng, if k % 20 == 0 { 1500 } else { 60 });
        let s = Stage::Elim(list.clone());
        let c = one_stage(ctx, &s)?;
        let set: HashSet<char> = list.iter().copied().collect();
        let oracle = |t: &str| both(&c, t, &model::eliminate(t, &set));
        let h = fnv(&[format!("{:?}", s).as_bytes()]);
        let mut focus = list.clone();
        for _ in 0..list.len().min(20) + 2 {
            let x = if list.is_empty() { 'a' } else { *ctx.rng.pick(&list) };
            focus.push(gen::near(&mut ctx.rng, x));
        }
        if k % 8 == 0 {
            let mut alpha: Vec<char> = (0..3).map(|_| *ctx.rng.pick(&focus)).collect();
            alpha.push('あ');
            alpha.dedup();
            all_strings(ctx, &s, &alpha, 5, false, &oracle)?;
        }
        let mut prev = String::new();
        for j in 0..30 {
            let t = if j == 3 {
                let mut v = list.clone();
                ctx.rng.shuffle(&mut v);
                v.into_iter().collect()
            } else {
                gen::next(&mut ctx.rng, &focus, &prev)
            };
            ctx.text(h, &|| stage_desc(&s), &t, &oracle)?;
            prev = t;
        }
        if k % 100 == 0 {
            let t = gen::big(&mut ctx.rng, &focus, 140000);
            ctx.text(h, &|| stage_desc(&s), &t, &oracle)?;
            ctx.event("large texts", 1);
        }
        if k == 1 {
            huge_texts(ctx, 8, true, h, &|| stage_desc(&s), &focus, &oracle)?;
        }
        ctx.event("lists", 1);
    }
    if ctx.mine(1) {
        // nearly everything listed
        let n = if ctx.thorough { 0x110000 } else { 0x33000 };
        let keep = ctx.rng.range(2, 50);
        let list: Vec<char> = (0..n).filter(|i| (*i as usize) % keep != 0).filter_map(char::from_u32).collect();
        let s = Stage::Elim(list.clone());
        let c = one_stage(ctx, &s)?;
        let set: HashSet<char> = list.iter().copied().collect();
        let t: String = (0..n).filter_map(char::from_u32).collect();
        ctx.text(9, &|| format!("all characters below {:#x} listed but every {}th", n, keep), &t, &|t| both(&c, t, &model::eliminate(t, &set)))?;
        ctx.event("largest list", list.len() as u64);
    }
    // every scalar value as the only listed one (thorough: all; quick: a sample)
    let every = if ctx.thorough { 1 } else { 11 };
    single_scalars(ctx, every, |x| Stage::Elim(vec![x]), |t, x| t.chars().filter(|c| *c != x).collect())
}

fn single_scalars(ctx: &mut Ctx, every: usize, mk: fn(char) -> Stage, want: fn(&str, char) -> String) -> R {
    let off = ctx.rng.below(every);
    for (i, x) in gen::scalars().enumerate() {
        // letters, marks, symbols, widths and emoji: all; ideographs, Hangul, private use, the rest: some
        let common = matches!(x as u32, 0..=0x33ff | 0xf900..=0xffff | 0x1f000..=0x1ffff);
        if !ctx.mine(i / every) || (i % every != off && !common) {
            continue;
        }
        let s = mk(x);
        let c = one_stage(ctx, &s)?;
        let n = gen::near(&mut ctx.rng, x);
        let t = format!("{x}{x}{n}{x}{x}{x}a{x}あ{n}{n}{x}{x}");
        ctx.text(x as u64, &|| stage_desc(&s), &t, &|t| both(&c, t, &want(t, x)))?;
        ctx.event("characters configured", 1);
    }
    Ok(())
}

fn c07(ctx: &mut Ctx) -> R {
    let special = ['ー', 'a', ' ', 'é', '\u{1f600}', '゛', '\0', '\u{10ffff}', '、', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\n', '"', ':'];
    for (j, x) in special.iter().enumerate() {
        if !ctx.mine(j) {
            continue;
        }
        let s = Stage::Reduce(*x);
        let c = one_stage(ctx, &s)?;
        let oracle = |t: &str| both(&c, t, &model::reduce(t, *x));
        let n1 = char::from_u32(*x as u32 ^ 1).unwrap_or('z');
        let alpha = [*x, n1, 'あ', '\u{1f601}'];
        let max = if ctx.thorough { 9 } else { 7 };
        all_strings(ctx, &s, &alpha, max, false, &oracle)?;
        let two = [*x, n1];
        all_strings(ctx, &s, &two, if ctx.thorough { 17 } else { 13 }, false, &oracle)?;
        // long runs at the start, inside and at the end
        for l in [1, 2, 3, 127, 128, 255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 200000] {
            let run: String = std::iter::repeat(*x).take(l).collect();
            let other: String = std::iter::repeat(n1).take(3).collect();
            for t in [
                run.clone(),
                format!("{}{}", run, other),
                format!("{}{}", other, run),
                format!("{}{}{}{}", other, run, other, run),
                format!("{}{}{}", x, other, run),
            ] {
                ctx.text(*x as u64, &|| stage_desc(&s), &t, &oracle)?;
            }
            ctx.event("run lengths", 1);
        }
    }
    for k in 0..ctx.budget(12000, 200000) {
        let s = cfg::stage(&mut ctx.rng, 2);
        let x = match s {
            Stage::Reduce(x) => x,
            _ => unreachable!(),
        };
        let c = one_stage(ctx, &s)?;
        let oracle = |t: &str| both(&c, t, &model::reduce(t, x));
        let mut focus = vec![x; 4];
        for _ in 0..4 {
            focus.push(gen::near(&mut ctx.rng, x));
        }
        focus.push(gen::any(&mut ctx.rng));
        let mut prev = String::new();
        for _ in 0..20 {
            let t = gen::next(&mut ctx.rng, &focus, &prev);
            ctx.text(x as u64, &|| stage_desc(&s), &t, &oracle)?;
            prev = t;
        }
        if k % 60 == 0 {
            let t = gen::big(&mut ctx.rng, &focus, 140000);
            ctx.text(x as u64, &|| stage_desc(&s), &t, &oracle)?;
            ctx.event("large texts", 1);
        }
        if k == 1 {
            huge_texts(ctx, 8, true, x as u64, &|| stage_desc(&s), &focus, &oracle)?;
        }
    }
    let every = if ctx.thorough { 1 } else { 11 };
    single_scalars(ctx, every, Stage::Reduce, |t, x| model::reduce(t, x))
}

fn fixed_stage(ctx: &mut Ctx, s: Stage, alpha: &[char], max: (usize, usize), focus: &[char], ctxs: fn(char) -> Vec<String>, want: fn(&str) -> String) -> R {
    let c = one_stage(ctx, &s)?;
    let oracle = |t: &str| both(&c, t, &want(t));
    let m = if ctx.thorough { max.1 } else { max.0 };
    all_strings(ctx, &s, alpha, m, true, &oracle)?;
    for (i, x) in gen::scalars().enumerate() {
        if !ctx.mine(i / 16) {
            continue;
        }
        for t in ctxs(x) {
            ctx.text(0, &|| stage_desc(&s), &t, &oracle)?;
        }
        ctx.event("scalar values in contexts", 1);
    }
    let mut prev = String::new();
    for _ in 0..ctx.budget(120000, 4000000) {
        let t = gen::next(&mut ctx.rng, focus, &prev);
        ctx.text(0, &|| stage_desc(&s), &t, &oracle)?;
        prev = t;
    }
    for _ in 0..ctx.budget(32, 800) {
        let t = gen::big(&mut ctx.rng, focus, 300000);
        ctx.text(0, &|| stage_desc(&s), &t, &oracle)?;
        ctx.event("large texts", 1);
    }
    huge_texts(ctx, 8, true, 0, &|| stage_desc(&s), focus, &oracle)
}

/// Texts of a million characters and more: random ones, and for the first of the characters in question one run of it
/// alone, at the start, at the end and inside, and between others.
fn huge_texts(ctx: &mut Ctx, n: usize, split: bool, h: u64, desc: &dyn Fn() -> String, focus: &[char], oracle: &dyn Fn(&str) -> Result<bool, String>) -> R {
    for _ in 0..ctx.budget(n, 10 * n) {
        let l = *ctx.rng.pick(if ctx.thorough { &[1_000_000, 3_000_000, 8_000_000][..] } else { &[1_000_000][..] });
        let t = gen::huge(&mut ctx.rng, focus, l);
        ctx.text(h, desc, &t, oracle)?;
        ctx.event("texts of a million characters", 1);
    }
    if let Some(&c) = focus.first() {
        let l = if ctx.thorough { 4_000_000 } else { 1_000_000 };
        let other = if c == 'x' { 'y' } else { 'x' };
        for i in 0..5 {
            if split && !ctx.mine(i) {
                continue;
            }
            let run: String = std::iter::repeat(c).take(l).collect();
            let t = match i {
                0 => run,
                1 => format!("{}{}", run, other),
                2 => format!("{}{}", other, run),
                3 => format!("{}{}{}", other, run, other),
                _ => (0..l).map(|k| if k % 2 == 0 { c } else { other }).collect(),
            };
            ctx.text(h, desc, &t, oracle)?;
            ctx.event("texts of a million characters", 1);
        }
    }
    Ok(())
}

fn c08(ctx: &mut Ctx) -> R {
    let mut focus: Vec<char> = vec![' ', ' ', ' ', ' ', 'a', 'Z', '0', '9', 'z', 'A', 'あ', '-', 'é', 'Ａ', '１'];
    focus.extend(gen::SPACES);
    fixed_stage(
        ctx,
        Stage::Space,
        &[' ', 'a', 'Z', '9', 'あ', '\t', '　', '!', '\u{a0}', '\u{1f600}'],
        (5, 6),
        &focus,
        |x| vec![format!("a {} b", x), format!("{} a{}  ", x, x), format!("1{}  {}", x, x)],
        model::spaces,
    )
}

fn c09(ctx: &mut Ctx) -> R {
    let mut focus: Vec<char> = vec![' ', ' ', ' ', ' ', ' ', 'a', 'あ', '　'];
    focus.extend(gen::SPACES);
    fixed_stage(
        ctx,
        Stage::Trim,
        &[' ', 'a', 'あ', '\t', '\n', '　', '\u{a0}', '\u{1f600}'],
        (5, 7),
        &focus,
        |x| vec![format!(" {} ", x), format!("{}  a {}", x, x), format!("  {} {}  ", x, x)],
        model::trim,
    )
}

// ---------------------------------------------------------------- C10

fn wild_rules(r: &mut Rng) -> Vec<(String, String)> {
    let k = r.range(2, 4);
    let alpha: Vec<char> = (0..k).map(|_| gen::any(r)).collect();
    let n = if r.chance(1, 20) { r.range(9, 150) } else { r.range(2, 8) };
    let mut seen = HashSet::new();
    let mut v = Vec::new();
    for _ in 0..n {
        let l = if r.chance(1, 12) { r.range(1, 40) } else { r.range(1, 4) };
        let f: String = (0..l).map(|_| *r.pick(&alpha)).collect();
        let l = r.below(4);
        let t: String = (0..l).map(|_| *r.pick(&alpha)).collect();
        if seen.insert(f.clone()) {
            v.push((f, t));
        }
    }
    v
}

/// One rule over few characters: its occurrences may overlap, its target may hold or complete others.
fn single_rule(r: &mut Rng) -> (String, String) {
    let k = r.range(1, 3);
    let alpha: Vec<char> = (0..k).map(|_| gen::any(r)).collect();
    let l = if r.chance(1, 15) { r.range(1, 40) } else { r.range(1, 4) };
    let f: String = (0..l).map(|_| *r.pick(&alpha)).collect();
    let t: String = match r.below(4) {
        0 => f.chars().skip(1).collect(),
        1 => f.repeat(2),
        _ => (0..r.below(5)).map(|_| *r.pick(&alpha)).collect(),
    };
    (f, t)
}

/// A text made of whole sources, broken sources and other characters.
fn rule_text(r: &mut Rng, rules: &[(String, String)], focus: &[char]) -> String {
    let mut o = String::new();
    let n = if r.chance(1, 12) { gen::edge_len(r, 600) } else { r.below(14) };
    for _ in 0..n {
        if rules.is_empty() {
            o.push(gen::any(r));
            continue;
        }
        let f: Vec<char> = r.pick(rules).0.chars().collect();
        match r.below(6) {
            0..=2 => o.extend(f),
            3 => o.extend(&f[..r.below(f.len())]),
            4 => o.extend(&f[r.below(f.len())..]),
            _ => o.push(gen::mixed(r, focus)),
        }
    }
    o
}

fn c10(ctx: &mut Ctx) -> R {
    every_size(ctx, |r, v| {
        let k = r.range(1, 4);
        Stage::Lig(v.chunks_exact(k).enumerate().map(|(i, x)| (x.iter().collect(), format!("<{}>", i))).collect())
    })?;
    for k in 0..ctx.budget(16000, 250000) {
        let mut rules = cfg::rules(&mut ctx.rng);
        if k % 16 == 3 {
            // the usual kind: a base and a mark
            rules = "かきくけこハヒフヘホ".chars().zip("がぎぐげごバビブベボ".chars()).map(|(a, b)| (format!("{}゛", a), b.to_string())).collect();
        }
        if k % 200 == 7 {
            // many rules
            rules = (0..800u32)
                .map(|i| (format!("{}{}", char::from_u32(0x4e00 + i).unwrap(), char::from_u32(0x6e00 + (i * 7) % 800).unwrap()), format!("<{}>", i)))
                .collect();
        }
        assert!(model::non_interfering(&rules) || rules.len() > 100);
        let s = Stage::Lig(rules.clone());
        let c = one_stage(ctx, &s)?;
        let h = fnv(&[format!("{:?}", s).as_bytes()]);
        let mut focus = Vec::new();
        s.focus(&mut focus);
        let oracle = |t: &str| both(&c, t, &model::ligature(t, &rules));
        ctx.event("rule sets without interference", 1);
        for j in 0..24 {
            let t = if j % 3 == 0 { gen::text(&mut ctx.rng, &focus) } else { rule_text(&mut ctx.rng, &rules, &focus) };
            ctx.text(h, &|| stage_desc(&s), &t, &oracle)?;
        }
        if k % 100 == 0 {
            let t = gen::big(&mut ctx.rng, &focus, 140000);
            ctx.text(h, &|| stage_desc(&s), &t, &oracle)?;
            ctx.event("large texts", 1);
        }
        if k == 1 {
            huge_texts(ctx, 8, true, h, &|| stage_desc(&s), &focus, &oracle)?;
        }
    }
    // one rule, whose occurrences may overlap and whose target may complete new ones
    for _ in 0..ctx.budget(6000, 100000) {
        let rules = vec![single_rule(&mut ctx.rng)];
        let (from, to) = rules[0].clone();
        let s = Stage::Lig(rules.clone());
        let c = one_stage(ctx, &s)?;
        let h = fnv(&[format!("{:?}", s).as_bytes()]);
        let mut focus = Vec::new();
        s.focus(&mut focus);
        ctx.event("single rules", 1);
        let oracle = |t: &str| both(&c, t, &t.replace(from.as_str(), &to));
        for _ in 0..10 {
            let t = rule_text(&mut ctx.rng, &rules, &focus);
            ctx.text(h, &|| stage_desc(&s), &t, &oracle)?;
        }
    }
    for _ in 0..ctx.budget(12000, 200000) {
        let rules = wild_rules(&mut ctx.rng);
        let s = Stage::Lig(rules.clone());
        let a = one_stage(ctx, &s)?;
        let b = one_stage(ctx, &s)?;
        // other maps created in between, and the rules written in another order
        let mut other = rules.clone();
        ctx.rng.shuffle(&mut other);
        let c = one_stage(ctx, &s)?;
        let d = one_stage(ctx, &Stage::Lig(other))?;
        let h = fnv(&[format!("{:?}", s).as_bytes()]);
        let mut focus = Vec::new();
        s.focus(&mut focus);
        ctx.event("arbitrary rule sets", 1);
        for _ in 0..10 {
            let t = rule_text(&mut ctx.rng, &rules, &focus);
            ctx.text(h, &|| stage_desc(&s), &t, &|t| {
                let x = a.normalize(t);
                eq("same call again", &a.normalize(t), &x)?;
                eq("second instance", &b.normalize(t), &x)?;
                eq("third instance", &c.normalize(t), &x)?;
                eq("instance with the rules written in another order", &d.normalize(t), &x)?;
                eq("traced run of the second instance", b.normalize_with_positions(t).text(), &x)?;
                Ok(x != t)
            })?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Edits,
    Other,
}

fn kinds(p: &Pipe) -> (Vec<Kind>, bool) {
    let mut v = Vec::new();
    let mut optional_last = false;
    for op in &p.ops {
        optional_last = false;
        match op {
            Op::Preset | Op::Table(_) | Op::Csv(_) => v.push(Kind::Edits),
            Op::Neologdn => v.push(Kind::Other),
            Op::Yaml(f) => {
                for s in &f.stages {
                    v.push(match s {
                        Stage::Conv(_) | Stage::Reduce(_) | Stage::Trim => Kind::Edits,
                        _ => Kind::Other,
                    });
                }
                v.push(Kind::Edits);
                optional_last = f.items.is_empty();
            }
        }
    }
    (v, optional_last)
}

struct Edit {
    from: String,
    to: String,
    byte: usize,
    blen: usize,
    ch: usize,
    clen: usize,
}

fn check_edits(input: &str, output: &str, edits: &[Edit]) -> Result<bool, String> {
    let chars: Vec<char> = input.chars().collect();
    let mut rebuilt_b = String::new();
    let mut rebuilt_c = String::new();
    let (mut pb, mut pc) = (0usize, 0usize);
    let mut changed = false;
    for (i, e) in edits.iter().enumerate() {
        let d = || {
            format!(
                "edit {} ({} -> {}, bytes {}+{}, characters {}+{}) in stage input {}",
                i,
                show(&e.from),
                show(&e.to),
                e.byte,
                e.blen,
                e.ch,
                e.clen,
                show(input)
            )
        };
        let end = e.byte.checked_add(e.blen).ok_or_else(|| format!("{}: overflow", d()))?;
        match input.get(e.byte..end) {
            Some(s) if s == e.from => {}
            Some(s) => return Err(format!("{}: the bytes there are {}", d(), show(s))),
            None => return Err(format!("{}: no such byte range", d())),
        }
        let cend = e.ch.checked_add(e.clen).ok_or_else(|| format!("{}: overflow", d()))?;
        match chars.get(e.ch..cend) {
            Some(s) if s.iter().collect::<String>() == e.from => {}
            Some(s) => return Err(format!("{}: the characters there are {}", d(), show(&s.iter().collect::<String>()))),
            None => return Err(format!("{}: no such character range", d())),
        }
        if e.byte < pb || e.ch < pc {
            return Err(format!("{}: before the end of the previous edit", d()));
        }
        rebuilt_b.push_str(&input[pb..e.byte]);
        rebuilt_b.push_str(&e.to);
        rebuilt_c.extend(&chars[pc..e.ch]);
        rebuilt_c.push_str(&e.to);
        pb = end;
        pc = cend;
        changed |= e.from != e.to;
    }
    rebuilt_b.push_str(&input[pb..]);
    rebuilt_c.extend(&chars[pc..]);
    eq("applying the edits by bytes to the stage input", &rebuilt_b, output)?;
    eq("applying the edits by characters to the stage input", &rebuilt_c, output)?;
    Ok(changed)
}

fn c11(ctx: &mut Ctx) -> R {
    let pipes = ctx.budget(8000, 100000);
    for k in 0..pipes {
        let p = match k % 4 {
            0 => {
                let s = *ctx.rng.pick(&[0usize, 2, 2, 5]);
                let st = cfg::stage(&mut ctx.rng, s);
                Pipe { ops: vec![Op::Yaml(FileCfg { stages: vec![st], items: vec![] })], direct: true }
            }
            1 => Pipe { ops: vec![Op::Preset], direct: true },
            _ if k % 400 == 99 => {
                ctx.event("pipelines of many stages", 1);
                cfg::long(&mut ctx.rng)
            }
            _ => cfg::pipe(&mut ctx.rng),
        };
        let c = match p.build(ctx) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", p.describe(), e))),
        };
        let (kinds, opt) = kinds(&p);
        let focus = p.focus();
        let h = p.hash();
        let edits = std::cell::Cell::new(0u64);
        let skipped = std::cell::Cell::new(0u64);
        let oracle = |t: &str| -> Result<bool, String> {
            let r = c.normalize_with_positions(t);
            let recs = r.modified_records();
            if recs.len() != kinds.len() && !(opt && recs.len() + 1 == kinds.len()) {
                // the number of records is the subject of another property
                skipped.set(skipped.get() + 1);
                return Ok(false);
            }
            let mut input = t.to_string();
            let mut changed = false;
            for (i, rec) in recs.iter().enumerate() {
                if kinds[i] == Kind::Edits {
                    let es: Vec<Edit> = rec
                        .positions
                        .iter()
                        .map(|x| Edit {
                            from: x.from.clone(),
                            to: x.to.clone(),
                            byte: x.index,
                            blen: x.length,
                            ch: x.utf8_index,
                            clen: x.utf8_length,
                        })
                        .collect();
                    edits.set(edits.get() + es.len() as u64);
                    changed |= check_edits(&input, &rec.text, &es).map_err(|e| format!("stage {}: {}", i, e))?;
                }
                input = rec.text.clone();
            }
            Ok(changed)
        };
        let mut prev = String::new();
        for _ in 0..14 {
            let t = gen::next(&mut ctx.rng, &focus, &prev);
            ctx.text(h, &|| p.describe(), &t, &oracle)?;
            prev = t;
        }
        if k % 150 == 0 {
            let t = gen::big(&mut ctx.rng, &focus, 70000);
            ctx.text(h, &|| p.describe(), &t, &oracle)?;
            ctx.event("large texts", 1);
        }
        ctx.event("edits located", edits.get());
        ctx.event("runs skipped for their number of records", skipped.get());
    }
    // all short strings over an alphabet with one character of each encoded length
    let alpha = ['a', 'é', 'ー', '\u{1f600}', ' '];
    let max = if ctx.thorough { 7 } else { 5 };
    for x in alpha {
        for s in [
            Stage::Reduce(x),
            Stage::Conv(vec![(x, '\u{1f601}')]),
            Stage::Conv(vec![(x, 'b'), ('ー', x), (' ', 'é')]),
            Stage::Trim,
        ] {
            let c = one_stage(ctx, &s)?;
            all_strings(ctx, &s, &alpha, max, true, &|t| {
                let r = c.normalize_with_positions(t);
                let rec = match r.modified_records().first() {
                    Some(r) => r,
                    None => return Ok(false),
                };
                let es: Vec<Edit> = rec
                    .positions
                    .iter()
                    .map(|x| Edit { from: x.from.clone(), to: x.to.clone(), byte: x.index, blen: x.length, ch: x.utf8_index, clen: x.utf8_length })
                    .collect();
                check_edits(t, &rec.text, &es)
            })?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12(ctx: &mut Ctx) -> R {
    let m = Models::new();
    for _ in 0..ctx.budget(8000, 100000) {
        let p = cfg::pipe(&mut ctx.rng);
        let focus = p.focus();
        // build step by step, with normalisations in between
        let mut c: Chanoma = Chanoma::new();
        let mut prev = String::new();
        for i in 0..=p.ops.len() {
            let sofar = Pipe { ops: p.ops[..i].to_vec(), direct: p.direct };
            if i > 0 {
                let op = &p.ops[i - 1];
                if i == 1 {
                    c = match sofar.build(ctx) {
                        Ok(c) => c,
                        Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", p.describe(), e))),
                    };
                } else {
                    match op {
                        Op::Preset => c.use_preset(),
                        Op::Neologdn => c.use_neologdn(),
                        Op::Table(t) => c.add_table(table_of(t)),
                        _ => unreachable!(),
                    };
                }
                ctx.event("builder calls", 1);
            }
            let last = i == p.ops.len();
            if !last && ctx.rng.chance(1, 2) {
                continue;
            }
            let opt = matches!(sofar.ops.last(), Some(Op::Yaml(f)) if f.items.is_empty());
            let optpos = match sofar.ops.first() {
                Some(Op::Yaml(f)) if f.items.is_empty() => Some(f.stages.len()),
                _ => None,
            };
            let _ = opt;
            let h = sofar.hash();
            let oracle = |t: &str| -> Result<bool, String> {
                let mut want = sofar.texts(&m, t);
                let res = want.last().cloned().unwrap_or_else(|| t.to_string());
                eq("result", &c.normalize(t), &res)?;
                let r = c.normalize_with_positions(t);
                eq("traced result", r.text(), &res)?;
                let got: Vec<&str> = r.modified_records().iter().map(|x| &x.text[..]).collect();
                if got.len() + 1 == want.len() {
                    if let Some(i) = optpos {
                        // the table of a file without entries may have a record or none
                        want.remove(i);
                    }
                }
                if got.len() != want.len() {
                    return Err(format!("{} records for {} stages", got.len(), want.len()));
                }
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    eq(&format!("text after stage {}", i), g, w)?;
                }
                Ok(res != t)
            };
            for j in 0..if last { 14 } else { 3 } {
                // often the text that was normalised before the last addition
                let t = if j == 0 && ctx.rng.chance(1, 2) {
                    prev.clone()
                } else if j == 1 {
                    sofar.all_of_it(&mut ctx.rng)
                } else { gen::next(&mut ctx.rng, &focus, &prev)
                };
                ctx.text(h, &|| sofar.describe(), &t, &oracle)?;
                prev = t;
            }
        }
        // the same stages, first one added to an empty pipeline instead
        if matches!(p.ops.first(), Some(Op::Preset | Op::Neologdn | Op::Table(_))) {
            let q = Pipe { ops: p.ops.clone(), direct: !p.direct };
            let d = match q.build(ctx) {
                Ok(c) => c,
                Err(e) => return Err(ctx.violation(&e)),
            };
            for _ in 0..4 {
                let t = gen::text(&mut ctx.rng, &focus);
                ctx.text(p.hash(), &|| q.describe(), &t, &|t| {
                    eq("constructor against addition", &d.normalize(t), &c.normalize(t))?;
                    let a = c.normalize_with_positions(t);
                    let b = d.normalize_with_positions(t);
                    if a.modified_records().len() != b.modified_records().len() {
                        return Err("different numbers of records".into());
                    }
                    for (x, y) in a.modified_records().iter().zip(b.modified_records()) {
                        eq("record of constructor against addition", &y.text, &x.text)?;
                    }
                    Ok(true)
                })?;
            }
            ctx.event("constructor compared with addition", 1);
        }
    }
    // long histories
    for k in 0..ctx.budget(24, 300) {
        let n = match k % 3 {
            0 => ctx.rng.range(255, 300),
            1 if ctx.mine(0) && k == 1 => 1030,
            _ => ctx.rng.range(20, 120),
        };
        let mut ops = Vec::new();
        for _ in 0..n {
            ops.push(match ctx.rng.below(if n > 200 { 60 } else { 5 }) {
                0 => Op::Preset,
                1 => Op::Neologdn,
                _ => Op::Table(cfg::pairs(&mut ctx.rng, if n > 200 { 6 } else { 30 })),
            });
        }
        let p = Pipe { ops, direct: false };
        let c = match p.build(ctx) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&e)),
        };
        let focus = p.focus();
        for _ in 0..6 {
            let t = gen::text(&mut ctx.rng, &focus);
            ctx.text(p.hash(), &|| p.describe(), &t, &|t| {
                let want = p.texts(&m, t);
                let r = c.normalize_with_positions(t);
                if r.modified_records().len() != want.len() {
                    return Err(format!("{} records for {} stages", r.modified_records().len(), want.len()));
                }
                for (i, (g, w)) in r.modified_records().iter().zip(&want).enumerate() {
                    eq(&format!("text after stage {}", i), &g.text, w)?;
                }
                eq("result", &c.normalize(t), want.last().unwrap())?;
                Ok(true)
            })?;
        }
        ctx.event(if n > 200 { "histories of 255 to 1030 stages" } else { "histories of 20 to 120 stages" }, 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

fn hostile(r: &mut Rng, focus: &[char]) -> String {
    match r.below(10) {
        0 => (0..r.below(60)).map(|_| gen::scalar(r)).collect(),
        1 => (0..r.below(60)).map(|_| char::from_u32(r.below(0x20) as u32).unwrap()).collect(),
        2 => {
            let b = *r.pick(&['a', 'か', '\u{1f468}', 'ﾊ']);
            let m = *r.pick(gen::MARKS);
            let n = gen::edge_len(r, 300);
            std::iter::once(b).chain(std::iter::repeat(m).take(n)).collect()
        }
        3 => {
            let c = gen::mixed(r, focus);
            std::iter::repeat(c).take(gen::edge_len(r, 3000)).collect()
        }
        4 => (0..r.below(40)).map(|_| char::from_u32(0xffff - r.below(0x200) as u32).unwrap_or('\u{fffd}')).collect(),
        5 => (0..r.below(40)).map(|_| char::from_u32(0x10ffff - r.below(0x200) as u32).unwrap()).collect(),
        _ => gen::text(r, focus),
    }
}

fn c25(ctx: &mut Ctx) -> R {
    let n = ctx.budget(9000, 100000);
    // the last ones: every kind of stage alone, on long texts only
    let alone = ctx.budget(72, 360);
    for k in 0..n + alone {
        let mut p = match k {
            _ if k >= n => cfg::single(&mut ctx.rng, k - n + ctx.shard),
            _ if k % 200 == 51 => {
                ctx.event("pipelines of many stages", 1);
                cfg::long(&mut ctx.rng)
            }
            _ => cfg::pipe(&mut ctx.rng),
        };
        if k % 5 == 0 && k < n {
            // interfering ligatures, also ones that delete
            let mut f = cfg::file_cfg(&mut ctx.rng, 6);
            f.stages.retain(|s| !matches!(s, Stage::Lig(_)));
            let at = ctx.rng.below(f.stages.len() + 1);
            f.stages.insert(at, Stage::Lig(wild_rules(&mut ctx.rng)));
            p = Pipe { ops: vec![Op::Yaml(f)], direct: true };
        }
        let grows = p.ops.iter().any(|o| match o {
            Op::Yaml(f) => f.stages.iter().any(|s| match s {
                Stage::Lig(r) => r.iter().any(|(a, b)| b.chars().count() > a.chars().count()),
                _ => false,
            }),
            _ => false,
        });
        let c = match p.build(ctx) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", p.describe(), e))),
        };
        let focus = p.focus();
        let h = p.hash();
        let oracle = |t: &str| -> Result<bool, String> {
            let x = c.normalize(t);
            let y = c.normalize_with_positions(t);
            for s in [&x[..], y.text()] {
                std::str::from_utf8(s.as_bytes()).map_err(|e| e.to_string())?;
                if !grows && s.chars().count() > t.chars().count() {
                    return Err(diff("the result is longer than the text", s, t));
                }
            }
            Ok(true)
        };
        if k >= n {
            huge_texts(ctx, 1, false, h, &|| p.describe(), &focus, &oracle)?;
            continue;
        }
        for j in 0..16 {
            let t = if j == 0 { String::new() } else { hostile(&mut ctx.rng, &focus) };
            ctx.text(h, &|| p.describe(), &t, &oracle)?;
        }
        if k % 100 == 0 {
            let t = gen::big(&mut ctx.rng, &focus, 300000);
            ctx.text(h, &|| p.describe(), &t, &oracle)?;
            ctx.event("large texts", 1);
        }
        if k % 1000 == 500 {
            let c1 = gen::mixed(&mut ctx.rng, &focus);
            let n = if ctx.thorough { 8_000_000 } else { 1_000_000 };
            let t: String = std::iter::repeat(c1).take(n).collect();
            ctx.text(h, &|| p.describe(), &t, &oracle)?;
            ctx.event("texts of a million characters", 1);
        }
        ctx.event("pipelines", 1);
    }
    Ok(())
}
