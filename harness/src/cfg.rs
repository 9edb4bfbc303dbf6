//! Configurations: description, file writing, building of real pipelines, reference results.
use crate::ctx::{clip, show, Ctx};
use crate::gen;
use crate::model::{self, Models};
use crate::rng::{fnv, Rng};
use chanoma::{Chanoma, Correspondence, Item, Synthesized, Table};
use std::collections::{HashMap, HashSet};
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub enum Stage {
    Conv(Vec<(char, char)>),
    Elim(Vec<char>),
    Reduce(char),
    Space,
    Lig(Vec<(String, String)>),
    Trim,
    Neologdn,
}

/// A YAML configuration file: stages in file order, then the items table.
#[derive(Clone, Debug)]
pub struct FileCfg {
    pub stages: Vec<Stage>,
    pub items: Vec<(char, char)>,
}

pub fn q(s: &str) -> String {
    // YAML double-quoted scalar
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            ' '..='~' => o.push(c),
            c if (c as u32) < 0x100 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if (c as u32) >= 0x10000 => o.push_str(&format!("\\U{:08x}", c as u32)),
            c => o.push_str(&format!("\\u{:04x}", c as u32)),
        }
    }
    o.push('"');
    o
}

pub fn qc(c: char) -> String {
    q(&c.to_string())
}

impl Stage {
    pub fn name(&self) -> &'static str {
        match self {
            Stage::Conv(_) => "character_converter",
            Stage::Elim(_) => "character_eliminator",
            Stage::Reduce(_) => "consecutive_character_reducer",
            Stage::Space => "dotted_space_eliminator",
            Stage::Lig(_) => "ligature_translator",
            Stage::Trim => "trim",
            Stage::Neologdn => "neologdn",
        }
    }
    pub fn yaml(&self, out: &mut String) {
        out.push_str("  ");
        out.push_str(self.name());
        out.push(':');
        match self {
            Stage::Conv(m) => {
                if m.is_empty() {
                    out.push_str(" {}");
                }
                out.push('\n');
                for (a, b) in m {
                    out.push_str(&format!("    {}: {}\n", qc(*a), qc(*b)));
                }
            }
            Stage::Elim(v) => {
                if v.is_empty() {
                    out.push_str(" []");
                }
                out.push('\n');
                for c in v {
                    out.push_str(&format!("    - {}\n", qc(*c)));
                }
            }
            Stage::Reduce(c) => out.push_str(&format!(" {}\n", qc(*c))),
            Stage::Lig(m) => {
                if m.is_empty() {
                    out.push_str(" {}");
                }
                out.push('\n');
                for (a, b) in m {
                    let k = q(a);
                    if k.len() < 900 {
                        out.push_str(&format!("    {}: {}\n", k, q(b)));
                    } else {
                        // a key on the line of its value has at most 1024 characters
                        out.push_str(&format!("    ? {}\n    : {}\n", k, q(b)));
                    }
                }
            }
            _ => out.push('\n'),
        }
    }
    pub fn apply(&self, m: &Models, t: &str) -> String {
        match self {
            Stage::Conv(p) => model::convert(t, &p.iter().copied().collect()),
            Stage::Elim(v) => model::eliminate(t, &v.iter().copied().collect()),
            Stage::Reduce(c) => model::reduce(t, *c),
            Stage::Space => model::spaces(t),
            Stage::Lig(r) => model::ligature(t, r),
            Stage::Trim => model::trim(t),
            Stage::Neologdn => m.neologdn(t),
        }
    }
    /// characters that matter to this stage
    pub fn focus(&self, v: &mut Vec<char>) {
        match self {
            Stage::Conv(p) => v.extend(spread(p).flat_map(|(a, b)| [*a, *b])),
            Stage::Elim(c) => v.extend(spread(c)),
            Stage::Reduce(c) => v.push(*c),
            Stage::Space => v.extend([' ', ' ', 'a', 'Z', '0', 'あ', '-']),
            Stage::Lig(r) => v.extend(spread(r).flat_map(|(a, b)| a.chars().chain(b.chars()).collect::<Vec<_>>())),
            Stage::Trim => v.extend([' ', ' ', '　', '\t', 'x']),
            Stage::Neologdn => v.extend(['ー', '～', '〜', ' ', '　', 'か', 'ﾊ', 'ﾞ', '゛', 'ﾟ', '゜', 'Ａ', '１', '－', 'a']),
        }
    }
}

/// Some forty of the entries: the first, the last, and others in between.
fn spread<T>(v: &[T]) -> impl Iterator<Item = &T> {
    let n = v.len();
    let step = (n / 16).max(1);
    v.iter().enumerate().filter(move |(i, _)| n <= 40 || *i < 14 || i + 10 >= n || i % step == 0).map(|x| x.1)
}

impl FileCfg {
    /// The file's text; some configurations name their items first, or an item's `to` first.
    pub fn yaml(&self) -> String {
        let kind = crate::rng::fnv(&[format!("{:?}", self).as_bytes()]) % 8;
        let mut o = String::new();
        if !self.stages.is_empty() {
            o.push_str("modifiers:\n");
            for s in &self.stages {
                s.yaml(&mut o);
            }
        }
        let mut i = String::new();
        if self.items.is_empty() {
            i.push_str("items: []\n");
        } else {
            i.push_str("items:\n");
            for (a, b) in &self.items {
                if kind % 4 == 1 {
                    i.push_str(&format!("  - to: {}\n    from: {}\n", qc(*b), qc(*a)));
                } else {
                    i.push_str(&format!("  - from: {}\n    to: {}\n", qc(*a), qc(*b)));
                }
            }
        }
        match kind {
            0 | 1 => i + &o,
            _ => o + &i,
        }
    }
    pub fn apply(&self, m: &Models, t: &str) -> String {
        let mut t = t.to_string();
        for s in &self.stages {
            t = s.apply(m, &t);
        }
        model::convert(&t, &self.items.iter().copied().collect())
    }
}

/// A step of a pipeline's construction.
#[derive(Clone, Debug)]
pub enum Op {
    Preset,
    Neologdn,
    Table(Vec<(char, char)>),
    /// only as the first one
    Yaml(FileCfg),
    Csv(Vec<(char, char)>),
}

#[derive(Clone, Debug)]
pub struct Pipe {
    pub ops: Vec<Op>,
    /// create with the constructor that already holds the first step
    pub direct: bool,
}

pub fn table_of(pairs: &[(char, char)]) -> Table {
    Table::from_corr(
        Correspondence::new(Synthesized::new(
            pairs.iter().map(|(a, b)| Item::new(a.to_string(), b.to_string())).collect(),
        )),
        chanoma::table::Origin::New,
    )
}

pub fn csv_field(s: &str) -> String {
    if s.is_empty() || s.contains(['"', ',', '\n', '\r']) || s.starts_with([' ', '\u{feff}']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

pub fn csv_of(pairs: &[(char, char)]) -> String {
    let mut o = String::from("from,to\n");
    for (a, b) in pairs {
        o.push_str(&format!("{},{}\n", csv_field(&a.to_string()), csv_field(&b.to_string())));
    }
    o
}

pub fn load(path: &Path) -> Result<Chanoma, String> {
    Chanoma::from_config_file(path).map_err(|e| format!("valid configuration refused: {}", e))
}

/// Writes `content` to a new file, loads it and removes the file.
pub fn load_content(ctx: &mut Ctx, ext: &str, content: &str) -> Result<Chanoma, String> {
    let p = ctx.place(ext, content.as_bytes());
    match crate::ctx::guard(|| load(&p.path)) {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) | Err(e) => Err(format!("{:?}: {}", p.path, e)),
    }
}

impl Pipe {
    pub fn build(&self, ctx: &mut Ctx) -> Result<Chanoma, String> {
        let mut c: Option<Chanoma> = None;
        for (i, op) in self.ops.iter().enumerate() {
            let direct = i == 0 && self.direct;
            match op {
                Op::Yaml(f) => {
                    assert!(i == 0);
                    c = Some(load_content(ctx, "yaml", &f.yaml())?);
                }
                Op::Csv(p) => {
                    assert!(i == 0);
                    c = Some(load_content(ctx, "csv", &csv_of(p))?);
                }
                Op::Preset if direct => c = Some(Chanoma::preset()),
                Op::Neologdn if direct => c = Some(Chanoma::neologdn()),
                Op::Table(t) if direct => c = Some(Chanoma::from_table(table_of(t))),
                Op::Preset => {
                    c.get_or_insert_with(Chanoma::new).use_preset();
                }
                Op::Neologdn => {
                    c.get_or_insert_with(Chanoma::new).use_neologdn();
                }
                Op::Table(t) => {
                    c.get_or_insert_with(Chanoma::new).add_table(table_of(t));
                }
            }
        }
        Ok(c.unwrap_or_default())
    }

    pub fn apply(&self, m: &Models, t: &str) -> String {
        self.texts(m, t).pop().unwrap_or_else(|| t.to_string())
    }

    /// The text after every stage.
    pub fn texts(&self, m: &Models, t: &str) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        let mut cur = t.to_string();
        for op in &self.ops {
            match op {
                Op::Preset => {
                    cur = m.preset(&cur);
                    v.push(cur.clone());
                }
                Op::Neologdn => {
                    cur = m.neologdn(&cur);
                    v.push(cur.clone());
                }
                Op::Table(p) | Op::Csv(p) => {
                    cur = model::convert(&cur, &p.iter().copied().collect());
                    v.push(cur.clone());
                }
                Op::Yaml(f) => {
                    for s in &f.stages {
                        cur = s.apply(m, &cur);
                        v.push(cur.clone());
                    }
                    cur = model::convert(&cur, &f.items.iter().copied().collect());
                    v.push(cur.clone());
                }
            }
        }
        v
    }

    /// A text that holds everything that the configured tables and stages speak of, however much that is.
    pub fn all_of_it(&self, r: &mut Rng) -> String {
        let mut v: Vec<String> = Vec::new();
        for op in &self.ops {
            match op {
                Op::Table(p) | Op::Csv(p) => v.extend(p.iter().map(|x| x.0.to_string())),
                Op::Yaml(f) => {
                    v.extend(f.items.iter().map(|x| x.0.to_string()));
                    for s in &f.stages {
                        match s {
                            Stage::Conv(m) => v.extend(m.iter().map(|x| x.0.to_string())),
                            Stage::Elim(m) => v.extend(m.iter().map(|x| x.to_string())),
                            Stage::Lig(m) => v.extend(m.iter().map(|x| x.0.clone())),
                            Stage::Reduce(c) => v.push(c.to_string().repeat(2)),
                            _ => v.push(" ".into()),
                        }
                    }
                }
                _ => {}
            }
        }
        r.shuffle(&mut v);
        v.concat()
    }
    pub fn focus(&self) -> Vec<char> {
        let mut v = Vec::new();
        for op in &self.ops {
            match op {
                Op::Preset => v.extend(['Ａ', 'ｚ', '０', '！', '￥', '”', '’', '〜', '　', 'ｱ', 'ﾝ', '｡', 'ｰ', 'ﾞ', '～']),
                Op::Neologdn => Stage::Neologdn.focus(&mut v),
                Op::Table(p) | Op::Csv(p) => v.extend(spread(p).flat_map(|(a, b)| [*a, *b])),
                Op::Yaml(f) => {
                    for s in &f.stages {
                        s.focus(&mut v);
                    }
                    v.extend(spread(&f.items).flat_map(|(a, b)| [*a, *b]));
                }
            }
        }
        v
    }

    pub fn describe(&self) -> String {
        let mut o = format!("pipeline (first step by constructor: {}):", self.direct);
        if self.ops.is_empty() {
            o.push_str(" no stages");
        }
        for op in &self.ops {
            o.push_str("\n  - ");
            match op {
                Op::Preset => o.push_str("preset"),
                Op::Neologdn => o.push_str("neologdn"),
                Op::Table(p) => o.push_str(&format!("table {}", pairs_str(p))),
                Op::Csv(p) => o.push_str(&format!("csv file {}", pairs_str(p))),
                Op::Yaml(f) => o.push_str(&format!("yaml file:\n{}", clip(&f.yaml(), 1500))),
            }
        }
        o
    }

    pub fn hash(&self) -> u64 {
        fnv(&[format!("{:?}", self).as_bytes()])
    }
}

pub fn pairs_str(p: &[(char, char)]) -> String {
    let s: Vec<String> = p
        .iter()
        .take(30)
        .map(|(a, b)| format!("{}>{}", show(&a.to_string()), show(&b.to_string())))
        .collect();
    format!("[{}{}] ({} entries)", s.join(" "), if p.len() > 30 { " ..." } else { "" }, p.len())
}

/// Distinct sources; chains and cycles are frequent.
pub fn pairs(r: &mut Rng, max: usize) -> Vec<(char, char)> {
    let n = match r.below(12) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 2,
        5..=9 => r.range(1, 12),
        10 => r.range(10, 80),
        _ => r.range(1, max.max(2)),
    }
    .min(max);
    let small = r.chance(1, 2);
    let pool: Vec<char> = if small {
        (0..n + 2).map(|_| gen::any(r)).collect()
    } else {
        Vec::new()
    };
    let mut seen = HashSet::new();
    let mut v = Vec::new();
    let mut prev: Option<char> = None;
    for _ in 0..n {
        let a = match prev {
            Some(p) if r.chance(1, 4) => p, // chain
            Some(p) if r.chance(1, 5) => gen::near(r, p),
            _ if small => *r.pick(&pool),
            _ => gen::any(r),
        };
        if !seen.insert(a) {
            continue;
        }
        let b = match r.below(6) {
            0 if !v.is_empty() => {
                let x: &(char, char) = r.pick(&v);
                x.0
            }
            1 => gen::near(r, a),
            _ if small => *r.pick(&pool),
            _ => gen::any(r),
        };
        v.push((a, b));
        prev = Some(b);
    }
    v
}

/// Many or long rules that do not interfere, because every source starts and ends with a character of its own.
pub fn delimited_rules(r: &mut Rng) -> Vec<(String, String)> {
    let a = gen::any(r);
    let (mut b, mut n) = (gen::any(r), *r.pick(&[2, 16, 40, 70, 130, 260, 400]));
    while b == a {
        b = gen::any(r);
    }
    let long = r.chance(1, 3);
    if long {
        n = n.min(5);
    }
    let k = r.range(2, 6);
    let body: Vec<char> = (0..k * 3).map(|_| gen::any(r)).filter(|c| *c != a && *c != b).take(k).collect();
    let mut seen = HashSet::new();
    let mut v = Vec::new();
    for _ in 0..n {
        let l = if long { gen::edge_len(r, 600) } else { r.below(9) };
        let mut f = String::from(a);
        if !body.is_empty() {
            (0..l).for_each(|_| f.push(*r.pick(&body)));
        }
        f.push(b);
        let l = if long && r.chance(1, 2) { gen::edge_len(r, 600) } else { r.range(1, 4) };
        let t: String = (0..l * 3).map(|_| gen::any(r)).filter(|c| *c != a && *c != b && !body.contains(c)).take(l).collect();
        if !t.is_empty() && seen.insert(f.clone()) {
            v.push((f, t));
        }
    }
    v
}

/// Rules that do not interfere with one another.
pub fn rules(r: &mut Rng) -> Vec<(String, String)> {
    if r.chance(1, 40) {
        return delimited_rules(r);
    }
    let n = match r.below(8) {
        0 => 0,
        1..=3 => 1,
        4..=6 => r.range(1, 5),
        _ => r.range(1, 24),
    };
    let k = r.range(2, 10);
    let alpha: Vec<char> = (0..k).map(|_| gen::any(r)).collect();
    let mut v: Vec<(String, String)> = Vec::new();
    let set: HashSet<char> = alpha.iter().copied().collect();
    for _ in 0..n * 3 {
        if v.len() >= n {
            break;
        }
        let l = *r.pick(&[1, 2, 2, 2, 3, 3, 4, 6, 9]);
        let f: String = (0..l).map(|_| *r.pick(&alpha)).collect();
        let l = *r.pick(&[1, 1, 1, 2, 3, 5, 12]);
        let t: String = (0..l).map(|_| gen::any(r)).filter(|c| !set.contains(c)).collect();
        if t.is_empty() {
            continue;
        }
        v.push((f, t));
        if !model::non_interfering(&v) {
            v.pop();
        }
    }
    v
}

pub fn chars(r: &mut Rng, max: usize) -> Vec<char> {
    let n = match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => r.range(1, 8),
        _ => r.range(1, max.max(2)),
    };
    let mut seen = HashSet::new();
    let mut v: Vec<char> = Vec::new();
    for _ in 0..n {
        let c = if !v.is_empty() && r.chance(1, 3) {
            let p = *r.pick(&v);
            gen::near(r, p)
        } else {
            gen::any(r)
        };
        if seen.insert(c) {
            v.push(c);
        }
    }
    // nothing forbids to list a character twice
    if !v.is_empty() && r.chance(1, 6) {
        for _ in 0..r.range(1, 4) {
            let c = *r.pick(&v);
            let at = r.below(v.len() + 1);
            v.insert(at, c);
        }
    }
    v
}

pub fn stage(r: &mut Rng, kind: usize) -> Stage {
    let max = if r.chance(1, 100) { 2000 } else { 60 };
    match kind {
        0 => Stage::Conv(pairs(r, max)),
        1 => Stage::Elim(chars(r, max)),
        2 => Stage::Reduce(if r.chance(1, 3) {
            *r.pick(&['ー', ' ', 'a', '\u{1f600}', 'é'])
        } else {
            gen::any(r)
        }),
        3 => Stage::Space,
        4 => Stage::Lig(rules(r)),
        5 => Stage::Trim,
        _ => Stage::Neologdn,
    }
}

/// Any subset of the stages in any order.
pub fn file_cfg(r: &mut Rng, max_stages: usize) -> FileCfg {
    let mut kinds: Vec<usize> = (0..7).collect();
    r.shuffle(&mut kinds);
    let n = r.below(max_stages.min(7) + 1);
    kinds.truncate(n);
    let stages = kinds.iter().map(|k| stage(r, *k)).collect();
    let max = if r.chance(1, 100) { 2000 } else { 60 };
    let items = if r.chance(1, 3) { Vec::new() } else { pairs(r, max) };
    FileCfg { stages, items }
}

pub fn pipe(r: &mut Rng) -> Pipe {
    let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 6]);
    let mut ops = Vec::new();
    for i in 0..n {
        let op = match r.below(if i == 0 { 8 } else { 4 }) {
            0 => Op::Preset,
            1 => Op::Neologdn,
            2 | 3 => Op::Table(pairs(r, 60)),
            4 => Op::Csv(pairs(r, 60)),
            _ => Op::Yaml(file_cfg(r, 7)),
        };
        ops.push(op);
    }
    Pipe {
        ops,
        direct: r.chance(1, 2),
    }
}

/// Hundreds of stages, around numbers that a byte holds and beyond.
pub fn long(r: &mut Rng) -> Pipe {
    let n = match r.below(4) {
        0 => r.range(20, 200),
        1 => r.range(254, 259),
        2 => r.range(254, 300),
        _ => r.range(500, 1040),
    };
    // the characters of one stage in many others, too
    let alpha: Vec<char> = (0..r.range(4, 40)).map(|_| gen::any(r)).collect();
    let mut seen = HashSet::new();
    let alpha: Vec<char> = alpha.into_iter().filter(|c| seen.insert(*c)).collect();
    // mostly cycles of some of them, so that no stage undoes or hides what another does
    let few = |r: &mut Rng| -> Vec<(char, char)> {
        let mut v = alpha.clone();
        r.shuffle(&mut v);
        v.truncate(r.range(2, 5));
        let cycle: Vec<(char, char)> = (0..v.len()).map(|i| (v[i], v[(i + 1) % v.len()])).collect();
        if r.chance(1, 200) {
            cycle.iter().map(|p| (p.0, gen::any(r))).collect()
        } else {
            cycle
        }
    };
    let mut ops: Vec<Op> = (0..n)
        .map(|_| match r.below(2000) {
            0 => Op::Preset,
            1 => Op::Neologdn,
            _ => Op::Table(few(r)),
        })
        .collect();
    if r.chance(1, 2) {
        ops[0] = Op::Yaml(file_cfg(r, 7));
    }
    // the last one changes something
    let last: Vec<(char, char)> = alpha.iter().map(|c| (*c, gen::any(r))).collect();
    ops.push(Op::Table(last));
    Pipe { ops, direct: false }
}

/// A configuration file that may contradict itself.
pub fn wild(r: &mut Rng) -> String {
    let k = r.range(2, 5);
    let alpha: Vec<char> = (0..k).map(|_| gen::any(r)).collect();
    let s = |r: &mut Rng, max: usize| -> String {
        let n = r.range(1, max);
        (0..n).map(|_| *r.pick(&alpha)).collect()
    };
    let mut o = String::from("modifiers:\n");
    o.push_str("  ligature_translator:\n");
    let mut seen = HashSet::new();
    for _ in 0..if r.chance(1, 20) { r.range(14, 120) } else { r.range(1, 14) } {
        let f = s(r, 4);
        if seen.insert(f.clone()) {
            o.push_str(&format!("    {}: {}\n", q(&f), q(&s(r, 3))));
        }
    }
    if r.chance(1, 2) {
        o.push_str("  character_converter:\n");
        let mut seen = HashSet::new();
        for _ in 0..r.range(1, 6) {
            let f = s(r, 2);
            if seen.insert(f.clone()) {
                o.push_str(&format!("    {}: {}\n", q(&f), q(&s(r, 2))));
            }
        }
    }
    o.push_str("items:\n");
    for _ in 0..r.range(1, 12) {
        o.push_str(&format!("  - from: {}\n    to: {}\n", q(&s(r, 2)), q(&s(r, 2))));
    }
    o
}

/// What a wild file talks about.
pub fn wild_focus(yaml: &str) -> Vec<char> {
    serde_yaml::from_str::<serde_yaml::Value>(yaml)
        .ok()
        .and_then(|v| v.get("items").and_then(|i| i.as_sequence().cloned()))
        .unwrap_or_default()
        .iter()
        .flat_map(|i| ["from", "to"].iter().flat_map(|n| i.get(*n).and_then(|x| x.as_str()).unwrap_or("").chars().collect::<Vec<_>>()).collect::<Vec<_>>())
        .collect()
}

/// One stage alone, each kind in turn.
pub fn single(r: &mut Rng, k: usize) -> Pipe {
    let op = match k % 9 {
        7 => Op::Preset,
        8 => Op::Neologdn,
        i => Op::Yaml(FileCfg { stages: vec![stage(r, i)], items: vec![] }),
    };
    Pipe { ops: vec![op], direct: r.chance(1, 2) }
}

pub fn map_of(p: &[(char, char)]) -> HashMap<char, char> {
    p.iter().copied().collect()
}
