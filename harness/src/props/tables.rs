//! Tables, published sets and files: C13-C19, C27.
use super::Prop;
use crate::cfg::{self, csv_field, q, qc, table_of, FileCfg, Op, Pipe, Stage};
use crate::ctx::{clip, guard, show, Ctx, R};
use crate::gen;
use crate::model::{self, Models};
use crate::rng::{fnv, Rng};
use crate::unidata;
use chanoma::characters_set as cs;
use chanoma::corr::{Linear, Unification};
use chanoma::table::Origin;
use chanoma::{file, Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C13",
        level: "exploration",
        rule: "random histories of additions and removals (tables, builders, operators) of synthesized, linear, unification and published correspondences, of nearly equal entries and of up to 70000 entries; entries compared with a set of pairs after every step; non-trivial: distinct history step that changed the set",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c13,
    },
    Prop {
        id: "C14",
        level: "exploration",
        rule: "all entries of all published sets, alone, combined and as tables, compared with Unicode decompositions; non-trivial: distinct entry or combination",
        assumptions: &["Unicode data as in Python's unicodedata (src/unidata.rs)"],
        shards: 1,
        min_nontrivial: Some(400),
        run: c14,
    },
    Prop {
        id: "C15",
        level: "exploration",
        rule: "CSV files generated from random rows (row lengths 1 to 40, quoting, both line endings, missing final newline, empty lines, up to thousands of rows) at places of every kind (odd, relative, long, linked, deep names; rewritten in place with the same length and time), loaded in six ways; entries compared with the rows; non-trivial: distinct file with at least one entry",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(3000),
        run: c15,
    },
    Prop {
        id: "C16",
        level: "exploration",
        rule: "YAML files generated from random entries in both spellings and many styles (block and flow, every way of quoting, literal and folded blocks, directives, comments, CRLF, further sections) at places as for C15 (each file is first parsed with serde_yaml to make sure that it says what was meant); entries compared in order; non-trivial: distinct file with at least one entry",
        assumptions: &["serde_yaml decides what a YAML text means"],
        shards: 0,
        min_nontrivial: Some(3000),
        run: c16,
    },
    Prop {
        id: "C17",
        level: "exploration",
        rule: "YAML files with any subset of the stages in any order and any parameters and an items table before or after them, and CSV files, dressed and placed as for C16, loaded with misleading configuration files all around; result compared with the composition of reference models; non-trivial: distinct (file, text) whose result differs from the text",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c17,
    },
    Prop {
        id: "C18",
        level: "exploration",
        rule: "random tables of arbitrary text entries exported as YAML and CSV and loaded again, the published sets too, and the files printed by the output program; non-trivial: distinct table with at least one entry",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(3000),
        run: c18,
    },
    Prop {
        id: "C19",
        level: "exploration",
        rule: "random bytes, truncations and mutations of valid files, wrong values for every stage parameter, odd paths, through all loading functions; no panic or hang; what must fail fails (decided with the csv and serde_yaml crates and by construction), what loads normalises texts; non-trivial: distinct (content, path kind)",
        assumptions: &["csv and serde_yaml decide whether a content is valid CSV or YAML"],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c19,
    },
    Prop {
        id: "C27",
        level: "fault_enumeration",
        rule: "random histories of builder calls where file additions fail by missing files, directories, invalid UTF-8 or malformed entries at any place of the file, or truncation at any byte; entries compared with a set of pairs after every step; non-trivial: distinct step with a failure or a change",
        assumptions: &[],
        shards: 0,
        min_nontrivial: Some(5000),
        run: c27,
    },
];

pub(super) type Pairs = Vec<(String, String)>;

pub(super) fn pairs_of(items: &[Item]) -> Pairs {
    items.iter().map(|i| (i.from.clone(), i.to.clone())).collect()
}

pub(super) fn synth(p: &[(String, String)]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(p.iter().map(|(a, b)| Item::new(a.clone(), b.clone())).collect()))
}

pub(super) fn show_pairs(p: &[(String, String)]) -> String {
    let s: Vec<String> = p.iter().take(40).map(|(a, b)| format!("{}>{}", show(a), show(b))).collect();
    format!("[{}{}] ({} entries)", s.join(" "), if p.len() > 40 { " ..." } else { "" }, p.len())
}

pub(super) fn same(what: &str, got: &Pairs, want: &Pairs) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{}: differs at entry {} ({:?} instead of {:?})\n    got      {}\n    expected {}",
        what,
        i,
        got.get(i),
        want.get(i),
        show_pairs(got),
        show_pairs(want)
    ))
}

fn same_set(what: &str, got: &Pairs, want: &Pairs) -> Result<(), String> {
    let g: BTreeSet<_> = got.iter().cloned().collect();
    let w: BTreeSet<_> = want.iter().cloned().collect();
    if g == w {
        return Ok(());
    }
    Err(format!(
        "{}: missing {:?}, additional {:?}",
        what,
        w.difference(&g).take(5).collect::<Vec<_>>(),
        g.difference(&w).take(5).collect::<Vec<_>>()
    ))
}

pub(super) fn word(r: &mut Rng, max: usize) -> String {
    if max > 2 && r.chance(1, 14) {
        let w: &str = r.pick(gen::SNIPPETS);
        if w.chars().count() <= max.max(4) {
            return w.to_string();
        }
    }
    if r.chance(1, 20) {
        return r.pick(&["漢", "字", "日本", "東京", "株式会社", "の", "あ", "ア", "ｱ", "Ａ", "a", "A", "z", "0", "1", "①", "㈱", "㌔", "〜", "ー", "゛", "゜", "é", "ß", "ﬁ", "😀", "・", "。"]).chars().take(max).collect();
    }
    let n = *r.pick(&[0, 1, 1, 1, 1, 1, 1, 2, 3, 5]);
    (0..n.min(max)).map(|_| gen::any(r)).collect()
}

fn word1(r: &mut Rng) -> String {
    let w = word(r, 5);
    if w.is_empty() {
        gen::any(r).to_string()
    } else {
        w
    }
}

/// Every number up to some hundreds, and usual large ones.
pub(super) fn sizes() -> impl Iterator<Item = usize> {
    (0..300usize).chain([499, 500, 501, 511, 512, 513, 600, 700, 768, 800, 900, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8192, 10000, 12001])
}

/// Tables of every size, in a file.
fn every_size(ctx: &mut Ctx, yaml: bool) -> R {
    for (k, n) in sizes().enumerate() {
        if !ctx.mine(k) {
            continue;
        }
        let want: Pairs = (0..n).map(|i| (char::from_u32(0x4e00 + (i as u32 * 7) % 20000).unwrap().to_string(), char::from_u32(0x61 + ctx.rng.below(26) as u32).unwrap().to_string())).collect();
        let mut text = String::from(if yaml { "items:\n" } else { "from,to\n" });
        for (a, b) in &want {
            text.push_str(&if yaml { format!("  - from: '{}'\n    to: '{}'\n", a, b) } else { format!("{},{}\n", a, b) });
        }
        if yaml && n == 0 {
            text = "items: []\n".into();
        }
        let p = ctx.path(if yaml { "yaml" } else { "csv" });
        std::fs::write(&p, &text).unwrap();
        let texts = texts_for(&mut ctx.rng, &want, 2);
        ctx.judge(&|| format!("table of {} entries, {}", n, file_desc("file", &text)), || {
            table_ways(&p, yaml, &want)?;
            pipeline_way(&p, &want, &texts)
        })?;
        let _ = std::fs::remove_file(&p);
        ctx.event("tables of every size", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

/// The state of the model: the entries, and whether something was added (then they are sorted and distinct).
#[derive(Clone)]
struct SetModel {
    raw: Pairs,
    touched: bool,
    added: bool,
}

impl SetModel {
    fn new(raw: Pairs) -> Self {
        SetModel { raw, touched: false, added: false }
    }
    fn add(&mut self, p: &Pairs) {
        let s: BTreeSet<_> = self.raw.iter().chain(p.iter()).cloned().collect();
        self.raw = s.into_iter().collect();
        self.touched = true;
        self.added = true;
    }
    fn remove(&mut self, p: &Pairs) {
        let d: HashSet<_> = p.iter().cloned().collect();
        self.raw.retain(|x| !d.contains(x));
        self.raw.sort();
        self.touched = true;
    }
    fn check(&self, what: &str, items: Vec<Item>) -> Result<(), String> {
        let got = pairs_of(&items);
        if self.added {
            return same(what, &got, &self.raw);
        }
        if self.touched {
            let mut s = got.clone();
            s.sort();
            if s != got {
                return Err(format!("{}: entries are not sorted: {}", what, show_pairs(&got)));
            }
            return same_set(what, &got, &self.raw);
        }
        same(what, &got, &self.raw)
    }
}

pub(super) fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// A right-hand side of any kind.
enum Rhs {
    S(Correspondence<Synthesized>),
    L(Correspondence<Linear>),
    U(Correspondence<Unification<'static>>),
    All,
    Digits,
    Alphabets,
    Punctuations,
    Kanas,
    Cjk,
}

macro_rules! with_rhs {
    ($r:expr, $c:ident => $e:expr) => {
        match $r {
            Rhs::S($c) => $e,
            Rhs::L($c) => $e,
            Rhs::U($c) => $e,
            Rhs::All => { let $c = &cs::ALL; $e }
            Rhs::Digits => { let $c = &cs::digits::DIGITS; $e }
            Rhs::Alphabets => { let $c = &cs::alphabets::ALPHABETS; $e }
            Rhs::Punctuations => { let $c = &cs::punctuations::PUNCTUATIONS; $e }
            Rhs::Kanas => { let $c = &cs::kanas::KANAS; $e }
            Rhs::Cjk => { let $c = &cs::cjk_compatibilities::CJK_COMPATIBILITIES; $e }
        }
    };
}

impl Rhs {
    fn items(&self) -> Pairs {
        with_rhs!(self, c => pairs_of(&c.items()))
    }
}

pub(super) fn pool(r: &mut Rng) -> (Vec<&'static str>, Vec<&'static str>) {
    let n = r.range(1, 9);
    let mut a: Vec<&'static str> = (0..n).map(|_| leak(&word(r, 3))).collect();
    let mut b: Vec<&'static str> = (0..r.range(1, 6)).map(|_| leak(&word(r, 3))).collect();
    if r.chance(1, 2) {
        a.push("ａ");
        a.push("１");
    }
    if r.chance(1, 8) {
        let w = |r: &mut Rng| leak(&gen::any(r).to_string().repeat(gen::edge_len(r, 1100)));
        let x = w(r);
        a.push(x);
        let x = w(r);
        b.push(x);
    }
    (a, b)
}

fn rhs(r: &mut Rng, a: &[&'static str], b: &[&'static str], live: &Pairs) -> (Rhs, Pairs) {
    match r.below(24) {
        0..=11 => {
            let n = match r.below(8) {
                0 => 0,
                1..=4 => r.range(1, 4),
                5 | 6 => r.range(1, 20),
                _ if r.chance(1, 4) => gen::edge_len(r, 1100),
                _ => r.range(20, 150),
            };
            let mut p: Pairs = Vec::new();
            for _ in 0..n {
                p.push(if !live.is_empty() && r.chance(1, 3) {
                    let mut x = r.pick(live).clone();
                    match r.below(8) {
                        0 => x.1.push('x'),
                        1 => std::mem::swap(&mut x.0, &mut x.1),
                        2 => {
                            // the same text, divided elsewhere
                            if let Some(c) = x.0.pop() {
                                x.1.insert(0, c);
                            }
                        }
                        3 => {
                            let sep = *r.pick(&["\0", "\t", ",", "=>", " ", "\u{1f}"]);
                            let w = r.pick(b);
                            if r.chance(1, 2) {
                                x.0 = format!("{}{}{}", x.0, sep, x.1);
                                x.1 = w.to_string();
                            } else {
                                x.1 = format!("{}{}{}", x.1, sep, w);
                            }
                        }
                        _ => {}
                    }
                    x
                } else {
                    (r.pick(a).to_string(), r.pick(b).to_string())
                });
            }
            (Rhs::S(synth(&p)), p)
        }
        12..=15 => {
            let (f, t) = (*r.pick(a), *r.pick(b));
            (Rhs::L(Linear::new(f, t).corr()), vec![(f.to_string(), t.to_string())])
        }
        16..=18 => {
            let n = r.below(5);
            let f: Vec<&'static str> = (0..n).map(|_| *r.pick(a)).collect();
            let t = *r.pick(b);
            let p = f.iter().map(|x| (x.to_string(), t.to_string())).collect();
            let f: &'static [&'static str] = Box::leak(f.into_boxed_slice());
            (Rhs::U(Unification::new(f, t).corr()), p)
        }
        k => {
            let x = match k {
                19 => Rhs::All,
                20 => Rhs::Digits,
                21 => Rhs::Alphabets,
                22 => if r.chance(1, 2) { Rhs::Punctuations } else { Rhs::Kanas },
                _ => if r.chance(1, 4) { Rhs::Cjk } else { Rhs::Digits },
            };
            let p = x.items();
            (x, p)
        }
    }
}

/// A word for each number: different numbers give different words, neighbours look alike.
fn numbered(k: usize, style: usize) -> String {
    let deep = ['あ', 'い', 'う', 'え', 'お', 'ｱ', 'a', '1'];
    match style {
        0 => format!("{}", k),
        1 => format!("{:08}", k),
        2 => {
            let (mut k, mut s) = (k, String::new());
            loop {
                s.push(deep[k % 8]);
                k /= 8;
                if k == 0 {
                    break s;
                }
            }
        }
        _ => char::from_u32(0x20000 + k as u32).map(|c| c.to_string()).unwrap(),
    }
}

/// Set algebra over many entries.
fn many(r: &mut Rng, n: usize) -> Result<(), String> {
    let (style, shape) = (r.below(if n < 40_000 { 4 } else { 3 }), r.below(4));
    let pair = |k: usize| -> (String, String) {
        match shape {
            // one target; several sources per target; several targets per source; as many of each
            0 => (numbered(k, style), "x".into()),
            1 => (numbered(k, style), numbered(k % 7, style)),
            2 => (numbered(k / 3, style), numbered(k % 3, style)),
            _ => (numbered(k, style), numbered(k, style)),
        }
    };
    let cut = r.range(1, n);
    let mut first: Pairs = (0..cut).map(pair).collect();
    let mut second: Pairs = (cut.saturating_sub(r.below(300))..n).map(pair).collect();
    r.shuffle(&mut first);
    r.shuffle(&mut second);
    let all: BTreeSet<(String, String)> = first.iter().chain(second.iter()).cloned().collect();
    let want: Pairs = all.iter().cloned().collect();
    let (a, b) = (synth(&first), synth(&second));
    let mut t = Table::new();
    t.add(&a);
    t.add(&b);
    same("added to a table in two parts", &pairs_of(&t.items()), &want)?;
    let mut bu = TableBuilder::new();
    bu.add_corr(&b).add_corr(&a);
    let t2 = bu.build();
    same("added to a builder in the other order", &pairs_of(&t2.items()), &want)?;
    same("+", &pairs_of(&(b.clone() + &a).items()), &want)?;
    let mut op = a.clone();
    op += &b;
    same("+=", &pairs_of(&op.items()), &want)?;
    if op != t.corr() || op == a && want != first {
        return Err("== of correspondences disagrees with their entries".into());
    }
    // take some away, among them some that are not there
    let k = if n > 10_000 { 40 } else { r.range(1, n) };
    let mut less: Pairs = (0..k).map(|_| pair(r.below(n + 20))).collect();
    less.push(("\u{1}no".into(), "such".into()));
    let gone: BTreeSet<(String, String)> = less.iter().cloned().collect();
    let rest: Pairs = want.iter().filter(|x| !gone.contains(*x)).cloned().collect();
    let l = synth(&less);
    t.remove(&l);
    same("removed from a table", &pairs_of(&t.items()), &rest)?;
    let mut bu = TableBuilder::from_table(t2);
    bu.remove_corr(&l);
    same("removed from a builder", &pairs_of(&bu.build().items()), &rest)?;
    same("-", &pairs_of(&(op.clone() - &l).items()), &rest)?;
    let mut op2 = op.clone();
    op2 -= &l;
    same("-=", &pairs_of(&op2.items()), &rest)?;
    same("the copy", &pairs_of(&op.items()), &want)?;
    same("right operand", &pairs_of(&l.items()), &less)?;
    // and all but one
    if n <= 5000 {
        let keep = r.below(want.len());
        let but: Pairs = want.iter().enumerate().filter(|(i, _)| *i != keep).map(|(_, x)| x.clone()).collect();
        op -= &synth(&but);
        same("all but one removed", &pairs_of(&op.items()), &vec![want[keep].clone()])?;
    }
    Ok(())
}

fn c13(ctx: &mut Ctx) -> R {
    let histories = ctx.budget(6000, 120000);
    for hno in 0..histories {
        let (a, b) = pool(&mut ctx.rng);
        let start: Pairs = if ctx.rng.chance(1, 2) {
            Vec::new()
        } else {
            (0..ctx.rng.below(12)).map(|_| (ctx.rng.pick(&a).to_string(), ctx.rng.pick(&b).to_string())).collect()
        };
        let mut model = SetModel::new(start.clone());
        let mut table = Table::from_corr(synth(&start), Origin::New);
        let mut builder = TableBuilder::from_table(table.clone());
        let mut op: Correspondence<Synthesized> = synth(&start);
        let mut chain: Correspondence<Synthesized> = synth(&start);
        let mut copies: Vec<(Table, Correspondence<Synthesized>, SetModel)> = Vec::new();
        let mut log: Vec<String> = vec![format!("start {}", show_pairs(&start))];
        let steps = ctx.rng.range(1, if hno % 50 == 0 { 120 } else { 14 });
        for _ in 0..steps {
            let (x, p) = rhs(&mut ctx.rng, &a, &b, &model.raw);
            let adding = ctx.rng.chance(3, 5);
            if ctx.rng.chance(1, 4) {
                copies.push((table.clone(), table.corr(), model.clone()));
            }
            let before = model.raw.clone();
            log.push(format!("{} {}", if adding { "add" } else { "remove" }, show_pairs(&p)));
            let mut m2 = model.clone();
            if adding {
                m2.add(&p);
            } else {
                m2.remove(&p);
            }
            let by_builder = ctx.rng.chance(1, 2);
            let desc = || log.join("\n");
            let checkcopies = &copies;
            ctx.judge(&desc, || {
                with_rhs!(&x, c => {
                    if adding {
                        table.add(c);
                        op += c;
                    } else {
                        table.remove(c);
                        op -= c;
                    }
                    let old = std::mem::take(&mut builder).build();
                    let mut bb = if by_builder { old.builder() } else { TableBuilder::from_table(old) };
                    if adding { bb.add_corr(c); } else { bb.remove_corr(c); }
                    builder = bb;
                    let prev = chain.clone();
                    chain = if adding { prev.clone() + c } else { prev.clone() - c };
                    same("left operand of + or - taken before", &pairs_of(&prev.items()), &pairs_of(&prev.clone().items()))?;
                });
                m2.check("table", table.items())?;
                m2.check("table.corr()", table.corr().items())?;
                m2.check("+= / -=", op.items())?;
                m2.check("+ / -", chain.items())?;
                let t = std::mem::take(&mut builder).build();
                m2.check("builder", t.items())?;
                builder = TableBuilder::from_table(t);
                same("right operand afterwards", &x.items(), &p)?;
                for (t, c, m) in checkcopies.iter().rev().take(3) {
                    m.check("copy of the table taken earlier", t.items())?;
                    m.check("correspondence taken earlier", c.items())?;
                }
                if table.corr() != op {
                    return Err("table.corr() != operator result".into());
                }
                Ok(())
            })?;
            model = m2;
            if before != model.raw {
                let k = format!("{:?}{:?}{}", before, p, adding);
                ctx.key(&[k.as_bytes()]);
                ctx.event("steps that changed the entries", 1);
            }
        }
        let last = log.last().cloned().unwrap_or_default();
        ctx.sample(|| format!("{} steps; last: {}", steps, last));
        // order of additions
        if hno % 4 == 0 {
            let mut list: Vec<(Rhs, Pairs)> = (0..ctx.rng.range(2, 6)).map(|_| rhs(&mut ctx.rng, &a, &b, &model.raw)).collect();
            let mut t1 = Table::new();
            let mut b1 = TableBuilder::new();
            for (x, _) in &list {
                with_rhs!(x, c => t1.add(c));
            }
            ctx.rng.shuffle(&mut list);
            let t2 = {
                for (x, _) in &list {
                    with_rhs!(x, c => { b1.add_corr(c); });
                }
                b1.build()
            };
            let d = format!("additions in two orders: {}", list.iter().map(|x| show_pairs(&x.1)).collect::<Vec<_>>().join("; "));
            ctx.judge(&|| d.clone(), || {
                same("entries", &pairs_of(&t2.items()), &pairs_of(&t1.items()))?;
                let mut w: Pairs = list.iter().flat_map(|x| x.1.clone()).collect();
                w.sort();
                w.dedup();
                same("entries", &pairs_of(&t1.items()), &w)
            })?;
            ctx.event("orders compared", 1);
        }
    }
    // many entries
    let big = ctx.budget(8, 200);
    for i in 0..big {
        let top = if i == 0 && ctx.mine(1) { 70_000 } else { *ctx.rng.pick(&[257, 300, 1030, 2100, 5000]) };
        let n = top - ctx.rng.below(3);
        let d = format!("many entries: about {} ({})", n, i);
        let mut r = Rng::new(ctx.rng.next());
        ctx.judge(&|| d.clone(), || many(&mut r, n))?;
        ctx.key(&[b"many", d.as_bytes()]);
        ctx.event("sets of many entries", 1);
    }
    // operators between published sets of different types
    if ctx.mine(0) {
        ctx.judge(&|| "operators between published sets".into(), || {
            let all: Pairs = pairs_of(&cs::ALL.items());
            let dig: Pairs = pairs_of(&cs::digits::DIGITS.items());
            let minus = pairs_of(&(cs::ALL - &cs::digits::DIGITS).items());
            let mut w: Pairs = all.iter().filter(|x| !dig.contains(x)).cloned().collect();
            w.sort();
            same("ALL - DIGITS", &minus, &w)?;
            let plus = pairs_of(&(cs::digits::DIGITS + &cs::ALL).items());
            let mut w = all.clone();
            w.sort();
            same("DIGITS + ALL", &plus, &w)?;
            let e = pairs_of(&(cs::ALL - &cs::punctuations::Punctuations::EQUAL_SIGN).items());
            w.retain(|x| x.0 != "＝");
            same("ALL - EQUAL_SIGN", &e, &w)
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(ctx: &mut Ctx) -> R {
    let preset: BTreeMap<String, String> = model::preset_pairs().into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let forms: HashMap<String, String> = unidata::FORMS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let sets: Vec<(&str, Vec<Item>, Vec<Item>)> = vec![
        ("digits", cs::digits::DIGITS.items(), cs::digits::Digits::new().items()),
        ("alphabets", cs::alphabets::ALPHABETS.items(), cs::alphabets::Alphabets::new().items()),
        ("punctuations", cs::punctuations::PUNCTUATIONS.items(), cs::punctuations::Punctuations::new().items()),
        ("kanas", cs::kanas::KANAS.items(), cs::kanas::Kanas::new().items()),
        ("cjk_compatibilities", cs::cjk_compatibilities::CJK_COMPATIBILITIES.items(), cs::cjk_compatibilities::CjkCompatibilities::new().items()),
        ("all", cs::ALL.items(), cs::All::new().items()),
    ];
    let in_set = |name: &str, c: char, to: char| -> bool {
        match name {
            "digits" => to.is_ascii_digit(),
            "alphabets" => to.is_ascii_alphabetic(),
            "kanas" => ('\u{ff66}'..='\u{ff9d}').contains(&c),
            "all" => true,
            _ => !to.is_ascii_alphanumeric() && !('\u{ff66}'..='\u{ff9d}').contains(&c),
        }
    };
    for (name, items, again) in &sets {
        let got = pairs_of(items);
        ctx.event(&format!("entries of {}", name), got.len() as u64);
        ctx.judge(&|| format!("set {}", name), || {
            same("set made anew", &pairs_of(again), &got)?;
            let mut seen = HashMap::new();
            for (f, t) in &got {
                if f.chars().count() != 1 {
                    return Err(format!("source {} is not a single character", show(f)));
                }
                if let Some(o) = seen.insert(f.clone(), t.clone()) {
                    return Err(format!("two entries for {}: {} and {}", show(f), show(&o), show(t)));
                }
            }
            Ok(())
        })?;
        if *name != "cjk_compatibilities" {
            let want: Pairs = preset
                .iter()
                .filter(|(a, b)| {
                    let c = a.chars().next().unwrap();
                    let t = b.chars().next().unwrap();
                    // the half-width marks belong to the kana or to the punctuation set: only their union is fixed
                    in_set(name, c, t) && !(*name != "all" && ('\u{ff61}'..='\u{ff65}').contains(&c)) && !(*name != "all" && c == '　')
                })
                .map(|(a, b)| (a.clone(), b.clone()))
                .collect();
            let flexible = |f: &str| *name != "all" && (f == "　" || ("｡".."ｦ").contains(&f));
            let got2: Pairs = got.iter().filter(|x| !flexible(&x.0)).cloned().collect();
            ctx.judge(&|| format!("set {} against the conversions of the preset", name), || same_set("entries", &got2, &want))?;
            for (f, t) in &got {
                ctx.judge(&|| format!("entry {} of {}", show(f), name), || {
                    match forms.get(f) {
                        Some(u) if u != t && f != "￥" => Err(format!("{} instead of the Unicode form {}", show(t), show(u))),
                        _ => Ok(()),
                    }?;
                    match preset.get(f) {
                        Some(u) if u == t => Ok(()),
                        o => Err(format!("{} instead of {:?}", show(t), o)),
                    }
                })?;
                ctx.key(&[name.as_bytes(), f.as_bytes()]);
                ctx.sample(|| format!("{}: {} > {}", name, show(f), show(t)));
            }
        }
    }
    // the four sets together are the preset
    let union: Pairs = sets[..4].iter().flat_map(|s| pairs_of(&s.1)).collect();
    let want: Pairs = preset.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    ctx.judge(&|| "digits, alphabets, punctuations and kanas together".into(), || {
        same_set("entries", &union, &want)?;
        if union.len() != want.len() {
            return Err("a source belongs to two of the sets".into());
        }
        let mut u2 = union.clone();
        u2.sort();
        let mut a = pairs_of(&sets[5].1);
        a.sort();
        same("all", &a, &u2)?;
        let mut b = TableBuilder::new();
        b.preset();
        same("preset table", &pairs_of(&b.build().items()), &u2)
    })?;
    // CJK compatibility
    let cjk: HashMap<String, String> = pairs_of(&sets[4].1).into_iter().collect();
    for i in 0..256usize {
        let c = char::from_u32(0x3300 + i as u32).unwrap().to_string();
        ctx.judge(&|| format!("CJK compatibility character {}", show(&c)), || {
            let got = cjk.get(&c).ok_or("no entry")?;
            let u = unidata::CJK[i].replace(['μ', 'µ'], "µ").replace('∕', "/");
            let g = got.replace(['μ', 'µ'], "µ");
            let ok = match 0x3300 + i {
                0x33cd => ["K.K.", "KK", "K.", "K.K"].contains(&&got[..]) || g == u,
                0x33d7 => got.eq_ignore_ascii_case("ph"),
                0x33d9 => got.eq_ignore_ascii_case("ppm"),
                _ => g == u,
            };
            if ok {
                Ok(())
            } else {
                Err(format!("expands to {} instead of {}", show(got), show(&u)))
            }
        })?;
        ctx.key(&[c.as_bytes()]);
    }
    ctx.judge(&|| "number of CJK entries".into(), || if cjk.len() == 256 { Ok(()) } else { Err(format!("{}", cjk.len())) })?;
    // single constants hold the entry that their names say
    let one = super::constants::constants();
    for (name, items, f, t) in &one {
        // those without a target here: the one of the whole set, which was checked above
        let t = t.map(|x| x.to_string()).or_else(|| cjk.get(*f).cloned()).unwrap_or_default();
        ctx.judge(&|| format!("constant {}", name), || same("entries", &pairs_of(items), &vec![(f.to_string(), t.clone())]))?;
        ctx.key(&[name.as_bytes()]);
    }
    ctx.event("constants", one.len() as u64);
    // every combination of sets as a table
    for mask in 0..32usize {
        let mut b = TableBuilder::new();
        let mut want: Pairs = Vec::new();
        for k in 0..5 {
            if mask >> k & 1 == 1 {
                match k {
                    0 => b.add_corr(&cs::digits::DIGITS),
                    1 => b.add_corr(&cs::alphabets::ALPHABETS),
                    2 => b.add_corr(&cs::punctuations::PUNCTUATIONS),
                    3 => b.add_corr(&cs::kanas::KANAS),
                    _ => b.add_corr(&cs::cjk_compatibilities::CJK_COMPATIBILITIES),
                };
                want.extend(pairs_of(&sets[k].1));
            }
        }
        want.sort();
        let t = b.build();
        ctx.judge(&|| format!("combination {:05b} of the sets", mask), || {
            let got = pairs_of(&t.items());
            same("entries", &got, &want)?;
            let s: HashSet<&String> = got.iter().map(|x| &x.0).collect();
            if s.len() != got.len() {
                return Err("a source has two entries".into());
            }
            // as a pipeline: the single-character conversions of these sets and no others
            let c = Chanoma::from_table(t.clone());
            let text: String = preset.keys().cloned().collect();
            let w: String = preset
                .keys()
                .map(|k| want.iter().find(|x| &x.0 == k).map(|x| x.1.clone()).unwrap_or_else(|| k.clone()))
                .collect();
            if c.normalize(&text) != w {
                return Err(crate::ctx::diff("conversion", &c.normalize(&text), &w));
            }
            Ok(())
        })?;
        ctx.key(&[&[mask as u8]]);
        ctx.event("combinations", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

struct CsvFile {
    text: String,
    items: Pairs,
}

fn csv_quote(r: &mut Rng, s: &str, alone: bool) -> String {
    let must = s.contains(['"', ',', '\n', '\r']) || (alone && s.is_empty());
    if must || r.chance(1, 4) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

fn csv_word(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&['"', ',', '\n', '\r', 'a', ' ', '\'', '#', ';', '\t', 'あ', '\\', '|', '\u{feff}', '\0', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{a0}', '\u{3000}', '，'])).collect()
        }
        2 => "x".repeat(gen::edge_len(r, 400)),
        3 => format!(" {} ", gen::any(r)),
        _ => word(r, 5),
    }
}

fn csv_file(r: &mut Rng, single: bool) -> CsvFile {
    let rows = match r.below(10) {
        0 => 0,
        1 => r.range(50, 700),
        _ => r.range(1, 12),
    };
    let style = r.below(3);
    let crlf = style == 1;
    let mixed = style == 2;
    let mut text = String::new();
    let nl = |r: &mut Rng| if crlf || (mixed && r.chance(1, 2)) { "\r\n" } else { "\n" };
    let n = r.range(1, 6);
    let header: Vec<String> = (0..n)
        .map(|i| {
            let w = csv_word(r);
            let w = if i == 0 && w.starts_with('\u{feff}') { "from".to_string() } else { w };
            csv_quote(r, &w, n == 1)
        })
        .collect();
    if r.chance(1, 8) {
        text.push_str(nl(r));
    }
    text.push_str(&header.join(","));
    text.push_str(nl(r));
    let mut items = Vec::new();
    let mut used = HashSet::new();
    for _ in 0..rows {
        while r.chance(1, 10) {
            text.push_str(nl(r));
        }
        let k = match r.below(12) {
            0 => 1,
            1..=6 => 2,
            7 | 8 => 3,
            9 | 10 => r.range(2, 8),
            _ => match r.below(60) {
                0 => *r.pick(&[128, 255, 256, 257, 300, 512, 1025]),
                _ => r.range(2, 40),
            },
        };
        let mut f: Vec<String> = Vec::new();
        for _ in 0..k {
            if single {
                let c = gen::any(r);
                f.push(c.to_string());
            } else {
                f.push(csv_word(r));
            }
        }
        if single {
            let last = f.pop().unwrap();
            f.retain(|x| used.insert(x.clone()));
            f.push(last);
        }
        let to = f.last().unwrap().clone();
        for x in &f[..f.len() - 1] {
            items.push((x.clone(), to.clone()));
        }
        let alone = f.len() == 1;
        let q: Vec<String> = f.iter().map(|x| csv_quote(r, x, alone)).collect();
        text.push_str(&q.join(","));
        text.push_str(nl(r));
    }
    if r.chance(1, 3) {
        // missing final newline
        if text.ends_with('\n') {
            text.pop();
            if text.ends_with('\r') {
                text.pop();
            }
        }
    } else {
        while r.chance(1, 5) {
            text.push_str(nl(r));
        }
    }
    CsvFile { text, items }
}

fn sorted_set(p: &Pairs) -> Pairs {
    let s: BTreeSet<_> = p.iter().cloned().collect();
    s.into_iter().collect()
}

fn file_desc(ext: &str, text: &str) -> String {
    format!("{} file ({} bytes):\n{}\n(as a string: {})", ext, text.len(), clip(text, 1500), clip(&show(text), 2500))
}

/// All ways of loading a table file, against the expected entries in file order.
fn table_ways(path: &Path, yaml: bool, want: &Pairs) -> Result<(), String> {
    let e = |e: chanoma::error::Error| format!("refused: {}", e);
    let t = if yaml { file::table_from_yaml_path(path) } else { file::table_from_csv_path(path) }.map_err(e)?;
    same("table", &pairs_of(&t.items()), want)?;
    let b = if yaml { TableBuilder::from_yaml_path(path) } else { TableBuilder::from_csv_path(path) }.map_err(e)?;
    same("builder", &pairs_of(&b.build().items()), want)?;
    let mut b = TableBuilder::new();
    if yaml { b.add_from_yaml(path) } else { b.add_from_csv(path) }.map_err(e)?;
    let set = sorted_set(want);
    same("builder addition", &pairs_of(&b.build().items()), &set)?;
    // added to other entries
    let other = vec![("p".to_string(), "q".to_string()), ("zz".to_string(), String::new())];
    let mut b = TableBuilder::from_table(Table::from_corr(synth(&other), Origin::New));
    if yaml { b.add_from_yaml(path) } else { b.add_from_csv(path) }.map_err(e)?;
    let mut w = want.clone();
    w.extend(other);
    same("builder addition to a table", &pairs_of(&b.build().items()), &sorted_set(&w))?;
    Ok(())
}

/// A whole configuration made from the file, for one-character entries with distinct sources.
fn pipeline_way(path: &Path, want: &Pairs, texts: &[String]) -> Result<(), String> {
    let c = cfg::load(path)?;
    let map: HashMap<char, char> = want.iter().map(|(a, b)| (a.chars().next().unwrap(), b.chars().next().unwrap())).collect();
    let d = Chanoma::from_table(Table::from_corr(synth(want), Origin::New));
    let mut f = vec![want.iter().map(|x| &x.0[..]).collect::<String>()];
    f.extend(texts.iter().cloned());
    for t in &f {
        let w = model::convert(t, &map);
        if c.normalize(t) != w {
            return Err(crate::ctx::diff("pipeline from the file", &c.normalize(t), &w));
        }
        if d.normalize(t) != w {
            return Err(crate::ctx::diff("pipeline from a table with these entries", &d.normalize(t), &w));
        }
    }
    Ok(())
}

fn texts_for(r: &mut Rng, p: &Pairs, n: usize) -> Vec<String> {
    let focus: Vec<char> = p.iter().take(60).flat_map(|(a, b)| a.chars().chain(b.chars()).collect::<Vec<_>>()).collect();
    (0..n).map(|_| gen::text(r, &focus)).collect()
}

/// A file whose content changes while its name, length and time stay as they are.
fn changing(ctx: &mut Ctx, ext: &str) -> R {
    let p = ctx.dir.join(format!("changing.{}", ext));
    let yaml = ext != "csv";
    let old = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    let n = ctx.rng.range(1, 4);
    let mut before = String::new();
    for _ in 0..ctx.rng.range(2, 5) {
        let mut used = HashSet::new();
        let mut want: Pairs = Vec::new();
        while want.len() < n {
            let c = char::from_u32(0x3041 + ctx.rng.below(80) as u32).unwrap();
            if used.insert(c) {
                want.push((c.to_string(), char::from_u32(0x3041 + ctx.rng.below(80) as u32).unwrap().to_string()));
            }
        }
        let mut text = String::from(if yaml { "items:\n" } else { "h,h\n" });
        for (a, b) in &want {
            text.push_str(&if yaml { format!("  - {{from: {}, to: {}}}\n", a, b) } else { format!("{},{}\n", a, b) });
        }
        if ctx.rng.chance(1, 4) {
            let q = ctx.dir.join("replacement");
            std::fs::write(&q, &text).unwrap();
            std::fs::rename(&q, &p).unwrap();
        } else {
            std::fs::write(&p, &text).unwrap();
        }
        std::fs::File::options().write(true).open(&p).and_then(|f| f.set_modified(old)).unwrap();
        let texts = texts_for(&mut ctx.rng, &want, 2);
        let d = format!("the file changes, its name, length and time do not; before:\n{}\nnow:\n{}", before, text);
        ctx.judge(&|| d.clone(), || {
            table_ways(&p, yaml, &want)?;
            pipeline_way(&p, &want, &texts)
        })?;
        ctx.event("files changed in place with the same length and time", 1);
        before = text;
    }
    let _ = std::fs::remove_file(&p);
    Ok(())
}

fn c15(ctx: &mut Ctx) -> R {
    for _ in 0..ctx.budget(400, 10_000) {
        changing(ctx, "csv")?;
    }
    for k in 0..ctx.budget(16000, 300000) {
        let single = k % 3 == 0;
        let f = csv_file(&mut ctx.rng, single);
        let place = ctx.place(if k % 7 == 0 { "data" } else { "csv" }, f.text.as_bytes());
        let p = place.path.clone();
        let texts = texts_for(&mut ctx.rng, &f.items, 3);
        let asconfig = p.extension().unwrap() == "csv";
        ctx.judge(&|| format!("{:?}, {}", p, file_desc("CSV", &f.text)), || {
            table_ways(&p, false, &f.items)?;
            if single && asconfig {
                pipeline_way(&p, &f.items, &texts)?;
            } else if asconfig {
                cfg::load(&p)?;
            }
            Ok(())
        })?;
        drop(place);
        if !f.items.is_empty() {
            ctx.key(&[f.text.as_bytes()]);
        }
        ctx.event("entries", f.items.len() as u64);
        ctx.sample(|| show(&f.text));
    }
    every_size(ctx, false)?;
    // rows with very many fields, very long fields, very many rows, after and before ordinary ones
    for k in 0..ctx.budget(24, 120) {
        let n = *ctx.rng.pick(&[5000, 65_534, 65_536, 70_000, 140_000]);
        let mut rows: Vec<Vec<String>> = vec![vec!["a".into(), "b".into()], vec!["c".into(), "d".into(), "e".into()]];
        match k % 3 {
            0 => rows.insert(ctx.rng.below(3), (0..n).map(|i| format!("{}", i)).collect()),
            1 => rows.insert(ctx.rng.below(3), vec![if k % 2 == 0 { "x".repeat(n) } else { "\"\n,".repeat(n / 3) }, "y".repeat(n / 2)]),
            _ => rows.extend((0..n).map(|i| vec![format!("p{}", i), format!("q{}", i % 300)])),
        }
        let mut text = String::from("from,to\n");
        let mut items = Vec::new();
        for row in &rows {
            text.push_str(&row.iter().map(|x| csv_field(x)).collect::<Vec<_>>().join(","));
            text.push('\n');
            let to = row.last().unwrap();
            items.extend(row[..row.len() - 1].iter().map(|x| (x.clone(), to.clone())));
        }
        let p = ctx.path("csv");
        std::fs::write(&p, &text).unwrap();
        ctx.judge(&|| file_desc("CSV", &text), || table_ways(&p, false, &items))?;
        let _ = std::fs::remove_file(&p);
        ctx.event("very wide, long or many rows", 1);
    }
    // large files, with rows and quoted fields across buffer boundaries
    for k in 0..ctx.budget(16, 200) {
        let n = 2000 + 1500 * (k % 4);
        let mut text = String::from("h\n");
        let mut items = Vec::new();
        for i in 0..n {
            let a = format!("{}{}", "あ".repeat(i % 7), i);
            let b = format!("\"{}\n", "b".repeat(ctx.rng.below(50)));
            text.push_str(&format!("{},{}\r\n", csv_field(&a), csv_field(&b)));
            items.push((a, b));
        }
        let p = ctx.path("csv");
        std::fs::write(&p, &text).unwrap();
        ctx.judge(&|| file_desc("CSV", &text), || table_ways(&p, false, &items))?;
        let _ = std::fs::remove_file(&p);
        ctx.event("large files", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn plain_safe(s: &str) -> bool {
    !s.is_empty()
        && s.chars().all(|c| c.is_alphanumeric())
        && !s.chars().next().unwrap().is_ascii_digit()
        && !["y", "n", "yes", "no", "on", "off", "true", "false", "null", "nan", "inf"].contains(&s.to_lowercase().as_str())
}

fn printable(c: char) -> bool {
    c.is_alphanumeric() || (' '..='~').contains(&c) || ('\u{3040}'..='\u{30ff}').contains(&c) || ('\u{ff01}'..='\u{ff9f}').contains(&c)
}

fn ystr(r: &mut Rng, s: &str) -> String {
    let mut ways = vec![0];
    if s.chars().all(printable) {
        ways.push(1);
        ways.push(2);
    }
    if plain_safe(s) {
        ways.push(3);
        ways.push(3);
    }
    match r.pick(&ways) {
        0 => q(s),
        1 => format!("'{}'", s.replace('\'', "''")),
        2 => format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")),
        _ => s.to_string(),
    }
}

fn yaml_word(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => r
            .pick(&[
                "yes", "no", "null", "~", "1", "0x1f", "1.5", "-", "- a", "a: b", "#", "# c", "true", "&a", "*a", "!x", "%", "@", "`", "[", "]", "{", "}", "|", ">", "?", ": ", "'", "\"",
                "\\", "\t", "\n", " ", "  a  ", "---", "...", "items", "from", "to", "<<", "=", ",", ".inf", "\\n", "\u{feff}", "\u{85}", "\u{2028}", "2001-01-01", "1_000", "0o7", "007", "1e3", ".5", "+1",
            ])
            .to_string(),
        2 => "k".repeat(gen::edge_len(r, 300)),
        _ => word(r, 5),
    }
}

/// entries in file order, and the file
/// As a literal or folded block, without the final line break; None where that needs special care.
fn block_scalar(r: &mut Rng, s: &str, indent: &str) -> Option<String> {
    if s.is_empty() || s.starts_with([' ', '\n', '\t']) || s.ends_with("\n\n") || !s.chars().all(|c| c == '\n' || printable(c)) {
        return None;
    }
    let folded = !s.trim_end_matches('\n').contains('\n') && r.chance(1, 2);
    let keep = s.ends_with('\n');
    let mut o = format!("{}{}", if folded { ">" } else { "|" }, if keep { "" } else { "-" });
    for l in s.trim_end_matches('\n').split('\n') {
        o.push('\n');
        if !l.is_empty() {
            o.push_str(&format!("{}     {}", indent, l));
        }
    }
    Some(o)
}

/// Other ways of writing the same file.
fn dress(r: &mut Rng, text: String) -> String {
    let mut t = text;
    let braces = t.trim_start().starts_with('{');
    if r.chance(1, 6) && !braces {
        let more = *r.pick(&[
            "version: 1\n",
            "other:\n  items:\n    - {from: z, to: w}\n    - {from: あ, to: w}\n  modifiers: {trim: }\n",
            "Items: [{from: z, to: w}]\n",
            "item: {w: z}\nnone: ~\n",
            "\"x y\": [1, 2.5, {a: [b]}]\n",
            "# only a comment\n\n",
            "modifier: {trim: }\n",
        ]);
        let doc = t.find("---\n").map(|i| i + 4).filter(|i| *i < 40 && !t[..*i].contains("items:\n -") ).unwrap_or(0);
        if r.chance(1, 2) {
            t.insert_str(doc, more);
        } else {
            if !t.ends_with('\n') {
                t.push('\n');
            }
            t.push_str(more);
        }
    }
    if r.chance(1, 12) && !t.contains("---") {
        t = format!("%YAML 1.2\n---\n{}", t);
    }
    if r.chance(1, 12) && t.ends_with('\n') {
        t.push_str("...\n");
    }
    if r.chance(1, 10) {
        t = t.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    if r.chance(1, 10) {
        t = t.trim_end_matches('\n').to_string();
    }
    if r.chance(1, 10) {
        t = format!("\n# \u{3042}: [\n\n{}", t);
    }
    t
}

fn yaml_table(r: &mut Rng, single: bool) -> (Pairs, String, &'static str) {
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(30, 300),
        _ => r.range(1, 10),
    };
    let mut used = HashSet::new();
    let mut entries: Pairs = Vec::new();
    let w = |r: &mut Rng| if single { gen::any(r).to_string() } else { yaml_word(r) };
    let mut o = String::new();
    if r.chance(1, 4) {
        o.push_str("# comment: items:\n");
    }
    if r.chance(1, 5) {
        o.push_str("---\n");
    }
    let kind = r.below(4);
    if kind < 2 {
        for _ in 0..n {
            let f = w(r);
            if single && !used.insert(f.clone()) {
                continue;
            }
            entries.push((f, w(r)));
        }
    }
    let indent = *r.pick(&["", "  ", "    "]);
    match kind {
        0 => {
            o.push_str("items:");
            if entries.is_empty() {
                o.push_str(" []\n");
            } else {
                o.push('\n');
            }
            for i in 0..entries.len() {
                let (f, t) = (ystr(r, &entries[i].0), ystr(r, &entries[i].1));
                match r.below(5) {
                    4 => {
                        let (bf, bt) = (block_scalar(r, &entries[i].0, indent), block_scalar(r, &entries[i].1, indent));
                        o.push_str(&format!("{}- from: {}\n{}  to: {}\n", indent, bf.unwrap_or(f), indent, bt.unwrap_or(t)));
                    }
                    0 => o.push_str(&format!("{}- {{from: {}, to: {}}}\n", indent, f, t)),
                    1 => o.push_str(&format!("{}- to: {}\n{}  from: {}\n", indent, t, indent, f)),
                    2 => o.push_str(&format!("{}-\n{}   \"from\": {}\n{}   'to': {} # c\n", indent, indent, f, indent, t)),
                    _ => o.push_str(&format!("{}- from: {}\n{}  to:   {}\n", indent, f, indent, t)),
                }
            }
            (entries, o, "block list of pairs")
        }
        1 => {
            o.push_str("items: [");
            let l: Vec<String> = entries.iter().map(|(f, t)| format!("{{from: {}, to: {}}}", ystr(r, f), ystr(r, t))).collect();
            o.push_str(&l.join(if r.chance(1, 2) { ", " } else { ",\n  " }));
            o.push_str("]\n");
            (entries, o, "flow list of pairs")
        }
        _ => {
            let flow = kind == 3;
            o.push_str(if flow { "items: {" } else { "items:" });
            let mut keys = HashSet::new();
            let mut parts = Vec::new();
            for _ in 0..n {
                let t = w(r);
                if !keys.insert(t.clone()) {
                    continue;
                }
                let k = *r.pick(&[1, 1, 1, 2, 3, 0, 7]);
                let mut fs: Vec<String> = (0..k).map(|_| w(r)).collect();
                if single {
                    fs.retain(|f| used.insert(f.clone()));
                }
                for f in &fs {
                    entries.push((f.clone(), t.clone()));
                }
                let key = ystr(r, &t);
                if fs.len() == 1 && r.chance(1, 2) {
                    parts.push(format!("{}: {}", key, ystr(r, &fs[0])));
                } else if flow || fs.is_empty() || r.chance(1, 3) {
                    let l: Vec<String> = fs.iter().map(|f| ystr(r, f)).collect();
                    parts.push(format!("{}: [{}]", key, l.join(", ")));
                } else {
                    let mut s = format!("{}:", key);
                    for f in &fs {
                        s.push_str(&format!("\n      - {}", ystr(r, f)));
                    }
                    parts.push(s);
                }
            }
            if flow {
                o.push_str(&parts.join(", "));
                o.push_str("}\n");
                (entries, o, "flow mapping of targets")
            } else {
                if parts.is_empty() {
                    o.push_str(" {}");
                }
                o.push('\n');
                for p in parts {
                    o.push_str(&format!("  {}\n", p));
                }
                (entries, o, "block mapping of targets")
            }
        }
    }
}

/// What the file says according to serde_yaml.
fn yaml_meaning(text: &str) -> Option<Pairs> {
    let v: serde_yaml::Value = serde_yaml::from_str(text).ok()?;
    let mut out = Vec::new();
    match v.get("items") {
        None => {}
        Some(serde_yaml::Value::Sequence(s)) => {
            for p in s {
                out.push((p.get("from")?.as_str()?.to_string(), p.get("to")?.as_str()?.to_string()));
            }
        }
        Some(serde_yaml::Value::Mapping(m)) => {
            for (k, v) in m {
                let t = k.as_str()?.to_string();
                match v {
                    serde_yaml::Value::Sequence(s) => {
                        for f in s {
                            out.push((f.as_str()?.to_string(), t.clone()));
                        }
                    }
                    v => out.push((v.as_str()?.to_string(), t)),
                }
            }
        }
        _ => return None,
    }
    Some(out)
}

fn c16(ctx: &mut Ctx) -> R {
    for k in 0..ctx.budget(400, 10_000) {
        changing(ctx, if k % 2 == 0 { "yaml" } else { "yml" })?;
    }
    let n = ctx.budget(16000, 300000);
    let mut skipped = 0;
    for k in 0..n {
        let single = k % 3 == 0;
        let (want, mut text, kind) = match k % 60 {
            7 => (Vec::new(), "modifiers:\n  trim:\n".to_string(), "no items section"),
            8 => (Vec::new(), "{}\n".to_string(), "empty mapping"),
            9 => (
                vec![("a".into(), "b".into()), ("c".into(), "b".into())],
                "x: &t \"b\"\nitems:\n- from: a\n  to: *t\n- from: c\n  to: *t\n".to_string(),
                "aliases",
            ),
            10 => (
                vec![("a b".into(), "c\nd".into()), ("e f".into(), "g\n".into())],
                "items:\n- from: >-\n    a\n    b\n  to: |-\n    c\n    d\n- {from: e\n  f, to: \"g\\n\"}\n".to_string(),
                "block scalars",
            ),
            _ => yaml_table(&mut ctx.rng, single),
        };
        if k % 5 == 4 && kind != "no items section" && text.ends_with('\n') && !text.starts_with("{}") {
            text.push_str("modifiers:\n  neologdn:\n  trim:\n");
        }
        text = dress(&mut ctx.rng, text);
        if yaml_meaning(&text).as_ref() != Some(&want) {
            skipped += 1;
            continue;
        }
        let place = ctx.place(if k % 2 == 0 { "yaml" } else { "yml" }, text.as_bytes());
        let p = place.path.clone();
        let texts = texts_for(&mut ctx.rng, &want, 3);
        let pipeline = single && k % 5 != 4 && want.iter().all(|x| x.0.chars().count() == 1 && x.1.chars().count() == 1) && kind != "no items section";
        ctx.judge(&|| format!("{:?}, {}; {}", p, kind, file_desc("YAML", &text)), || {
            table_ways(&p, true, &want)?;
            if pipeline {
                pipeline_way(&p, &want, &texts)?;
            } else {
                cfg::load(&p)?;
            }
            Ok(())
        })?;
        drop(place);
        if !want.is_empty() {
            ctx.key(&[text.as_bytes()]);
        }
        ctx.event(kind, 1);
        ctx.event("entries", want.len() as u64);
        ctx.sample(|| show(&text));
    }
    ctx.event("generated files dropped because serde_yaml reads them differently", skipped);
    every_size(ctx, true)?;
    // very many sources of one target, very many entries, very long strings
    for k in 0..ctx.budget(16, 80) {
        let n = if k < 4 && (ctx.mine(k) || ctx.thorough) { 66_000 } else { *ctx.rng.pick(&[257, 1025, 5000, 20_000]) };
        let mut want: Pairs = vec![("a".into(), "b".into())];
        let mut text = String::from("items:\n");
        match k % 4 {
            0 => {
                text.push_str("  b: a\n  T:\n");
                for i in 0..n {
                    text.push_str(&format!("    - s{}\n", i));
                    want.push((format!("s{}", i), "T".into()));
                }
            }
            1 => {
                text.push_str("  b: a\n");
                for i in 0..n {
                    text.push_str(&format!("  t{}: s{}\n", i, i));
                    want.push((format!("s{}", i), format!("t{}", i)));
                }
            }
            2 => {
                text.push_str("  - {from: a, to: b}\n");
                for i in 0..n {
                    text.push_str(&format!("  - {{from: s{}, to: t{}}}\n", i, i % 300));
                    want.push((format!("s{}", i), format!("t{}", i % 300)));
                }
            }
            _ => {
                let (f, t) = ("あ\n\"".repeat(n), "y ".repeat(n / 2));
                text.push_str(&format!("  - {{from: a, to: b}}\n  - from: {}\n    to: {}\n", q(&f), q(&t)));
                want.push((f, t));
            }
        }
        let p = ctx.path("yaml");
        std::fs::write(&p, &text).unwrap();
        ctx.judge(&|| file_desc("YAML", &text), || table_ways(&p, true, &want))?;
        let _ = std::fs::remove_file(&p);
        ctx.event("very large files", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

/// The same configuration in another notation.
fn cfg_text(r: &mut Rng, f: &FileCfg) -> String {
    let mut mods = String::new();
    if !f.stages.is_empty() {
        mods.push_str("modifiers:\n");
        for s in &f.stages {
            if r.chance(1, 2) {
                s.yaml(&mut mods);
                continue;
            }
            // flow style
            let v = match s {
                Stage::Conv(m) => format!("{{{}}}", m.iter().map(|(a, b)| format!("{}: {}", ystr(r, &a.to_string()), ystr(r, &b.to_string()))).collect::<Vec<_>>().join(", ")),
                Stage::Elim(v) => format!("[{}]", v.iter().map(|a| ystr(r, &a.to_string())).collect::<Vec<_>>().join(", ")),
                Stage::Reduce(c) => ystr(r, &c.to_string()),
                // a key followed by its colon has at most 1024 characters
                Stage::Lig(m) if m.iter().any(|(a, _)| a.chars().count() > 90) => {
                    s.yaml(&mut mods);
                    continue;
                }
                Stage::Lig(m) => format!("{{{}}}", m.iter().map(|(a, b)| format!("{}: {}", ystr(r, a), ystr(r, b))).collect::<Vec<_>>().join(", ")),
                _ => r.pick(&["", "~", "null"]).to_string(),
            };
            mods.push_str(&format!("  {}: {}\n", s.name(), v));
        }
    }
    let mut items = String::new();
    if !f.items.is_empty() || r.chance(1, 2) {
        let mut targets: Vec<char> = Vec::new();
        for (_, b) in &f.items {
            if !targets.contains(b) {
                targets.push(*b);
            }
        }
        items.push_str("items:");
        if f.items.is_empty() {
            items.push_str(if r.chance(1, 2) { " []\n" } else { " {}\n" });
        } else if r.chance(1, 2) {
            items.push('\n');
            for (a, b) in &f.items {
                items.push_str(&format!("  - {{from: {}, to: {}}}\n", qc(*a), qc(*b)));
            }
        } else {
            items.push('\n');
            for t in targets {
                let l: Vec<String> = f.items.iter().filter(|x| x.1 == t).map(|x| ystr(r, &x.0.to_string())).collect();
                items.push_str(&format!("  {}: [{}]\n", qc(t), l.join(", ")));
            }
        }
    }
    let s = if r.chance(1, 2) { format!("{}{}", mods, items) } else { format!("{}{}", items, mods) };
    if s.is_empty() {
        "{}\n".into()
    } else {
        s
    }
}

fn stage_count(v: &serde_yaml::Value) -> usize {
    v.get("modifiers").and_then(|m| m.as_mapping()).map(|m| m.len()).unwrap_or(0)
}

fn c17(ctx: &mut Ctx) -> R {
    let m = Models::new();
    // misleading files at every place that could be consulted by mistake
    let home = ctx.dir.join("home");
    let cwd = ctx.dir.join("cwd");
    std::fs::create_dir_all(home.join(".config/chanoma")).unwrap();
    std::fs::create_dir_all(&cwd).unwrap();
    let wrong = "modifiers:\n  character_eliminator: [a, あ, \" \", ア, \"1\"]\nitems: [{from: b, to: WRONG}, {from: ー, to: X}]\n";
    for d in [&home, &cwd, &home.join(".config/chanoma"), &ctx.dir.clone()] {
        for n in ["chanomarc.yaml", ".chanomarc.yml", "chanomarc.csv"] {
            std::fs::write(d.join(n), if n.ends_with("csv") { "h,h\nb,X\n" } else { wrong }).unwrap();
        }
    }
    std::env::set_var("HOME", &home);
    std::env::set_current_dir(&cwd).unwrap();
    let rc = home.join("chanomarc.yaml");
    let mut dropped = 0;
    for k in 0..ctx.budget(12000, 200000) {
        if k % 2 == 0 {
            std::env::set_var("CHANOMARC", &rc);
        } else {
            std::env::remove_var("CHANOMARC");
        }
        let (op, ext, text) = if k % 6 == 5 {
            let p = cfg::pairs(&mut ctx.rng, 200);
            let t = cfg::csv_of(&p);
            (Op::Csv(p), "csv", t)
        } else {
            let f = cfg::file_cfg(&mut ctx.rng, 7);
            let t = cfg_text(&mut ctx.rng, &f);
            let t = dress(&mut ctx.rng, t);
            // is it what was meant?
            match serde_yaml::from_str::<serde_yaml::Value>(&t) {
                Ok(v) if stage_count(&v) == f.stages.len() && yaml_meaning(&t).map(|x| sorted_set(&x)) == Some(sorted_set(&f.items.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())) => {}
                _ => {
                    dropped += 1;
                    continue;
                }
            }
            (Op::Yaml(f), *ctx.rng.pick(&["yaml", "yml"]), t)
        };
        let pipe = Pipe { ops: vec![op], direct: true };
        let c = match cfg::load_content(ctx, ext, &text) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", file_desc(ext, &text), e))),
        };
        let focus = pipe.focus();
        let h = fnv(&[text.as_bytes()]);
        for i in 0..12 {
            let t = if i == 0 { pipe.all_of_it(&mut ctx.rng) } else { gen::text(&mut ctx.rng, &focus) };
            ctx.text(h, &|| file_desc(ext, &text), &t, &|t| crate::props::text::both(&c, t, &pipe.apply(&m, t)))?;
        }
        ctx.event(if ext == "csv" { "CSV configurations" } else { "YAML configurations" }, 1);
        if let Op::Yaml(f) = &pipe.ops[0] {
            ctx.event(&format!("configurations with {} stages", f.stages.len()), 1);
        }
    }
    std::env::remove_var("CHANOMARC");
    ctx.event("generated files dropped because serde_yaml reads them differently", dropped);
    // every number of entries and of parameters
    for (k, n) in sizes().enumerate() {
        if !ctx.mine(k) || n > 5000 {
            continue;
        }
        let ch = |i: usize| char::from_u32(0x4e00 + (i as u32 * 7) % 20000).unwrap();
        let stage = match k / 8 % 4 {
            0 => Stage::Conv((0..n).map(|i| (ch(i), ch(i + 1))).collect()),
            1 => Stage::Elim((0..n).map(|i| ch(i * 2)).collect()),
            2 => Stage::Lig((0..n).map(|i| (format!("{}゛", ch(i)), ch(i + 9000).to_string())).collect()),
            _ => Stage::Trim,
        };
        let pipe = Pipe { ops: vec![Op::Yaml(FileCfg { stages: vec![stage, Stage::Reduce('x')], items: (0..n).map(|i| (ch(i), ch(i + 3))).collect() })], direct: true };
        let c = match pipe.build(ctx) {
            Ok(c) => c,
            Err(e) => return Err(ctx.violation(&format!("{}\n\n{}", pipe.describe(), e))),
        };
        for _ in 0..2 {
            let t = pipe.all_of_it(&mut ctx.rng);
            ctx.text(pipe.hash(), &|| pipe.describe(), &t, &|t| crate::props::text::both(&c, t, &pipe.apply(&m, t)))?;
        }
        ctx.event("configurations of every size", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn to_csv_bytes<T: Corr>(c: &Correspondence<T>) -> Vec<u8> {
    let mut v = b"from,to\n".to_vec();
    v.extend(file::to_csv_writer(c, Vec::new()).into_inner().unwrap());
    v
}

fn to_yaml_text<T: Corr>(c: &Correspondence<T>) -> Result<String, String> {
    serde_yaml::to_string(&file::to_serialized_corr(c)).map_err(|e| format!("YAML export failed: {}", e))
}

fn roundtrip<T: Corr>(c: &Correspondence<T>, want: &Pairs, yp: &Path, cp: &Path) -> Result<(), String> {
    let y = to_yaml_text(c)?;
    std::fs::write(yp, &y).unwrap();
    let t = file::table_from_yaml_path(yp).map_err(|e| format!("exported YAML refused: {}\n{}", e, clip(&show(&y), 1500)))?;
    same_set(&format!("loaded YAML\n{}\n", clip(&show(&y), 1500)), &pairs_of(&t.items()), want)?;
    let b = to_csv_bytes(c);
    std::fs::write(cp, &b).unwrap();
    let s = String::from_utf8_lossy(&b).into_owned();
    let t = file::table_from_csv_path(cp).map_err(|e| format!("exported CSV refused: {}\n{}", e, clip(&show(&s), 1500)))?;
    same_set(&format!("loaded CSV\n{}\n", clip(&show(&s), 1500)), &pairs_of(&t.items()), want)?;
    // number of entries: nothing is repeated by exporting distinct entries
    let mut d = want.clone();
    d.sort();
    d.dedup();
    if d.len() == want.len() && t.items().len() != want.len() {
        return Err(format!("{} entries instead of {}", t.items().len(), want.len()));
    }
    // and again from the loaded table
    let y2 = to_yaml_text(&t.corr())?;
    std::fs::write(yp, &y2).unwrap();
    let t2 = file::table_from_yaml_path(yp).map_err(|e| format!("second export refused: {}", e))?;
    same_set("CSV and YAML in turn", &pairs_of(&t2.items()), want)
}

/// Takes a part of what it is given, and is interrupted now and then.
struct Piecewise {
    got: Vec<u8>,
    most: usize,
    calls: usize,
}

impl std::io::Write for Piecewise {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 5 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.most);
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Words that serde_yaml 0.8 writes without quotes although it reads them as numbers.
fn number_word(s: &str) -> bool {
    let t = s.trim_start_matches('+');
    if t.len() < s.len() && [".inf", ".Inf", ".INF"].contains(&t) {
        return true;
    }
    let one = s.strip_prefix('+').unwrap_or(s);
    let digits = |d: &str, radix: u32| {
        let d = d.strip_prefix('+').unwrap_or(d);
        !d.is_empty() && d.chars().all(|c| c.is_digit(radix))
    };
    (one.starts_with("0b") && digits(&one[2..], 2)) || (one.starts_with("0o") && digits(&one[2..], 8)) || (s.starts_with("+0x") && digits(&s[3..], 16))
}

fn c18(ctx: &mut Ctx) -> R {
    let yp = ctx.path("yaml");
    let cp = ctx.path("csv");
    for k in 0..ctx.budget(16000, 300000) {
        let n = match ctx.rng.below(10) {
            0 => 0,
            1 => ctx.rng.range(20, 200),
            _ => ctx.rng.range(1, 8),
        };
        let few: Vec<String> = (0..3).map(|_| yaml_word(&mut ctx.rng)).collect();
        let w = |r: &mut Rng| match r.below(3) {
            0 => yaml_word(r),
            1 => csv_word(r),
            _ => word(r, 4),
        };
        let mut p: Pairs = (0..n)
            .map(|_| {
                let f = w(&mut ctx.rng);
                let t = if ctx.rng.chance(1, 2) { ctx.rng.pick(&few).clone() } else { w(&mut ctx.rng) };
                (f, t)
            })
            .collect();
        if k % 3 != 0 {
            p.sort();
            p.dedup();
        }
        // these are tried below
        p.retain(|x| !number_word(&x.0) && !number_word(&x.1));
        let c = synth(&p);
        ctx.judge(&|| format!("table {}", show_pairs(&p)), || roundtrip(&c, &p, &yp, &cp))?;
        if !p.is_empty() {
            let d = format!("{:?}", p);
            ctx.key(&[d.as_bytes()]);
        }
        ctx.event("entries", p.len() as u64);
        ctx.sample(|| show_pairs(&p));
    }
    // tables and entries of unusual size
    for k in 0..ctx.budget(48, 900) {
        let n = match k % 4 {
            0 => gen::edge_len(&mut ctx.rng, 3000),
            1 => ctx.rng.range(500, 6000),
            2 => ctx.rng.range(1, 5),
            _ => ctx.rng.range(30, 300),
        };
        // how many targets share the sources
        let targets = *ctx.rng.pick(&[1, 1, 2, 7, 1000, 100_000]);
        let long = k % 4 >= 2;
        let p: Pairs = (0..n)
            .map(|i| {
                let mut f = format!("{}{}", word(&mut ctx.rng, 3), i);
                let mut t = format!("t{}", i % targets);
                if long && ctx.rng.chance(1, 3) {
                    let m = gen::edge_len(&mut ctx.rng, if n < 10 { 100_000 } else { 9000 });
                    let unit = word(&mut ctx.rng, 4);
                    f.extend(unit.chars().cycle().take(if unit.is_empty() { 0 } else { m }));
                }
                if long && targets > 7 && ctx.rng.chance(1, 8) {
                    // longer ones are tried below
                    t.extend(std::iter::repeat('長').take(gen::edge_len(&mut ctx.rng, 950)));
                }
                (f, t)
            })
            .collect();
        let c = synth(&p);
        ctx.judge(&|| format!("table of {} entries, {} targets at most: {}", n, targets, clip(&show_pairs(&p), 2000)), || roundtrip(&c, &p, &yp, &cp))?;
        ctx.event(if n >= 1000 { "tables of a thousand entries and more" } else { "large and long tables" }, 1);
        // the writer takes what it likes
        let want = file::to_csv_writer(&c, Vec::new()).into_inner().unwrap();
        let most = *ctx.rng.pick(&[1, 3, 64, 5000]);
        ctx.judge(&|| format!("table of {} entries to a writer that takes at most {} bytes at a time: {}", n, most, clip(&show_pairs(&p), 2000)), || {
            let mut got = Piecewise { got: Vec::new(), most, calls: 0 };
            {
                let mut w = file::to_csv_writer(&c, &mut got);
                w.flush().map_err(|e| e.to_string())?;
            }
            if got.got != want {
                return Err(format!("{} bytes arrived instead of {}", got.got.len(), want.len()));
            }
            Ok(())
        })?;
        ctx.event("writers that take pieces", 1);
    }
    // every character as an entry
    let every = if ctx.thorough { 1 } else { 23 };
    let off = ctx.rng.below(every);
    let mut batch: Pairs = Vec::new();
    for (i, x) in gen::scalars().enumerate() {
        if !ctx.mine(i / 512) || (i % every != off && i > 0xffff) {
            continue;
        }
        batch.push((x.to_string(), format!("{}{}", x, i % 3)));
        if batch.len() == 200 {
            let c = synth(&batch);
            ctx.judge(&|| format!("table {}", show_pairs(&batch)), || roundtrip(&c, &batch, &yp, &cp))?;
            ctx.event("characters as entries", 200);
            batch.clear();
        }
    }
    if !batch.is_empty() {
        let c = synth(&batch);
        ctx.judge(&|| format!("table {}", show_pairs(&batch)), || roundtrip(&c, &batch, &yp, &cp))?;
    }
    // tables of every size up to some hundreds, and of usual large sizes
    for (k, n) in sizes().enumerate() {
        if !ctx.mine(k) {
            continue;
        }
        let targets = *ctx.rng.pick(&[1, 2, 7, 60, 100_000]);
        let p: Pairs = (0..n).map(|i| (format!("{}{}", char::from_u32(0x4e00 + (i as u32 * 7) % 20000).unwrap(), i), format!("t{}", i % targets))).collect();
        let c = synth(&p);
        ctx.judge(&|| format!("table of {} entries, {} targets at most: {}", n, targets, clip(&show_pairs(&p), 2000)), || roundtrip(&c, &p, &yp, &cp))?;
        ctx.event("tables of every size", 1);
    }
    if ctx.mine(1) {
        for w in ["0o7", "0b1", "0b101", "+0x1f", "+0o17", "+0b0", "+.inf", "0o+7"] {
            assert!(number_word(w));
            for p in [vec![(w.to_string(), "x".to_string())], vec![("x".to_string(), w.to_string())]] {
                let c = synth(&p);
                // CSV must work in any case
                let mut yaml_refused = None;
                ctx.judge(&|| format!("table {}", show_pairs(&p)), || {
                    match roundtrip(&c, &p, &yp, &cp) {
                        Err(e) if e.starts_with("exported YAML refused") => yaml_refused = Some(e),
                        o => return o,
                    }
                    std::fs::write(&cp, to_csv_bytes(&c)).unwrap();
                    let t = file::table_from_csv_path(&cp).map_err(|e| format!("exported CSV refused: {}", e))?;
                    same_set("loaded CSV", &pairs_of(&t.items()), &p)
                })?;
                if let Some(e) = yaml_refused {
                    ctx.known("number-words", &format!("table {}\n\n{}", show_pairs(&p), e))?;
                }
            }
        }
    }
    if ctx.mine(2) {
        for n in [1100, 5000] {
            let p = vec![("x".to_string(), "長".repeat(n))];
            let c = synth(&p);
            let mut yaml_refused = None;
            ctx.judge(&|| format!("table {}", show_pairs(&p)), || {
                match roundtrip(&c, &p, &yp, &cp) {
                    Err(e) if e.starts_with("exported YAML refused") => yaml_refused = Some(e),
                    o => return o,
                }
                std::fs::write(&cp, to_csv_bytes(&c)).unwrap();
                let t = file::table_from_csv_path(&cp).map_err(|e| format!("exported CSV refused: {}", e))?;
                same_set("loaded CSV", &pairs_of(&t.items()), &p)
            })?;
            if let Some(e) = yaml_refused {
                ctx.known("long-targets", &clip(&format!("a table with a target of {} characters\n\n{}", n, e), 600))?;
            }
        }
    }
    if ctx.mine(0) {
        ctx.judge(&|| "published sets".into(), || {
            roundtrip(&cs::ALL, &pairs_of(&cs::ALL.items()), &yp, &cp)?;
            roundtrip(&cs::digits::DIGITS, &pairs_of(&cs::digits::DIGITS.items()), &yp, &cp)?;
            roundtrip(&cs::cjk_compatibilities::CJK_COMPATIBILITIES, &pairs_of(&cs::cjk_compatibilities::CJK_COMPATIBILITIES.items()), &yp, &cp)
        })?;
        // the output program
        let bin = PathBuf::from(std::env::var_os("VMON_BIN").expect("VMON_BIN")).join("output");
        let mut b = TableBuilder::new();
        b.preset();
        let want = pairs_of(&b.build().items());
        for (args, ext) in [(vec![], "csv"), (vec!["-f", "csv"], "csv"), (vec!["--format", "csv"], "csv"), (vec!["-f", "yaml"], "yaml"), (vec!["--format=yaml"], "yaml"), (vec!["-fyaml"], "yaml")] {
            let p = ctx.path(ext);
            ctx.judge(&|| format!("output {:?}", args), || {
                let o = std::process::Command::new(&bin).args(&args).output().map_err(|e| e.to_string())?;
                if !o.status.success() {
                    return Err(format!("exit {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
                }
                std::fs::write(&p, &o.stdout).unwrap();
                let t = if ext == "yaml" { file::table_from_yaml_path(&p) } else { file::table_from_csv_path(&p) }.map_err(|e| format!("refused: {}", e))?;
                let mut got = pairs_of(&t.items());
                got.sort();
                same("entries of the printed file", &got, &want)?;
                // the file as a configuration
                let c = cfg::load(&p)?;
                let m = Models::new();
                let text: String = (0x20..0x10000u32).filter_map(char::from_u32).collect();
                if c.normalize(&text) != m.preset(&text) {
                    return Err(crate::ctx::diff("configuration from the printed file", &c.normalize(&text), &m.preset(&text)));
                }
                Ok(())
            })?;
            ctx.event("runs of the output program", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

struct Loaded {
    config: Option<bool>,
    outcome: String,
}

/// All loading functions on one path; panics are caught by the caller. Returns what the whole configuration gave.
fn load_all(path: &Path, texts: &[String], rc: bool) -> Result<Loaded, String> {
    let a = Chanoma::from_config_file(path);
    let use_it = |c: &Chanoma| -> Result<(), String> {
        for t in texts {
            let x = guard(|| c.normalize(t)).map_err(|e| format!("loaded, but normalising {}: {}", show(t), e))?;
            let y = guard(|| c.normalize_with_positions(t).text().to_string()).map_err(|e| format!("loaded, but tracing {}: {}", show(t), e))?;
            if x != y {
                return Err(crate::ctx::diff("loaded, but tracing differs", &y, &x));
            }
        }
        Ok(())
    };
    if let Ok(c) = &a {
        use_it(c)?;
    }
    let outcome = match &a {
        Ok(_) => "ok".to_string(),
        Err(e) => format!("{}", e),
    };
    for t in [file::table_from_csv_path(path), file::table_from_yaml_path(path)] {
        if let Ok(t) = t {
            let _ = t.items();
            use_it(&Chanoma::from_table(t))?;
        }
    }
    let _ = file::modifiers_from_yaml_path(path).map(|m| m.len());
    for b in [TableBuilder::from_csv_path(path), TableBuilder::from_yaml_path(path)] {
        if let Ok(b) = b {
            let _ = b.build().items();
        }
    }
    let mut b = TableBuilder::new();
    let _ = b.add_from_csv(path).map(|_| ());
    let _ = b.add_from_yaml(path).map(|_| ());
    use_it(&Chanoma::from_table(b.build()))?;
    if rc {
        std::env::set_var("CHANOMARC", path);
        let r = guard(Chanoma::load_rc);
        std::env::remove_var("CHANOMARC");
        let r = r?;
        if r.is_ok() != a.is_ok() {
            return Err(format!("load_rc succeeds: {}, from_config_file succeeds: {}", r.is_ok(), a.is_ok()));
        }
        if let Ok(c) = &r {
            use_it(c)?;
        }
    }
    Ok(Loaded { config: Some(a.is_ok()), outcome })
}

/// Whether the parser libraries call the content invalid.
pub(super) fn invalid(ext: &str, bytes: &[u8]) -> bool {
    if ext == "csv" {
        let mut rdr = csv::ReaderBuilder::new().flexible(true).from_reader(bytes);
        let bad = rdr.records().any(|r| r.is_err());
        bad
    } else {
        serde_yaml::from_reader::<_, serde_yaml::Value>(bytes).is_err()
    }
}

pub(super) const WRONG: &[&str] = &["null", "true", "1", "1.5", "-3", "\"\"", "\"x\"", "[]", "[1]", "[[]]", "[{}]", "[null]", "[\"\"]", "[\"a\", \"\"]", "[a, 2]", "{}", "{a: b}", "{a: 1}", "{1: a}", "{a: null}", "{null: a}", "{a: []}", "{a: {}}", "{[]: a}", "{\"\": a}", "{a: \"\"}", "{a: b, c: [d]}", "[a]", "{a: true}"];

/// true: must be refused; None: not specified
pub(super) fn must_fail(stage: &str, v: &str) -> Option<bool> {
    let v: serde_yaml::Value = serde_yaml::from_str(v).unwrap();
    use serde_yaml::Value as V;
    let one = |x: &V| matches!(x, V::String(s) if s.chars().count() == 1);
    let none = |x: &V| !matches!(x, V::String(s) if !s.is_empty());
    match stage {
        "trim" | "dotted_space_eliminator" | "neologdn" => Some(!v.is_null()),
        "consecutive_character_reducer" => Some(none(&v)),
        "character_eliminator" => match &v {
            V::Sequence(s) if s.iter().all(one) => Some(false),
            V::Sequence(s) if s.iter().any(none) => Some(true),
            V::Sequence(_) => None,
            _ => Some(true),
        },
        "character_converter" => match &v {
            V::Mapping(m) if m.iter().all(|(a, b)| one(a) && one(b)) => Some(false),
            V::Mapping(m) if m.iter().any(|(a, b)| none(a) || none(b)) => Some(true),
            V::Mapping(_) => None,
            _ => Some(true),
        },
        "ligature_translator" => match &v {
            V::Mapping(m) if m.iter().all(|(a, b)| !none(a) && b.is_string()) => Some(false),
            V::Mapping(m) if m.iter().any(|(a, b)| !a.is_string() || !b.is_string()) => Some(true),
            V::Mapping(_) => None,
            _ => Some(true),
        },
        _ => Some(true),
    }
}

pub(super) fn valid_file(r: &mut Rng) -> (&'static str, String) {
    match r.below(5) {
        0 => ("csv", csv_file(r, false).text),
        1 => ("csv", csv_file(r, true).text),
        2 => ("yaml", yaml_table(r, false).1),
        3 => {
            let f = cfg::file_cfg(r, 7);
            ("yaml", cfg_text(r, &f))
        }
        _ => {
            let f = cfg::file_cfg(r, 7);
            ("yml", f.yaml())
        }
    }
}

const META: &[&str] = &["\"", "'", ":", ": ", "-", "- ", "[", "]", "{", "}", ",", "#", "&a ", "*a", "!", "!!str ", "|", ">", "%", "@", "?", "\n", "\t", "  ", "\r", "\0", "~", "null", "---\n", "...\n", "<<: ", "\u{feff}", "items:", "modifiers:", "from: ", "trim:", "0", "\u{85}"];

pub(super) fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 8]) {
        let i = r.below(v.len() + 1);
        match r.below(8) {
            0 => v.truncate(i),
            1 if i < v.len() => v[i] = (r.next() & 0xff) as u8,
            2 if i < v.len() => {
                v.remove(i);
            }
            3 => v.insert(i, (r.next() & 0xff) as u8),
            4 if i < v.len() => {
                let j = (i + r.range(1, 20)).min(v.len());
                let p: Vec<u8> = v[i..j].to_vec();
                let k = r.below(v.len());
                v.splice(k..k, p);
            }
            5 if i < v.len() => {
                let j = (i + r.range(1, 20)).min(v.len());
                v.drain(i..j);
            }
            6 if i < v.len() => v[i] ^= 1 << r.below(8),
            _ => {
                let m = r.pick(META).as_bytes().to_vec();
                v.splice(i..i, m);
            }
        }
    }
    v
}

fn c19(ctx: &mut Ctx) -> R {
    let texts: Vec<String> = vec![
        String::new(),
        "a".into(),
        "aｱ ー~ か゛ \u{1f600}\u{0}".into(),
        (0x20..0x250u32).chain(0x3040..0x3100).filter_map(char::from_u32).collect(),
    ];
    let mut oks = 0u64;
    let mut errs = 0u64;
    let mut musts = 0u64;
    let mut one = |ctx: &mut Ctx, ext: &str, bytes: &[u8], must: Option<bool>, what: &str| -> R {
        let p = ctx.path(ext);
        std::fs::write(&p, bytes).unwrap();
        let rc = ctx.rng.chance(1, 3);
        let desc = || format!("{}\n{}\nhex: {}", what, file_desc(ext, &String::from_utf8_lossy(bytes)), crate::ctx::hex(bytes));
        let mut ok = None;
        ctx.judge(&desc, || {
            let l = load_all(&p, &texts, rc)?;
            ok = l.config;
            if must == Some(true) && l.config == Some(true) {
                return Err("accepted, although it must be refused".into());
            }
            if must == Some(false) && l.config == Some(false) {
                return Err(format!("refused, although it is valid: {}", l.outcome));
            }
            Ok(())
        })?;
        let _ = std::fs::remove_file(&p);
        ctx.key(&[ext.as_bytes(), bytes]);
        match ok {
            Some(true) => oks += 1,
            Some(false) => errs += 1,
            None => {}
        }
        if must == Some(true) {
            musts += 1;
        }
        ctx.sample(|| format!("{}: {}", what, show(&String::from_utf8_lossy(bytes))));
        Ok(())
    };
    // wrong values for every parameter of every stage, alone and after valid stages
    let stages = ["character_converter", "character_eliminator", "consecutive_character_reducer", "dotted_space_eliminator", "ligature_translator", "trim", "neologdn"];
    let names = ["Trim", "trims", "\"trim \"", "\"\"", "neo", "NEOLOGDN", "character_converters", "eliminator", "character_eliminator(~)", "\"consecutive_character_reducer(ー)\"", "items", "modifiers", "1", "null", "~", "[]", "{a: b}", "true", "preset", "ligature"];
    let mut idx = 0;
    for s in stages.iter().chain(names.iter()) {
        for v in WRONG {
            for (pre, post) in [("", ""), ("  consecutive_character_reducer: x\n", "  character_eliminator: [q]\n"), ("", "items:\n  - {from: a, to: b}\n")] {
                if pre.contains(&format!(" {}:", s)) || post.contains(&format!(" {}:", s)) {
                    continue;
                }
                idx += 1;
                if !ctx.mine(idx) {
                    continue;
                }
                let y = format!("modifiers:\n{}  {}: {}\n{}", pre, s, v, post);
                let must = must_fail(s, v);
                one(ctx, "yaml", y.as_bytes(), must, "stage parameter")?;
            }
        }
    }
    for v in WRONG.iter().chain(["[{from: a}]", "[{to: a}]", "[{from: a, to: 1}]", "[{from: 1, to: a}]", "[{from: [a], to: b}]", "[{from: a, to: b}, {}]", "[{from: a, to: b}, x]", "[{From: a, To: b}]", "{a: [b, 1]}", "{a: [[b]]}", "{a: {b: c}}"].iter()) {
        idx += 1;
        if !ctx.mine(idx) {
            continue;
        }
        use serde_yaml::Value as V;
        let pv: V = serde_yaml::from_str(v).unwrap();
        // an items section that is neither of the two spellings
        let must = match &pv {
            V::Null => None,
            V::Sequence(s) => Some(!s.iter().all(|p| p.get("from").map_or(false, |x| x.is_string()) && p.get("to").map_or(false, |x| x.is_string()))),
            V::Mapping(m) => Some(!m.iter().all(|(k, v)| k.is_string() && (v.is_string() || v.as_sequence().map_or(false, |s| s.iter().all(|x| x.is_string()))))),
            _ => Some(true),
        };
        one(ctx, "yaml", format!("items: {}\n", v).as_bytes(), must, "items section")?;
        one(ctx, "yml", format!("modifiers:\n  trim:\nitems: {}\n", v).as_bytes(), must, "items section after stages")?;
        let must = match &pv {
            V::Null => None,
            V::Mapping(m) if m.is_empty() => Some(false),
            _ => Some(true),
        };
        one(ctx, "yaml", format!("modifiers: {}\n", v).as_bytes(), must, "modifiers section")?;
        one(ctx, "yaml", format!("{}\n", v).as_bytes(), None, "whole document")?;
    }
    // truncations of valid files at every byte
    for _ in 0..ctx.budget(64, 2000) {
        let (ext, t) = valid_file(&mut ctx.rng);
        let b = t.as_bytes();
        let step = (b.len() / 150).max(1);
        for i in (0..b.len()).step_by(step) {
            let must = if invalid(ext, &b[..i]) { Some(true) } else { None };
            one(ctx, ext, &b[..i], must, "truncated file")?;
        }
    }
    for _ in 0..ctx.budget(14000, 400000) {
        let (ext, t) = valid_file(&mut ctx.rng);
        let b = mutate(&mut ctx.rng, t.as_bytes());
        let must = if invalid(ext, &b) { Some(true) } else { None };
        one(ctx, ext, &b, must, "mutated file")?;
    }
    for _ in 0..ctx.budget(6000, 200000) {
        let ext = *ctx.rng.pick(&["csv", "yaml", "yml"]);
        let n = gen::edge_len(&mut ctx.rng, 300);
        let b: Vec<u8> = match ctx.rng.below(3) {
            0 => (0..n).map(|_| (ctx.rng.next() & 0xff) as u8).collect(),
            1 => (0..n).map(|_| *ctx.rng.pick(b"abc:-[]{},#&*!|>'\"%@` \n\r\t0~?<=.\\")).collect(),
            _ => (0..n % 40).flat_map(|_| ctx.rng.pick(META).as_bytes().to_vec()).collect(),
        };
        let must = if invalid(ext, &b) { Some(true) } else { None };
        one(ctx, ext, &b, must, "random bytes")?;
    }
    // files without a valid extension, missing files, directories, links
    let good = "items:\n  - {from: a, to: b}\n";
    let mut path_cases = 0u64;
    if ctx.mine(3) {
        use std::ffi::OsString;
        use std::os::unix::ffi::OsStringExt;
        let d = ctx.dir.clone();
        std::fs::write(d.join("real.yaml"), good).unwrap();
        std::fs::create_dir_all(d.join("dir.yaml")).unwrap();
        std::fs::create_dir_all(d.join("dir.csv")).unwrap();
        let _ = std::os::unix::fs::symlink(d.join("nowhere"), d.join("dangling.yaml"));
        let _ = std::os::unix::fs::symlink(d.join("loop.yaml"), d.join("loop.yaml"));
        let _ = std::os::unix::fs::symlink(d.join("real.yaml"), d.join("link.yaml"));
        let mut bad: Vec<PathBuf> = ["noext", "a.json", "a.YAML", "a.CSV", "a.yaml.bak", "a.yaml ", "a.txt", ".yaml", ".csv", "a.", "a.y", "a.cs", "a.csvx", "yaml", "csv"].iter().map(|x| d.join(x)).collect();
        bad.push(d.join(OsString::from_vec(b"a.\xff\xfe".to_vec())));
        bad.push(d.join(OsString::from_vec(b"\xff".to_vec())));
        for b in &bad {
            std::fs::write(b, good).unwrap();
        }
        bad.extend(["dir.yaml", "dir.csv", "dangling.yaml", "loop.yaml", "missing.yaml", "missing.csv", "missing.yml", "nodir/x.yaml", "real.yaml/x.yaml"].iter().map(|x| d.join(x)));
        bad.push(PathBuf::new());
        bad.push(PathBuf::from("/"));
        bad.push(PathBuf::from("."));
        bad.push(PathBuf::from(".."));
        bad.push(d.join("x".repeat(300) + ".yaml"));
        bad.push(d.join("x/".repeat(3000) + "a.yaml"));
        bad.push(d.join(OsString::from_vec(b"nul\0.yaml".to_vec())));
        for b in &bad {
            ctx.judge(&|| format!("path {:?}", b), || {
                let l = load_all(b, &texts, b.as_os_str().len() > 0 && !b.to_string_lossy().contains('\0'))?;
                if l.config == Some(true) {
                    return Err("loaded as a configuration, although it must be refused".into());
                }
                Ok(())
            })?;
            ctx.key(&[b"path", b.to_string_lossy().as_bytes()]);
            path_cases += 1;
        }
        for b in ["real.yaml", "link.yaml"] {
            ctx.judge(&|| format!("path {}", b), || {
                let l = load_all(&d.join(b), &texts, true)?;
                if l.config == Some(false) {
                    return Err(format!("refused: {}", l.outcome));
                }
                Ok(())
            })?;
        }
        // names that are valid although unusual
        for n in [&b"a.b.yaml"[..], b" .yaml", b"-.csv", b"\xff\xfe.yaml", "日本.yml".as_bytes(), b"a\nb.csv", b"..yaml", b"a.csv.yml"] {
            let p = d.join(OsString::from_vec(n.to_vec()));
            std::fs::write(&p, if n.ends_with(b"csv") { "h,h\na,b\n" } else { good }).unwrap();
            ctx.judge(&|| format!("path {:?}", p), || {
                let c = Chanoma::from_config_file(&p).map_err(|e| format!("refused: {}", e))?;
                if c.normalize("xax") != "xbx" {
                    return Err("not applied".into());
                }
                load_all(&p, &texts, true).map(|_| ())
            })?;
            path_cases += 1;
        }
    }
    // nesting, aliases, long lines
    let mut big: Vec<(String, &str)> = Vec::new();
    for n in [50usize, 127, 129, 180] {
        big.push((format!("{}{}\n", "[".repeat(n), "]".repeat(n)), "yaml"));
        big.push((format!("items: {}{}\n", "[".repeat(n), "]".repeat(n)), "yaml"));
        big.push((format!("modifiers: {}x{}\n", "{a: ".repeat(n), "}".repeat(n)), "yaml"));
        big.push(((0..n.min(3000)).map(|i| format!("{}a:\n", " ".repeat(i))).collect(), "yaml"));
        big.push(("- ".repeat(n) + "a\n", "yaml"));
        big.push(("[".repeat(n), "yaml"));
        big.push((format!("h\n{}\n", "a,".repeat(n)), "csv"));
        big.push((format!("h\n\"{}", "a\n".repeat(n)), "csv"));
    }
    for n in [1000usize, 20000] {
        // flow collections
        big.push((format!("{}{}\n", "[".repeat(n), "]".repeat(n)), "yaml"));
        big.push((format!("items: {}{}\n", "[".repeat(n), "]".repeat(n)), "yaml"));
        big.push((format!("modifiers: {}x{}\n", "{a: ".repeat(n), "}".repeat(n)), "yaml"));
        big.push(("[".repeat(n), "yaml"));
        big.push((format!("h\n{}\n", "a,".repeat(n)), "csv"));
        big.push((format!("h\n\"{}", "a\n".repeat(n)), "csv"));
    }
    if ctx.mine(1) {
        // deeply nested block collections
        let exe = std::env::current_exe().unwrap();
        for n in [400usize, 2000, 50000] {
            let p = ctx.path("yaml");
            std::fs::write(&p, "- ".repeat(n) + "a\n").unwrap();
            let o = std::process::Command::new(&exe).arg("load").arg(&p).output().unwrap();
            ctx.evals += 1;
            ctx.event("deeply nested files", 1);
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            if n > 1500 && !o.status.success() && err.contains("overflowed its stack") {
                ctx.known("deep-block-nesting", &format!("a YAML file of {} nested block sequences: {}", n, err))?;
            } else if !o.status.success() {
                return Err(ctx.violation(&format!("a YAML file of {} nested block sequences: {:?} {}", n, o.status, err)));
            }
            let _ = std::fs::remove_file(&p);
        }
        // aliases of aliases
        for n in [2usize, 4, 12] {
            let mut t = String::from("a0: &a0 [x,x,x,x,x,x,x,x,x]\n");
            for i in 1..n {
                t.push_str(&format!("a{}: &a{} [{}]\n", i, i, vec![format!("*a{}", i - 1); 9].join(",")));
            }
            let p = ctx.path("yaml");
            std::fs::write(&p, &t).unwrap();
            let o = std::process::Command::new(&exe).arg("load").arg(&p).output().unwrap();
            ctx.evals += 1;
            ctx.event("files with aliases of aliases", 1);
            if n > 8 && o.status.code() == Some(crate::sup::EXIT_MEMORY) {
                ctx.known("alias-expansion", &format!("more than 1 GiB for\n{}", t))?;
            } else if !o.status.success() {
                return Err(ctx.violation(&format!("{:?} for\n{}", o.status, t)));
            }
            let _ = std::fs::remove_file(&p);
        }
    }
    for (i, (t, ext)) in big.iter().enumerate() {
        if ctx.mine(i) {
            let must = if invalid(ext, t.as_bytes()) { Some(true) } else { None };
            one(ctx, ext, t.as_bytes(), must, "nesting or size")?;
        }
    }
    ctx.event("contents loaded", oks);
    ctx.event("contents refused", errs);
    ctx.event("contents that must be refused", musts);
    ctx.event("paths", path_cases);
    Ok(())
}

// ---------------------------------------------------------------- C27

fn bad_file(r: &mut Rng) -> (&'static str, Vec<u8>, bool) {
    // (format, content, certainly invalid)
    match r.below(6) {
        0 => {
            // invalid UTF-8 in row k, after good rows
            let f = csv_file(r, false);
            let mut b = f.text.into_bytes();
            if !b.ends_with(b"\n") {
                b.push(b'\n');
            }
            b.extend(b"good,row\n\xff\xfe,x\nanother,row\n");
            ("csv", b, true)
        }
        1 => {
            let n = r.below(30);
            let mut s = String::from("items:\n");
            for i in 0..n {
                s.push_str(&format!("  - from: \"f{}\"\n    to: \"t{}\"\n", i, r.below(5)));
            }
            s.push_str(r.pick(&["  - from: x\n", "  - to: x\n", "  - from: 1\n    to: a\n", "  - x\n", "  - from: x\n    to: [y]\n", "  - {}\n"]));
            for i in 0..r.below(4) {
                s.push_str(&format!("  - from: \"g{}\"\n    to: \"h\"\n", i));
            }
            ("yaml", s.into_bytes(), true)
        }
        2 => {
            let n = r.below(20);
            let mut s = String::from("items:\n");
            for i in 0..n {
                s.push_str(&format!("  \"t{}\": [\"f{}\", \"x{}\"]\n", i, i, i));
            }
            s.push_str(r.pick(&["  a: 1\n", "  a: [b, 2]\n", "  a: [b, []]\n", "  1: b\n", "  a: {b: c}\n"]));
            ("yaml", s.into_bytes(), true)
        }
        3 => {
            let (ext, t) = valid_file(r);
            let b = mutate(r, t.as_bytes());
            let ext = if ext == "csv" { "csv" } else { "yaml" };
            let inv = invalid(ext, &b);
            (ext, b, inv)
        }
        4 => {
            let (ext, t) = valid_file(r);
            let ext = if ext == "csv" { "csv" } else { "yaml" };
            let n = r.below(t.len() + 1);
            let b = t.as_bytes()[..n].to_vec();
            let inv = invalid(ext, &b);
            (ext, b, inv)
        }
        _ => {
            let s: &[u8] = r.pick(&[&b"items: [\n"[..], b"items:\n  - from: \"a\n", b"\xff", b"items: 5\n", b"a: b: c\n", b"items: *x\n"]);
            ("yaml", s.to_vec(), true)
        }
    }
}

fn clear(p: &Path) {
    let _ = std::fs::remove_file(p);
    let _ = std::fs::remove_dir(p);
}

fn c27(ctx: &mut Ctx) -> R {
    for _ in 0..ctx.budget(4000, 80000) {
        let (a, b) = pool(&mut ctx.rng);
        let mut builder = TableBuilder::new();
        let mut model = SetModel::new(Vec::new());
        let mut log: Vec<String> = Vec::new();
        // building the table and making a builder from it again would hide what the builder keeps besides the entries
        let look = *ctx.rng.pick(&[1, 1, 3, 100]);
        // files that are given again, with the same or with other contents
        let kept: Vec<PathBuf> = ["csv", "yaml", "csv", "yaml"].iter().enumerate().map(|(i, e)| ctx.dir.join(format!("kept{}.{}", i, e))).collect();
        for p in &kept {
            clear(p);
        }
        // entries of the valid files among them
        let mut known: Vec<Option<Pairs>> = vec![None; kept.len()];
        if ctx.rng.chance(1, 4) {
            // a builder that begins with such a file
            let i = ctx.rng.below(kept.len());
            let text = if i % 2 == 1 {
                let (p, t, _) = yaml_table(&mut ctx.rng, false);
                if yaml_meaning(&t).as_ref() != Some(&p) {
                    continue;
                }
                model = SetModel::new(p.clone());
                known[i] = Some(p);
                t
            } else {
                let f = csv_file(&mut ctx.rng, false);
                model = SetModel::new(f.items.clone());
                known[i] = Some(f.items);
                f.text
            };
            std::fs::write(&kept[i], &text).unwrap();
            log.push(format!("builder from {:?}: {}", kept[i].file_name().unwrap(), show(&text)));
            ctx.judge(&|| log.join("\n"), || {
                builder = if i % 2 == 1 { TableBuilder::from_yaml_path(&kept[i]) } else { TableBuilder::from_csv_path(&kept[i]) }.map_err(|e| format!("refused: {}", e))?;
                Ok(())
            })?;
            ctx.event("builders that begin with a file", 1);
        }
        for _ in 0..ctx.rng.range(2, 16) {
            if ctx.rng.chance(1, 6) {
                // some of what is there is removed, and a file that was valid is given again
                let i = ctx.rng.below(kept.len());
                if let Some(entries) = &known[i] {
                    let out: Pairs = model.raw.iter().filter(|_| ctx.rng.chance(1, 3)).cloned().collect();
                    log.push(format!("remove {}, add {:?} again", show_pairs(&out), kept[i].file_name().unwrap()));
                    model.remove(&out);
                    model.add(entries);
                    let c = Correspondence::new(Synthesized::new(out.iter().map(|(a, b)| Item::new(a.clone(), b.clone())).collect()));
                    let looking = ctx.rng.chance(1, look);
                    ctx.judge(&|| log.join("\n"), || {
                        builder.remove_corr(&c);
                        if i % 2 == 1 { builder.add_from_yaml(&kept[i]).map(|_| ()) } else { builder.add_from_csv(&kept[i]).map(|_| ()) }.map_err(|e| format!("refused: {}", e))?;
                        if !looking {
                            return Ok(());
                        }
                        let t = std::mem::take(&mut builder).build();
                        let r = model.check("builder", t.items());
                        builder = TableBuilder::from_table(t);
                        r
                    })?;
                    ctx.event("unchanged files given again", 1);
                }
            }
            match ctx.rng.below(10) {
                0..=5 => {
                    // an addition that may fail
                    let (fmt, content, certain) = bad_file(&mut ctx.rng);
                    let mut p = ctx.path(fmt);
                    if ctx.rng.chance(1, 2) {
                        let i = 2 * ctx.rng.below(2) + (fmt == "yaml") as usize;
                        p = kept[i].clone();
                        known[i] = None;
                    }
                    clear(&p);
                    let mut missing = false;
                    match ctx.rng.below(8) {
                        0 => missing = true,
                        1 => {
                            std::fs::create_dir(&p).unwrap();
                            missing = true;
                        }
                        2 => {
                            let _ = std::os::unix::fs::symlink(ctx.dir.join("gone"), &p);
                            missing = true;
                        }
                        _ => std::fs::write(&p, &content).unwrap(),
                    }
                    log.push(format!("add_from_{} {:?} {}", fmt, p.file_name().unwrap(), if missing { "(missing, directory or dangling link)".to_string() } else { show(&String::from_utf8_lossy(&content)) }));
                    // what the file holds, if it can be loaded at all
                    let entries = guard(|| if fmt == "csv" { file::table_from_csv_path(&p) } else { file::table_from_yaml_path(&p) });
                    let before = model.clone();
                    let mut m2 = model.clone();
                    let mut failed = false;
                    let looking = ctx.rng.chance(1, look);
                    ctx.judge(&|| log.join("\n"), || {
                        let entries = entries?;
                        let r = if fmt == "csv" { builder.add_from_csv(&p).map(|_| ()) } else { builder.add_from_yaml(&p).map(|_| ()) };
                        failed = r.is_err();
                        if r.is_ok() && (missing || certain) {
                            return Err("succeeded, although the file cannot be loaded".into());
                        }
                        if r.is_ok() != entries.is_ok() {
                            return Err(format!("builder addition succeeds: {}, table loading succeeds: {}", r.is_ok(), entries.is_ok()));
                        }
                        if let Ok(t) = entries {
                            m2.add(&pairs_of(&t.items()));
                        }
                        if !looking {
                            return Ok(());
                        }
                        let t = std::mem::take(&mut builder).build();
                        let r = if failed { before.check("builder after a failed addition", t.items()) } else { m2.check("builder after an addition", t.items()) };
                        builder = TableBuilder::from_table(t);
                        r
                    })?;
                    model = m2;
                    ctx.event(if failed { "failed additions" } else { "successful additions of odd files" }, 1);
                }
                6 | 7 => {
                    // a valid addition
                    let yaml = ctx.rng.chance(1, 2);
                    let (items, text) = if yaml {
                        let (p, t, _) = yaml_table(&mut ctx.rng, false);
                        if yaml_meaning(&t).as_ref() != Some(&p) {
                            continue;
                        }
                        (p, t)
                    } else {
                        let f = csv_file(&mut ctx.rng, false);
                        (f.items, f.text)
                    };
                    let mut p = ctx.path(if yaml { "yaml" } else { "csv" });
                    if ctx.rng.chance(1, 2) {
                        let i = 2 * ctx.rng.below(2) + yaml as usize;
                        p = kept[i].clone();
                        known[i] = Some(items.clone());
                    }
                    clear(&p);
                    std::fs::write(&p, &text).unwrap();
                    let times = if ctx.rng.chance(1, 6) { 2 } else { 1 };
                    log.push(format!("add valid file {:?}, {} times: {}", p.file_name().unwrap(), times, show(&text)));
                    model.add(&items);
                    let looking = ctx.rng.chance(1, look);
                    ctx.judge(&|| log.join("\n"), || {
                        for _ in 0..times {
                            if yaml { builder.add_from_yaml(&p).map(|_| ()) } else { builder.add_from_csv(&p).map(|_| ()) }.map_err(|e| format!("refused: {}", e))?;
                        }
                        if !looking {
                            return Ok(());
                        }
                        let t = std::mem::take(&mut builder).build();
                        let r = model.check("builder", t.items());
                        builder = TableBuilder::from_table(t);
                        r
                    })?;
                    ctx.event("valid additions", 1);
                }
                _ => {
                    let (x, p) = rhs(&mut ctx.rng, &a, &b, &model.raw);
                    let adding = ctx.rng.chance(3, 4);
                    log.push(format!("{} {}", if adding { "add" } else { "remove" }, show_pairs(&p)));
                    if adding {
                        model.add(&p);
                    } else {
                        model.remove(&p);
                    }
                    let looking = ctx.rng.chance(1, look);
                    ctx.judge(&|| log.join("\n"), || {
                        with_rhs!(&x, c => {
                            if adding { builder.add_corr(c); } else { builder.remove_corr(c); }
                        });
                        if !looking {
                            return Ok(());
                        }
                        let t = std::mem::take(&mut builder).build();
                        let r = model.check("builder", t.items());
                        builder = TableBuilder::from_table(t);
                        r
                    })?;
                    ctx.event("correspondences added or removed", 1);
                }
            }
            let k = log.join("|");
            ctx.key(&[k.as_bytes()]);
        }
        ctx.judge(&|| log.join("\n"), || {
            model.check("builder at the end", builder.build().items())
        })?;
        let l = log.join(" | ");
        ctx.sample(|| clip(&l, 500));
    }
    let _ = table_of(&[]);
    Ok(())
}
