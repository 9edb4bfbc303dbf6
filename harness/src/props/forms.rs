//! The forms that a table of entries can take: C31.
use super::tables::{leak, pairs_of, pool, same, show_pairs, synth, valid_file, word, Pairs};
use super::Prop;
use crate::ctx::{show, Ctx, R};
use crate::gen;
use crate::rng::Rng;
use chanoma::characters_set as cs;
use chanoma::corr::{Linear, Unification};
use chanoma::table::Origin;
use chanoma::{file, Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};

pub static PROPS: &[Prop] = &[Prop {
    id: "C31",
    level: "exploration",
    rule: "lists of entries (empty to 20 000, with repetitions, conflicts, any order and any characters), given as lists, single entries, several sources of one target, types of the user's own, published sets and files, led through random sequences of conversions (correspondence, list, table, builder, copies, references); every form compared with the list; maps from targets to sources, equality with lists that differ in one place, the order and hashes of entries and the origin of tables compared with a model; non-trivial: distinct list and conversion",
    assumptions: &[],
    shards: 0,
    min_nontrivial: Some(5000),
    run: c31,
}];

/// A correspondence of the user's own.
#[derive(Clone, Default)]
struct Own(Pairs);
impl Corr for Own {
    fn items(&self) -> Vec<Item> {
        self.0.iter().map(|(a, b)| Item::new(a.as_str(), b.clone())).collect()
    }
}

/// One that does not keep its entries but makes them, differently divided.
struct Made {
    froms: Vec<String>,
    tos: Vec<String>,
}
impl Corr for Made {
    fn items(&self) -> Vec<Item> {
        self.froms.iter().zip(&self.tos).map(|(a, b)| Item::new(a.clone(), b.as_str())).collect()
    }
}

enum Form {
    Own(Correspondence<Own>),
    Corr(Correspondence<Synthesized>),
    Plain(Synthesized),
    Table(Table),
    Builder(TableBuilder),
}

fn step(r: &mut Rng, f: Form, name: &mut String) -> Form {
    let (f, n) = match f {
        Form::Own(c) => match r.below(7) {
            0 => (Form::Own(c.clone()), "copy of own type"),
            1 => (Form::Corr(c.synthesize()), "synthesize of own type"),
            2 => (Form::Plain(Synthesized::from(&c)), "Synthesized::from(&own type)"),
            3 => (Form::Plain(Synthesized::from(c)), "Synthesized::from(own type)"),
            4 => (Form::Own((*c).clone().corr()), "own type taken out and corr"),
            5 => (Form::Corr(c.as_ref().synthesize()), "as_ref"),
            _ => (Form::Plain(Synthesized::new(c.items())), "list of entries"),
        },
        Form::Corr(c) => match r.below(8) {
            0 => (Form::Corr(c.clone()), "copy of correspondence"),
            1 => (Form::Corr(c.synthesize()), "synthesize"),
            2 => (Form::Plain(Synthesized::from(&c)), "Synthesized::from(&correspondence)"),
            3 => (Form::Plain((*c).clone()), "content of correspondence"),
            4 => (Form::Own(Correspondence::new(Own(pairs_of(&c.items())))), "own type made of entries"),
            5 => (Form::Corr(Correspondence::new(Synthesized::from(c))), "new correspondence"),
            _ => (Form::Table(Table::from_corr(c, Origin::New)), "table"),
        },
        Form::Plain(s) => match r.below(5) {
            0 => (Form::Plain(s.clone()), "copy of list"),
            1 => (Form::Corr(s.corr()), "corr of list"),
            2 => (Form::Corr(Correspondence::new(s)), "correspondence of list"),
            3 => (Form::Corr(s.synthesize()), "synthesize of list"),
            _ => (Form::Plain(Synthesized::new(s.items())), "new list"),
        },
        Form::Table(t) => match r.below(5) {
            0 => (Form::Table(t.clone()), "copy of table"),
            1 => (Form::Corr(t.corr()), "corr of table"),
            2 => (Form::Plain(Synthesized::new(t.items())), "items of table"),
            3 => (Form::Builder(t.builder()), "builder of table"),
            _ => (Form::Builder(TableBuilder::from_table(t)), "TableBuilder::from_table"),
        },
        Form::Builder(b) => (Form::Table(b.build()), "build"),
    };
    name.push_str(", ");
    name.push_str(n);
    f
}

fn map_of(p: &Pairs) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (a, b) in p {
        m.entry(b.clone()).or_default().push(a.clone());
    }
    m
}

fn check_map(s: &Synthesized, p: &Pairs) -> Result<(), String> {
    let got: Vec<(String, Vec<String>)> = s.item_map().into_iter().map(|(k, v)| (k.clone(), v.into_iter().cloned().collect())).collect();
    let want: Vec<(String, Vec<String>)> = map_of(p).into_iter().collect();
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("the map from targets to sources differs at target {}: {:?} instead of {:?}", i, got.get(i), want.get(i)))
}

fn check(f: Form, p: &Pairs) -> Result<Form, String> {
    match &f {
        Form::Own(c) => same("entries of own type", &pairs_of(&c.items()), p)?,
        Form::Corr(c) => {
            same("entries", &pairs_of(&c.items()), p)?;
            check_map(c, p)?;
        }
        Form::Plain(s) => {
            same("entries of the list", &pairs_of(&s.items()), p)?;
            check_map(s, p)?;
        }
        Form::Table(t) => {
            same("entries of the table", &pairs_of(&t.items()), p)?;
            same("correspondence of the table", &pairs_of(&t.corr().items()), p)?;
        }
        Form::Builder(_) => {}
    }
    Ok(f)
}

/// A list that differs a little, or not at all.
fn vary(r: &mut Rng, p: &Pairs) -> Pairs {
    let mut q = p.clone();
    let n = q.len();
    match r.below(10) {
        0 => q.push((gen::any(r).to_string(), gen::any(r).to_string())),
        1 if n > 0 => {
            q.pop();
        }
        2 if n > 0 => {
            q.remove(0);
        }
        3 if n > 1 => {
            let i = r.below(n - 1);
            q.swap(i, i + 1);
        }
        4 if n > 0 => {
            // given twice
            let i = r.below(n);
            q.insert(i, p[i].clone());
        }
        5 if n > 0 => {
            let i = r.below(n);
            let (a, b) = &mut q[i];
            std::mem::swap(a, b);
        }
        6 if n > 0 => {
            // the same text divided elsewhere
            let i = r.below(n);
            if let Some(c) = q[i].0.pop() {
                q[i].1.insert(0, c);
            }
        }
        7 if n > 0 => {
            let i = r.below(n);
            q[i].1 = gen::any(r).to_string();
        }
        8 if n > 0 => {
            let i = r.below(n);
            let c = q[i].0.chars().next().unwrap_or('a');
            q[i].0 = gen::near(r, c).to_string();
        }
        _ => {}
    }
    q
}

fn hash_of(i: &Item) -> u64 {
    let mut h = DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

fn entries(p: &Pairs) -> Result<(), String> {
    let mut a: Vec<Item> = p.iter().map(|(a, b)| Item::new(a, b)).collect();
    let mut w = p.clone();
    for (i, (x, y)) in p.iter().zip(p.iter().skip(1)).enumerate() {
        let (m, n) = (&a[i], &a[i + 1]);
        if (m == n) != (x == y) || m.cmp(n) != x.cmp(y) || m.partial_cmp(n) != Some(x.cmp(y)) {
            return Err(format!("{:?} and {:?} compare as {:?}, equal {}", m, n, m.cmp(n), m == n));
        }
        if (x == y && hash_of(m) != hash_of(n)) || m.clone() != *m || hash_of(&m.clone()) != hash_of(m) {
            return Err(format!("hashes or copies of {:?} and {:?} differ", m, n));
        }
    }
    let set: HashSet<Item> = a.iter().cloned().collect();
    let pairs: HashSet<(String, String)> = p.iter().cloned().collect();
    if set.len() != pairs.len() || pairs.iter().any(|(a, b)| !set.contains(&Item::new(a.as_str(), b.as_str()))) {
        return Err(format!("a set of entries holds {} of {}", set.len(), pairs.len()));
    }
    a.sort();
    w.sort();
    same("sorted entries", &pairs_of(&a), &w)
}

fn origin(t: &Table, want: Option<&Path>) -> Result<(), String> {
    match (&t.origin, want) {
        (Origin::New, None) => Ok(()),
        (Origin::ConfigurationFile(p), Some(q)) if p == q || (p.canonicalize().is_ok() && p.canonicalize().ok() == q.canonicalize().ok()) => Ok(()),
        (o, w) => Err(format!("the origin is {:?} instead of {:?}", o, w)),
    }
}

fn list(r: &mut Rng) -> Pairs {
    let (a, b) = pool(r);
    let n = match r.below(40) {
        0 => 0,
        1..=20 => r.range(1, 6),
        21..=34 => r.range(2, 40),
        35..=38 => r.range(40, 400),
        _ => r.range(400, 3000),
    };
    let mut p: Pairs = Vec::new();
    for _ in 0..n {
        let x = match r.below(8) {
            0 if !p.is_empty() => r.pick(&p).clone(),
            1 => (word(r, 5), word(r, 5)),
            2 => (gen::any(r).to_string(), r.pick(&b).to_string()),
            3 => (r.pick(&a).to_string(), r.pick(&a).to_string()),
            _ => (r.pick(&a).to_string(), r.pick(&b).to_string()),
        };
        p.push(x);
    }
    match r.below(4) {
        0 => p.sort(),
        1 => {
            p.sort();
            p.reverse()
        }
        _ => {}
    }
    p
}

fn through(ctx: &mut Ctx, p: &Pairs, f: Form, start: &str) -> R {
    let mut name = start.to_string();
    let mut cur = Some(f);
    let mut trail = Vec::new();
    let mut r = Rng::new(ctx.rng.next());
    let n = if p.len() > 1000 { 4 } else { r.range(2, 14) };
    let last = std::cell::RefCell::new(String::new());
    ctx.judge(&|| format!("entries {}\nforms {}", show_pairs(p), last.borrow()), || {
        let mut f = check(cur.take().unwrap(), p)?;
        for _ in 0..n {
            let g = step(&mut r, f, &mut name);
            *last.borrow_mut() = name.clone();
            trail.push(name.rsplit(", ").next().unwrap_or("").to_string());
            f = check(g, p)?;
        }
        Ok(())
    })?;
    ctx.event("conversions", n as u64);
    let h = format!("{:?}", p);
    let mut prev = start.to_string();
    for t in trail {
        ctx.key(&[h.as_bytes(), prev.as_bytes(), t.as_bytes()]);
        prev = t;
    }
    ctx.sample(|| format!("{} | {}", show_pairs(&p.iter().take(6).cloned().collect::<Pairs>()), last.borrow()));
    Ok(())
}

/// Tables of files and by hand: entries and origin, also after changes.
fn files(ctx: &mut Ctx) -> R {
    for _ in 0..ctx.budget(1500, 30000) {
        let (ext, t) = valid_file(&mut ctx.rng);
        let pl = ctx.place(ext, t.as_bytes());
        let p = pl.path.clone();
        let other = list(&mut ctx.rng);
        let other: Pairs = other.into_iter().take(30).collect();
        let c = synth(&other);
        let y = ext != "csv";
        let way = ctx.rng.below(3);
        let k = ctx.rng.below(5);
        ctx.judge(&|| format!("a table of {:?} ({}), then {}", p, show(&t), show_pairs(&other)), || {
            let load = |p: &Path| if y { file::table_from_yaml_path(p) } else { file::table_from_csv_path(p) };
            let build = |p: &Path| if y { TableBuilder::from_yaml_path(p) } else { TableBuilder::from_csv_path(p) };
            let e = |e: chanoma::error::Error| e.to_string();
            let first = load(&p).map_err(e)?;
            let entries = pairs_of(&first.items());
            let mut t = match way {
                0 => first,
                1 => build(&p).map_err(e)?.build(),
                _ => {
                    let mut b = TableBuilder::new();
                    if y {
                        b.add_from_yaml(&p).map_err(e)?;
                    } else {
                        b.add_from_csv(&p).map_err(e)?;
                    }
                    let t = b.build();
                    return origin(&t, None);
                }
            };
            same("entries", &pairs_of(&t.items()), &entries)?;
            origin(&t, Some(&p))?;
            let copy = t.clone();
            match k {
                0 => t.add(&c),
                1 => t.remove(&c),
                2 => {
                    let mut b = t.builder();
                    b.preset().remove_corr(&c).add_corr(&cs::digits::DIGITS);
                    t = b.build();
                }
                3 => {
                    let mut b = TableBuilder::from_table(t);
                    let _ = b.add_from_csv("/nonexistent.csv").map(|_| ());
                    if y {
                        b.add_from_yaml(&p).map_err(e)?;
                    } else {
                        b.add_from_csv(&p).map_err(e)?;
                    }
                    t = b.build();
                }
                _ => {
                    t = Table::from_corr(t.corr(), t.origin.clone());
                }
            }
            origin(&t, Some(&p)).map_err(|x| format!("after a change: {}", x))?;
            origin(&copy, Some(&p)).map_err(|x| format!("of a copy: {}", x))?;
            same("copy", &pairs_of(&copy.items()), &entries)?;
            let mut own = Table::from_corr(copy.corr(), Origin::New);
            own.add(&c);
            origin(&own, None)
        })?;
        ctx.event("origins of loaded tables", 1);
        ctx.key(&[t.as_bytes(), p.as_os_str().to_string_lossy().as_bytes(), &[way as u8, k as u8]]);
    }
    Ok(())
}

macro_rules! published {
    ($ctx:expr, $r:expr, $($c:expr),*) => {
        $({
            let p = pairs_of(&$c.items());
            let name = stringify!($c);
            for _ in 0..3 {
                through($ctx, &p, Form::Corr($c.synthesize()), name)?;
                through($ctx, &p, Form::Plain(Synthesized::from(&$c)), name)?;
                through($ctx, &p, Form::Plain(Synthesized::from($c)), name)?;
                through($ctx, &p, Form::Own(Correspondence::new(Own(pairs_of(&$c.as_ref().items())))), name)?;
            }
            $ctx.judge(&|| format!("{} twice", name), || {
                if !($c == $c) {
                    return Err("is not equal to itself".into());
                }
                same("entries", &pairs_of(&(*&$c).items()), &p)
            })?;
        })*
    };
}

fn c31(ctx: &mut Ctx) -> R {
    if ctx.mine(0) {
        published!(ctx, r, cs::ALL, cs::digits::DIGITS, cs::alphabets::ALPHABETS, cs::punctuations::PUNCTUATIONS, cs::kanas::KANAS, cs::cjk_compatibilities::CJK_COMPATIBILITIES, cs::digits::Digits::DIGIT_ONE, cs::punctuations::Punctuations::TILDE);
        ctx.judge(&|| "what is empty by default".into(), || {
            let none: Pairs = Vec::new();
            same("Synthesized::default()", &pairs_of(&Synthesized::default().items()), &none)?;
            same("Correspondence::default()", &pairs_of(&Correspondence::<Synthesized>::default().items()), &none)?;
            same("Correspondence::default() of own type", &pairs_of(&Correspondence::<Own>::default().items()), &none)?;
            for t in [Table::new(), Table::default(), TableBuilder::new().build(), TableBuilder::default().build()] {
                same("new table", &pairs_of(&t.items()), &none)?;
                origin(&t, None)?;
            }
            Ok(())
        })?;
    }
    for i in 0..ctx.budget(6000, 150000) {
        let mut r = Rng::new(ctx.rng.next());
        let p = if i == 0 && ctx.mine(3) {
            (0..20_000).map(|k| (format!("{}", k * 7919 % 20_011), format!("{}", k % 37))).collect()
        } else {
            list(&mut r)
        };
        let items = || p.iter().map(|(a, b)| Item::new(a.clone(), b.clone())).collect::<Vec<_>>();
        match r.below(5) {
            0 => through(ctx, &p, Form::Own(Own(p.clone()).corr()), "own type")?,
            1 => through(ctx, &p, Form::Plain(Synthesized::new(items())), "list")?,
            2 => through(ctx, &p, Form::Corr(Correspondence::new(Synthesized::new(items()))), "correspondence")?,
            3 => through(ctx, &p, Form::Table(Table::from_corr(synth(&p), Origin::ConfigurationFile(PathBuf::from("x")))), "table")?,
            _ => {
                let m = Made { froms: p.iter().map(|x| x.0.clone()).collect(), tos: p.iter().map(|x| x.1.clone()).collect() };
                let f = if r.chance(1, 2) { Form::Corr(m.synthesize()) } else { Form::Plain(Synthesized::from(m.corr())) };
                through(ctx, &p, f, "another own type")?
            }
        }
        if p.len() <= 3000 {
            ctx.judge(&|| format!("single entries of {}", show_pairs(&p)), || entries(&p))?;
            let q = vary(&mut r, &p);
            let q2 = if r.chance(1, 3) { list(&mut r) } else { q.clone() };
            let equal = p == q2;
            ctx.judge(&|| format!("equality of {} and {}", show_pairs(&p), show_pairs(&q2)), || {
                let (a, b) = (synth(&p), synth(&q2));
                let (c, d) = (Own(p.clone()).corr(), Own(q2.clone()).corr());
                let (t, u) = (Table::from_corr(synth(&p), Origin::New).corr(), Own(q2.clone()).synthesize());
                for (what, got) in [("lists", a == b), ("own types", c == d), ("tables", t == u), ("lists, swapped", b == a), ("negated", !(a != b)), ("list and table", a == u)] {
                    if got != equal {
                        return Err(format!("{}: equal {} instead of {}", what, got, equal));
                    }
                }
                Ok(())
            })?;
            ctx.event(if equal { "equal lists compared" } else { "different lists compared" }, 1);
        }
        // one target, several sources; single entries
        if i % 4 == 0 {
            let to = leak(&word(&mut r, 4));
            let froms: Vec<&'static str> = (0..r.below(7)).map(|_| leak(&word(&mut r, 4))).collect();
            let w: Pairs = froms.iter().map(|f| (f.to_string(), to.to_string())).collect();
            let l = leak(&word(&mut r, 4));
            ctx.judge(&|| format!("sources {:?}, target {:?}", froms, to), || {
                same("Unification", &pairs_of(&Unification::new(&froms, to).items()), &w)?;
                same("Unification::corr", &pairs_of(&Unification::new(&froms, to).corr().items()), &w)?;
                same("Unification synthesized", &pairs_of(&Unification::new(&froms, to).synthesize().items()), &w)?;
                same("Synthesized::from(Unification)", &pairs_of(&Synthesized::from(Unification::new(&froms, to).corr()).items()), &w)?;
                let one = vec![(l.to_string(), to.to_string())];
                same("Linear", &pairs_of(&Linear::new(l, to).items()), &one)?;
                same("Linear::corr", &pairs_of(&Linear::new(l, to).corr().clone().items()), &one)?;
                same("Linear synthesized", &pairs_of(&Linear::new(l, to).corr().synthesize().items()), &one)?;
                if (Linear::new(l, to).corr() == Linear::new(to, l).corr()) != (l == to) {
                    return Err("equality of single entries".into());
                }
                let i = Item::new(l, to.to_string());
                if i.from != l || i.to != to {
                    return Err(format!("an entry of {:?} and {:?} is {:?}", l, to, i));
                }
                Ok(())
            })?;
        }
        // every form gives the same pipeline
        if i % 3 == 0 {
            let s: Pairs = {
                let mut seen = HashSet::new();
                p.iter().filter(|x| x.0.chars().count() == 1 && x.1.chars().count() == 1 && seen.insert(x.0.clone())).take(300).cloned().collect()
            };
            let text: String = s.iter().take(40).map(|x| x.0.as_str()).collect::<Vec<_>>().join(&gen::any(&mut r).to_string());
            ctx.judge(&|| format!("pipelines of {} on {}", show_pairs(&s), show(&text)), || {
                let mut got = Vec::new();
                for t in [
                    Table::from_corr(synth(&s), Origin::New),
                    Table::from_corr(Own(s.clone()).synthesize(), Origin::New),
                    Table::from_corr(synth(&s), Origin::ConfigurationFile("x.csv".into())),
                    TableBuilder::from_table(Table::from_corr(synth(&s), Origin::New)).build(),
                    Table::from_corr(synth(&s), Origin::New).builder().build().clone(),
                ] {
                    let mut c = Chanoma::new();
                    c.add_table(t);
                    got.push(c.normalize(&text));
                }
                let m: BTreeMap<char, &str> = s.iter().map(|x| (x.0.chars().next().unwrap(), x.1.as_str())).collect();
                let want: String = text.chars().map(|c| m.get(&c).map_or(c.to_string(), |t| t.to_string())).collect();
                match got.iter().position(|g| *g != want) {
                    Some(k) => Err(format!("form {}: {} instead of {}", k, show(&got[k]), show(&want))),
                    None => Ok(()),
                }
            })?;
            ctx.event("pipelines of all forms", 1);
        }
    }
    files(ctx)
}
