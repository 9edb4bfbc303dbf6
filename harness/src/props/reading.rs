//! Failures while opening and reading: C33.
use super::tables::{invalid, mutate, pairs_of, show_pairs, valid_file, Pairs};
use super::Prop;
use crate::cfg::{self, FileCfg, Stage};
use crate::ctx::{guard, show, Ctx, R};
use crate::gen;
use crate::io::{during, Fault, Seen};
use crate::model::Models;
use crate::rng::Rng;
use chanoma::{file, Chanoma, Item, TableBuilder};
use std::path::{Path, PathBuf};

pub static PROPS: &[Prop] = &[Prop {
    id: "C33",
    level: "fault_enumeration",
    rule: "CSV and YAML files, configurations and documented files loaded by every function while the read or the opening of each number fails (once or from then on, with every error), reads give few bytes at a time, or calls are interrupted; result compared with that without faults; non-trivial: distinct file, way of loading and fault that occurred",
    assumptions: &["faults are made in the C library's open and read as the process calls them"],
    shards: 0,
    min_nontrivial: Some(3000),
    run: c33,
}];

// EIO, EACCES, EMFILE, ENFILE, ENOMEM, EISDIR, ESTALE, EBADF, ETIMEDOUT, ENXIO, ELOOP, EINVAL, EPERM, ENODEV
const READ_ERRORS: [i32; 9] = [5, 12, 21, 116, 9, 110, 6, 22, 1];
const OPEN_ERRORS: [i32; 9] = [13, 24, 23, 12, 5, 40, 116, 1, 19];

/// What a way of loading gives, brought down to what can be compared.
#[derive(PartialEq, Clone, Debug)]
enum Got {
    Texts(Vec<String>),
    Entries(Pairs),
    Stages(usize),
}

const WAYS: [&str; 9] = [
    "Chanoma::from_config_file",
    "Chanoma::load_rc",
    "modifiers_from_yaml_path",
    "table_from_yaml_path",
    "TableBuilder::from_yaml_path",
    "add_from_yaml",
    "table_from_csv_path",
    "TableBuilder::from_csv_path",
    "add_from_csv",
];

/// The entries of a builder after a failed addition are judged here, too.
fn load(way: usize, p: &Path, texts: &[String], f: Fault) -> (Result<Got, String>, Seen, Result<(), String>) {
    let e = |e: chanoma::error::Error| e.to_string();
    let held: Pairs = vec![("あ".into(), "い".into()), ("q".into(), "r".into())];
    let mut after = Ok(());
    let (r, s) = during(f, || {
        guard(|| match way {
            0 => Chanoma::from_config_file(p).map(Ok).map_err(e),
            1 => Chanoma::load_rc().map(Ok).map_err(|e| e.to_string()),
            2 => file::modifiers_from_yaml_path(p).map(|m| Err(Got::Stages(m.len()))).map_err(e),
            3 => file::table_from_yaml_path(p).map(|t| Err(Got::Entries(pairs_of(&t.items())))).map_err(e),
            4 => TableBuilder::from_yaml_path(p).map(|b| Err(Got::Entries(pairs_of(&b.build().items())))).map_err(e),
            6 => file::table_from_csv_path(p).map(|t| Err(Got::Entries(pairs_of(&t.items())))).map_err(e),
            7 => TableBuilder::from_csv_path(p).map(|b| Err(Got::Entries(pairs_of(&b.build().items())))).map_err(e),
            _ => {
                let mut b = TableBuilder::new();
                for (a, c) in &held {
                    b.add_corr(&chanoma::Synthesized::new(vec![Item::new(a.as_str(), c.as_str())]).corr());
                }
                let before = pairs_of(&std::mem::take(&mut b).build().items());
                for (a, c) in &held {
                    b.add_corr(&chanoma::Synthesized::new(vec![Item::new(a.as_str(), c.as_str())]).corr());
                }
                let r = if way == 5 { b.add_from_yaml(p).map(|_| ()).map_err(e) } else { b.add_from_csv(p).map(|_| ()).map_err(e) };
                let now = pairs_of(&b.build().items());
                if r.is_err() && now != before {
                    after = Err(format!("after the failed addition the builder holds {} instead of {}", show_pairs(&now), show_pairs(&before)));
                }
                r.map(|_| Err(Got::Entries(now)))
            }
        })
    });
    let r = match r {
        Err(p) => Err(format!("PANIC {}", p)),
        Ok(Err(e)) => Err(e),
        Ok(Ok(Err(g))) => Ok(g),
        Ok(Ok(Ok(c))) => Ok(Got::Texts(texts.iter().map(|t| c.normalize(t)).collect())),
    };
    (r, s, after)
}

fn brief(g: &Got) -> String {
    match g {
        Got::Texts(t) => format!("{:?}", t.iter().map(|x| show(x)).collect::<Vec<_>>()),
        Got::Entries(p) => show_pairs(p),
        Got::Stages(n) => format!("{} stages", n),
    }
}

/// A usual error or any: not ENOENT and ENOTDIR, which mean that there is no file, and not EINTR.
fn error(r: &mut Rng, usual: &[i32]) -> i32 {
    if r.chance(1, 2) {
        return *r.pick(usual);
    }
    loop {
        let e = r.range(1, 133) as i32;
        if ![2, 4, 20].contains(&e) {
            return e;
        }
    }
}

fn faults(r: &mut Rng, s: &Seen, all: bool) -> Vec<Fault> {
    let mut v = vec![Fault::Pieces(1), Fault::Pieces(r.range(2, 9)), Fault::Pieces(*r.pick(&[63, 511, 4096])), Fault::Interrupted(r.range(2, 5) as u64)];
    for k in 1..=s.opens {
        v.push(Fault::Open(k, error(r, &OPEN_ERRORS), r.chance(1, 2)));
    }
    // reads are of at most 64 bytes then
    let n = s.bytes / 64 + 2 * s.opens + 2;
    let ks: Vec<u64> = if n <= 12 || all { (1..=n.min(200)).collect() } else { (0..12).map(|_| 1 + r.below(n as usize) as u64).collect() };
    for k in ks {
        v.push(Fault::Read(k, error(r, &READ_ERRORS), r.chance(1, 3)));
    }
    v
}

fn under_faults(ctx: &mut Ctx, way: usize, p: &Path, texts: &[String], what: &dyn Fn() -> String) -> R {
    let (want, seen, after) = load(way, p, texts, Fault::None);
    ctx.judge(&|| format!("{} of {:?} without faults\n{}", WAYS[way], p, what()), || {
        after?;
        match &want {
            Err(e) if e.starts_with("PANIC") => Err(e.clone()),
            _ => Ok(()),
        }
    })?;
    ctx.event(if want.is_ok() { "files that load" } else { "files that are refused" }, 1);
    let mut r = Rng::new(ctx.rng.next());
    for f in faults(&mut r, &seen, ctx.thorough) {
        let (got, s, after) = load(way, p, texts, f);
        ctx.judge(&|| format!("{} of {:?} with the fault {:?} ({:?})\n{}", WAYS[way], p, f, s, what()), || {
            after?;
            match (&got, &want) {
                (Err(e), _) if e.starts_with("PANIC") => Err(e.clone()),
                (Ok(g), Ok(w)) if g != w => Err(format!("something else was loaded:\n    got      {}\n    expected {}", brief(g), brief(w))),
                (Ok(g), Err(e)) => Err(format!("loaded, although it is refused without faults ({}): {}", e, brief(g))),
                // (an interrupted read of a file may be passed on as an error)
                (Err(e), Ok(_)) if matches!(f, Fault::Pieces(_)) => Err(format!("refused because of small pieces: {}", e)),
                (Ok(_), Ok(_)) if s.failed > 0 && matches!(f, Fault::Read(_, _, false) | Fault::Open(_, _, false)) && s.ends == 0 => {
                    Err("loaded, although no reading came to the end of the file".into())
                }
                (Err(e), Err(w)) if matches!(f, Fault::Pieces(_)) && e != w => Err(format!("another error with small pieces: {} instead of {}", e, w)),
                _ => Ok(()),
            }
        })?;
        let name = match f {
            Fault::None => "no fault",
            Fault::Pieces(_) => "loads with small pieces",
            Fault::Interrupted(_) => "loads with interruptions",
            Fault::Read(..) => "failures of reading",
            Fault::Open(..) => "failures of opening",
        };
        if s.failed > 0 || matches!(f, Fault::Pieces(_)) {
            ctx.event(name, 1);
            ctx.key(&[format!("{:?}{}{:?}{:?}", f, way, s, want.is_ok()).as_bytes(), what().as_bytes()]);
        }
        if s.failed > 0 && got.is_err() && want.is_ok() {
            ctx.event("refused because of a failure", 1);
        }
    }
    ctx.event("bytes read without faults", seen.bytes);
    ctx.sample(|| format!("{} of {:?}: {:?}", WAYS[way], p, seen));
    Ok(())
}

fn c33(ctx: &mut Ctx) -> R {
    // the stand-ins are called
    let probe = ctx.path("csv");
    std::fs::write(&probe, "h,h\na,b\n").unwrap();
    let (n, seen) = during(Fault::None, || std::fs::read(&probe).map(|b| b.len()).unwrap_or(0));
    assert!(n == 8 && seen.opens == 1 && seen.reads >= 1 && seen.bytes == 8, "faults cannot be made here: {:?}", seen);
    let (r, _) = during(Fault::Read(1, 5, false), || std::fs::read(&probe).is_err());
    assert!(r, "faults cannot be made here");
    let _ = std::fs::remove_file(&probe);

    for i in 0..ctx.budget(900, 20000) {
        let (ext, t) = valid_file(&mut ctx.rng);
        let mut b = t.into_bytes();
        if i % 8 == 0 {
            b = mutate(&mut ctx.rng, &b);
        } else if i % 8 == 1 {
            // long enough for several buffers
            let n = ctx.rng.range(700, 3000);
            b = if ext == "csv" {
                (0..n).map(|k| format!("{},v{}\n", char::from_u32(0x4e00 + k as u32).unwrap(), k % 7)).collect::<String>().into_bytes()
            } else {
                let f = FileCfg { stages: vec![Stage::Trim, Stage::Reduce('x')], items: (0..n as u32).map(|k| (char::from_u32(0x4e00 + k).unwrap(), char::from_u32(0x61 + k % 20).unwrap())).collect() };
                f.yaml().into_bytes()
            };
        }
        let texts: Vec<String> = (0..3).map(|_| gen::scaled(&mut ctx.rng, &['a', 'ａ', ' ', '一', '七', 'x'], 60)).collect();
        let pl = ctx.place(ext, &b);
        let ways: &[usize] = if ext == "csv" { &[0, 1, 6, 7, 8] } else { &[0, 1, 2, 3, 4, 5] };
        let way = *ctx.rng.pick(ways);
        let text = String::from_utf8_lossy(&b).into_owned();
        let bad = invalid(ext, &b);
        let what = || format!("{} bytes, {}: {}", b.len(), if bad { "invalid" } else { "valid" }, show(&text));
        if way == 1 {
            std::env::set_var("CHANOMARC", &pl.path);
        }
        let r = under_faults(ctx, way, &pl.path, &texts, &what);
        std::env::remove_var("CHANOMARC");
        r?;
    }

    // several documented files
    let m = Models::new();
    let work = ctx.dir.join("rc");
    let (home, cwd) = (work.join("home"), work.join("cwd"));
    for _ in 0..ctx.budget(120, 2000) {
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(home.join(".config/chanoma")).unwrap();
        std::fs::create_dir_all(&cwd).unwrap();
        let mut names: Vec<(PathBuf, FileCfg)> = Vec::new();
        for d in [home.join(".config/chanoma"), home.clone(), cwd.clone()] {
            for n in ["chanomarc", ".chanomarc"] {
                for e in ["csv", "yaml", "yml"] {
                    if ctx.rng.chance(1, 4) {
                        let mut f = cfg::file_cfg(&mut ctx.rng, 3);
                        if e == "csv" {
                            f.stages.clear();
                        }
                        let p = d.join(format!("{}.{}", n, e));
                        std::fs::write(&p, if e == "csv" { cfg::csv_of(&f.items) } else { f.yaml() }).unwrap();
                        names.push((p, f));
                    }
                }
            }
        }
        std::env::set_var("HOME", &home);
        std::env::set_current_dir(&cwd).unwrap();
        let mut focus = Vec::new();
        for (_, f) in &names {
            focus.extend(f.items.iter().take(6).map(|x| x.0));
            for s in &f.stages {
                s.focus(&mut focus);
            }
        }
        let texts: Vec<String> = (0..4).map(|_| gen::scaled(&mut ctx.rng, &focus, 60)).collect();
        let desc = || format!("documented files {:?}", names.iter().map(|x| format!("{:?}: {:?}", x.0, x.1)).collect::<Vec<_>>());
        let r = under_faults(ctx, 1, Path::new("(documented files)"), &texts, &desc);
        let plain = load(1, Path::new(""), &texts, Fault::None).0;
        std::env::set_current_dir(&ctx.dir).unwrap();
        r?;
        let want: Vec<String> = texts.iter().map(|t| names.iter().fold(t.clone(), |t, (_, f)| f.apply(&m, &t))).collect();
        ctx.judge(&desc, || match plain {
            Ok(Got::Texts(g)) if g == want => Ok(()),
            g => Err(format!("without faults: {:?}", g)),
        })?;
        ctx.event("sets of documented files", 1);
    }
    let _ = std::fs::remove_dir_all(&work);
    Ok(())
}
