//! Files that change while they are loaded: C32.
use super::Prop;
use crate::alloc;
use crate::cfg::{csv_of, q, FileCfg, Stage};
use crate::ctx::{guard, show, Ctx, R};
use crate::model::Models;
use crate::rng::Rng;
use chanoma::{file, Chanoma, TableBuilder};
use std::cell::Cell;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

pub static PROPS: &[Prop] = &[Prop {
    id: "C32",
    level: "fault_enumeration",
    rule: "CSV and YAML files, configurations, documented files and links, which are replaced (by rename, once or twice, also by a link), removed or created at every point inside the loading call at which it allocates or frees memory, or at any time by another thread; by every loading function; result compared with what each of the contents means; non-trivial: distinct way of loading, change, point and content",
    assumptions: &["replacement is atomic, as by rename; contents written in place while being read are not judged", "changes happen at allocations, and at random times"],
    shards: 0,
    min_nontrivial: Some(3000),
    run: c32,
}];

extern "C" {
    fn rename(a: *const c_char, b: *const c_char) -> c_int;
    fn unlink(a: *const c_char) -> c_int;
}

/// Up to two changes, at given points: `from` is renamed to `to`, or `to` is removed if there is no `from`.
#[derive(Clone, Copy)]
struct Change {
    from: *const c_char,
    to: *const c_char,
    at: u64,
}
const NONE: Change = Change { from: std::ptr::null(), to: std::ptr::null(), at: u64::MAX };
thread_local! {
    static PLAN: Cell<[Change; 2]> = const { Cell::new([NONE; 2]) };
    static DONE: Cell<u64> = const { Cell::new(0) };
}

fn action() -> u64 {
    let [a, b] = PLAN.with(|p| p.get());
    if !a.to.is_null() {
        let rc = unsafe {
            if a.from.is_null() {
                unlink(a.to)
            } else {
                rename(a.from, a.to)
            }
        };
        if rc == 0 {
            DONE.with(|d| d.set(d.get() + 1));
        }
    }
    PLAN.with(|p| p.set([b, NONE]));
    b.at
}

/// Runs `f` with the changes; returns also the number of points and of changes that took place meanwhile.
fn during<T>(plan: &[(Option<&CString>, &CString, u64)], f: impl FnOnce() -> T) -> (Result<T, String>, u64, u64) {
    let mut p = [NONE; 2];
    for (i, (a, b, n)) in plan.iter().enumerate() {
        p[i] = Change { from: a.map_or(std::ptr::null(), |a| a.as_ptr()), to: b.as_ptr(), at: *n };
    }
    PLAN.with(|x| x.set(p));
    DONE.with(|d| d.set(0));
    alloc::arm(p[0].at, action);
    let r = guard(f);
    let points = alloc::disarm();
    (r, points, DONE.with(|d| d.get()))
}

fn c(p: &Path) -> CString {
    CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// The same kinds of parts, every one of them recognisable as belonging to this version.
fn version(r: &mut Rng, v: char, yaml: bool) -> FileCfg {
    let u = v as u32 - 'A' as u32;
    let mark = |k: u32| char::from_u32(0xe000 + u * 0x400 + k).unwrap();
    let n = *r.pick(&[0usize, 1, 3, 40, 40, 700]);
    let mut items: Vec<(char, char)> = vec![('①', v)];
    for i in 0..n {
        items.push((char::from_u32(0xf0000 + i as u32).unwrap(), mark(i as u32 % 0x300)));
    }
    let mut stages = Vec::new();
    if yaml {
        stages.push(Stage::Conv(vec![('②', v), ('③', mark(0x301))]));
        if r.chance(2, 3) {
            stages.push(Stage::Elim(vec![if v == 'A' { 'x' } else { 'y' }]));
        }
        if r.chance(2, 3) {
            stages.push(Stage::Lig(vec![("pq".into(), v.to_string()), (format!("w{}", v), "L".into())]));
        }
        if r.chance(1, 2) {
            stages.push(Stage::Reduce(if v == 'A' { 'k' } else { 'l' }));
        }
        if r.chance(1, 3) {
            stages.push(Stage::Trim);
        }
        r.shuffle(&mut stages);
        if r.chance(1, 8) {
            stages.clear();
        }
        if r.chance(1, 8) {
            items.clear();
        }
    }
    FileCfg { stages, items }
}

fn text_of(f: &FileCfg, yaml: bool) -> String {
    if yaml {
        let mut s = f.yaml();
        if f.items.is_empty() && f.stages.is_empty() {
            s = format!("other: {}\n", q("x"));
        }
        s
    } else {
        csv_of(&f.items)
    }
}

const PROBES: [&str; 3] = ["①②③ xy pq wA wB kkk lll ", "  \u{f0000}\u{f0001}\u{f0003}\u{f0010}\u{f0027}\u{f02bb}①", "②pq①xxyykkllwAwB"];

type Got = Result<Vec<String>, String>;

fn probe(ch: Chanoma) -> Vec<String> {
    PROBES.iter().map(|t| ch.normalize(t)).collect()
}

/// Loading by the numbered way, whatever it gives being brought down to texts.
fn load(way: usize, p: &Path) -> Got {
    let e = |e: chanoma::error::Error| e.to_string();
    let t = match way {
        0 => return Chanoma::from_config_file(p).map(probe).map_err(e),
        1 => return Chanoma::load_rc().map(probe).map_err(|e| e.to_string()),
        2 => file::table_from_csv_path(p).map_err(e)?,
        3 => TableBuilder::from_csv_path(p).map_err(e)?.build(),
        4 => {
            let mut b = TableBuilder::new();
            b.add_from_csv(p).map(|_| ()).map_err(e)?;
            b.build()
        }
        5 => file::table_from_yaml_path(p).map_err(e)?,
        6 => TableBuilder::from_yaml_path(p).map_err(e)?.build(),
        _ => {
            let mut b = TableBuilder::new();
            b.add_from_yaml(p).map(|_| ()).map_err(e)?;
            b.build()
        }
    };
    Ok(probe(Chanoma::from_table(t)))
}
const WAYS: [&str; 8] = ["Chanoma::from_config_file", "Chanoma::load_rc", "table_from_csv_path", "TableBuilder::from_csv_path", "add_from_csv", "table_from_yaml_path", "TableBuilder::from_yaml_path", "add_from_yaml"];

fn means(m: &Models, files: &[&FileCfg], table_only: bool) -> Vec<String> {
    PROBES
        .iter()
        .map(|t| {
            files.iter().fold(t.to_string(), |t, f| {
                if table_only {
                    FileCfg { stages: Vec::new(), items: f.items.clone() }.apply(m, &t)
                } else {
                    f.apply(m, &t)
                }
            })
        })
        .collect()
}

fn verdict(got: &Result<Got, String>, ok: &[(&str, Vec<String>)], err: bool) -> Result<(), String> {
    match got {
        Err(p) => Err(p.clone()),
        Ok(Err(_)) if err => Ok(()),
        Ok(Err(e)) => Err(format!("refused: {}", e)),
        Ok(Ok(g)) if ok.iter().any(|w| w.1 == *g) => Ok(()),
        Ok(Ok(g)) => {
            let s: Vec<String> = ok.iter().map(|(n, w)| format!("{}: {:?}", n, w.iter().map(|x| show(x)).collect::<Vec<_>>())).collect();
            Err(format!("what was loaded is none of the contents:\n    {:?}\n    {}", g.iter().map(|x| show(x)).collect::<Vec<_>>(), s.join("\n    ")))
        }
    }
}

fn files(ctx: &mut Ctx) -> R {
    let m = Models::new();
    let dir = ctx.dir.join("swap");
    let (home, cwd) = (dir.join("home"), dir.join("cwd"));
    for round in 0..ctx.budget(160, 3000) {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(home.join(".config/chanoma")).unwrap();
        std::fs::create_dir_all(&cwd).unwrap();
        std::env::set_var("HOME", &home);
        std::env::set_current_dir(&cwd).unwrap();
        std::env::remove_var("CHANOMARC");
        let way = round % 8;
        let mut r = Rng::new(ctx.rng.next());
        let yaml = match way {
            0 | 1 => r.chance(3, 4),
            2..=4 => false,
            _ => true,
        };
        let ext = if yaml { *r.pick(&["yaml", "yml"]) } else { "csv" };
        let (a, b) = (version(&mut r, 'A', yaml), version(&mut r, 'B', yaml));
        let mut others: Vec<(PathBuf, FileCfg)> = Vec::new();
        let documented = |r: &mut Rng, ext: &str| [home.join(".config/chanoma"), home.clone(), cwd.clone()][r.below(3)].join(format!("{}chanomarc.{}", r.pick(&["", "."]), ext));
        let named = way == 1 && r.chance(1, 3);
        let path = if way == 1 && !named { documented(&mut r, ext) } else { dir.join(format!("f.{}", ext)) };
        if named {
            std::env::set_var("CHANOMARC", &path);
        } else if way == 1 {
            for i in 0..r.below(4) {
                let y = r.chance(1, 2);
                let p = documented(&mut r, if y { "yaml" } else { "csv" });
                if p == path || others.iter().any(|o| o.0 == p) {
                    continue;
                }
                let f = FileCfg { stages: if y { vec![Stage::Lig(vec![(format!("{}", i), "z".into())])] } else { Vec::new() }, items: vec![('A', 'c'), ('B', 'd')] };
                std::fs::write(&p, text_of(&f, y)).unwrap();
                others.push((p, f));
            }
        }
        let kind = r.below(10);
        let link = kind == 3;
        let (old, new, spare) = (dir.join("old"), dir.join("new"), dir.join("spare"));
        let (at, bt) = (text_of(&a, yaml), text_of(&b, yaml));
        let put = |p: &Path, t: &str| {
            let _ = std::fs::remove_file(p);
            if link {
                let real = p.with_file_name(format!("{}.real", p.file_name().unwrap().to_string_lossy()));
                std::fs::write(&real, t).unwrap();
                std::os::unix::fs::symlink(&real, p).unwrap();
            } else {
                std::fs::write(p, t).unwrap();
            }
        };
        let _ = old;
        // the meanings of the three states of the place
        let order = |with: Option<&FileCfg>| -> Vec<String> {
            let mut v: Vec<(PathBuf, &FileCfg)> = others.iter().map(|(p, f)| (p.clone(), f)).collect();
            if let Some(f) = with {
                v.push((path.clone(), f));
            }
            let rank = |p: &Path| {
                let d = [home.join(".config/chanoma"), home.clone(), cwd.clone()].iter().position(|d| Some(d.as_path()) == p.parent()).unwrap_or(0);
                let hidden = p.file_name().unwrap().as_bytes()[0] == b'.';
                let e = ["csv", "yaml", "yml"].iter().position(|e| p.extension().unwrap() == *e).unwrap();
                (d, hidden, e)
            };
            v.sort_by_key(|x| rank(&x.0));
            means(&m, &v.iter().map(|x| x.1).collect::<Vec<_>>(), way > 1)
        };
        let with_a = ("the old content", order(Some(&a)));
        let with_b = ("the new content", order(Some(&b)));
        let without = ("without the file", order(None));
        let discovered = way == 1 && !named;
        let (cp, cn, cs) = (c(&path), c(&new), c(&spare));
        let what = match kind {
            0..=4 => "replaced",
            5 | 6 => "replaced twice",
            7 | 8 => "removed",
            _ => "created",
        };
        let prepare = || {
            if kind == 9 {
                let _ = std::fs::remove_file(&path);
            } else {
                put(&path, &at);
            }
            put(&new, &bt);
            put(&spare, &at);
        };
        let desc = |k: u64, l: u64| {
            format!(
                "{} of {:?} (CHANOMARC {}), {} at points {} and {}\nold: {}\nnew: {}\nother files {:?}",
                WAYS[way],
                path,
                named,
                what,
                k,
                l,
                show(&at),
                show(&bt),
                others.iter().map(|o| &o.0).collect::<Vec<_>>()
            )
        };
        // undisturbed
        prepare();
        let (got, points, _) = during(&[], || load(way, &path));
        ctx.judge(&|| desc(0, 0), || if kind == 9 { verdict(&got, &[without.clone()], !discovered) } else { verdict(&got, &[with_a.clone()], false) })?;
        ctx.event("points inside loading calls", points);
        let max = if ctx.thorough { 4000 } else { 250 };
        let step = (points / max).max(1);
        let mut k = 1;
        while k <= points {
            let l = if what == "replaced twice" { k + 1 + r.below((points - k + 2) as usize) as u64 } else { 0 };
            prepare();
            let plan: Vec<(Option<&CString>, &CString, u64)> = match what {
                "replaced" | "created" => vec![(Some(&cn), &cp, k)],
                "replaced twice" => vec![(Some(&cn), &cp, k), (Some(&cs), &cp, l)],
                _ => vec![(None, &cp, k)],
            };
            let (got, _, done) = during(&plan, || load(way, &path));
            ctx.event(what, done);
            let mut ok = vec![with_a.clone(), with_b.clone()];
            let mut err = false;
            match what {
                "removed" => {
                    ok = vec![with_a.clone()];
                    err = true;
                    if discovered {
                        ok.push(without.clone());
                    }
                }
                "created" => {
                    ok = vec![with_b.clone()];
                    err = !discovered;
                    if discovered {
                        ok.push(without.clone());
                    }
                }
                _ => {}
            }
            ctx.judge(&|| desc(k, l), || verdict(&got, &ok, err))?;
            if let Ok(Ok(g)) = &got {
                if *g == with_a.1 {
                    ctx.event("loaded the old content", 1);
                } else if *g == with_b.1 {
                    ctx.event("loaded the new content", 1);
                }
            }
            if done > 0 {
                ctx.key(&[&[way as u8, kind as u8], &k.to_le_bytes(), at.as_bytes()]);
            }
            k += if step == 1 { 1 } else { 1 + r.below(2 * step as usize - 1) as u64 };
        }
        ctx.sample(|| desc(points, 0));
    }
    std::env::remove_var("CHANOMARC");
    std::env::set_current_dir(&ctx.dir).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// Another thread replaces the file all the time.
fn flicker(ctx: &mut Ctx) -> R {
    let m = Models::new();
    let dir = ctx.dir.join("flicker");
    std::fs::create_dir_all(&dir).unwrap();
    for round in 0..ctx.budget(24, 400) {
        let mut r = Rng::new(ctx.rng.next());
        let way = [0, 0, 0, 1, 3, 6][round % 6];
        let yaml = match way {
            3 => false,
            6 => true,
            _ => r.chance(3, 4),
        };
        let path = dir.join(if yaml { "f.yaml" } else { "f.csv" });
        let (a, b) = (version(&mut r, 'A', yaml), version(&mut r, 'B', yaml));
        let texts = [text_of(&a, yaml), text_of(&b, yaml)];
        std::fs::write(&path, &texts[0]).unwrap();
        if way == 1 {
            std::env::set_var("CHANOMARC", &path);
        }
        let stop = Arc::new(AtomicBool::new(false));
        let count = Arc::new(AtomicU64::new(0));
        let (s2, c2, p2, t2, tmp) = (stop.clone(), count.clone(), path.clone(), texts.clone(), dir.join("tmp"));
        let writer = std::thread::spawn(move || {
            let mut i = 0u64;
            while !s2.load(Relaxed) {
                i += 1;
                std::fs::write(&tmp, &t2[(i % 2) as usize]).unwrap();
                std::fs::rename(&tmp, &p2).unwrap();
                c2.fetch_add(1, Relaxed);
                for _ in 0..(i * 2654435761) % 20_000 {
                    std::hint::spin_loop();
                }
            }
        });
        let ok = [("the old content", means(&m, &[&a], way > 1)), ("the new content", means(&m, &[&b], way > 1))];
        let mut out = Ok(());
        let n = if ctx.thorough { 2000 } else { 300 };
        let mut seen = [0u64; 2];
        for i in 0..n {
            let got = guard(|| load(way, &path));
            if let Ok(Ok(g)) = &got {
                for k in 0..2 {
                    seen[k] += (*g == ok[k].1) as u64;
                }
            }
            out = ctx.judge(&|| format!("{} of {:?} replaced by another thread, time {}\ncontents {} and {}", WAYS[way], path, i, show(&texts[0]), show(&texts[1])), || verdict(&got, &ok, false));
            if out.is_err() {
                break;
            }
        }
        stop.store(true, Relaxed);
        let _ = writer.join();
        std::env::remove_var("CHANOMARC");
        ctx.event("replacements by another thread", count.load(Relaxed));
        ctx.event("loads meanwhile", n);
        ctx.event("loads meanwhile that gave the less frequent content", seen[0].min(seen[1]));
        out?;
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

fn c32(ctx: &mut Ctx) -> R {
    files(ctx)?;
    flicker(ctx)
}
