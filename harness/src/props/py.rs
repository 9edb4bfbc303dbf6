//! The Python module: C22.
use super::rc::{enter, layout, leave};
use super::Prop;
use crate::cfg;
use crate::ctx::{clip, guard, hex, show, Ctx, R};
use crate::gen;
use crate::rng::Rng;
use chanoma::characters_set as cs;
use chanoma::{Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub static PROPS: &[Prop] = &[Prop {
    id: "C22",
    level: "exploration",
    rule: "random programs over the Python classes (tables from options, files, character sets and correspondences, objects from tables, files, discovered files, presets; options by position and by keyword; files that cannot be loaded; tables changed after use, names used again; things that are no correspondence or no text; several threads), run in Python and, with the library's functions, in Rust; outcome of every step compared; non-trivial: distinct normalisation that changes the text, or failure",
    assumptions: &["strings without surrogates"],
    shards: 0,
    min_nontrivial: Some(3000),
    run: c22,
}];

fn hx(s: &str) -> String {
    hex_all(s.as_bytes())
}

fn hex_all(b: &[u8]) -> String {
    if b.len() <= 4096 {
        return hex(b);
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn opt(p: &Option<PathBuf>) -> String {
    p.as_ref().map(|p| hx(p.to_str().unwrap())).unwrap_or_else(|| "-".into())
}

fn b(x: bool) -> &'static str {
    if x {
        "1"
    } else {
        "0"
    }
}

fn word(r: &mut Rng) -> String {
    match r.below(20) {
        0 => String::new(),
        1 => format!("{}{}", gen::any(r), gen::any(r)),
        _ => gen::any(r).to_string(),
    }
}

/// A file for a table or a configuration: valid, broken or missing.
fn some_file(ctx: &mut Ctx, dir: &std::path::Path, cwd: &std::path::Path, yaml: bool) -> PathBuf {
    if ctx.rng.chance(1, 16) {
        // names that lead nowhere, or to no kind of file that is supported
        return PathBuf::from(*ctx.rng.pick(&["", " ", ".", "x", "none.json", ".csv", "none.yaml", "~", "~/x.csv", "-"]));
    }
    let p = some_absolute_file(ctx, dir, yaml);
    // the same by a path that begins in the working directory
    match (cwd.is_dir() && cwd.parent() == dir.parent(), ctx.rng.below(4)) {
        (true, 0) => PathBuf::from("../files").join(p.file_name().unwrap()),
        (true, 1) if p.is_file() => {
            let n = format!("own{}", p.file_name().unwrap().to_string_lossy());
            std::fs::copy(&p, cwd.join(&n)).unwrap();
            PathBuf::from(n)
        }
        _ => p,
    }
}

fn some_absolute_file(ctx: &mut Ctx, dir: &std::path::Path, yaml: bool) -> PathBuf {
    let n = ctx.rng.below(1_000_000);
    let ext = if yaml { *ctx.rng.pick(&["yaml", "yml"]) } else { "csv" };
    let p = dir.join(format!("{}{}.{}", ctx.rng.pick(&["t", "日本", "a b"]), n, ext));
    let r = &mut ctx.rng;
    match r.below(12) {
        0 => return p,
        1 => {
            let _ = std::fs::create_dir_all(&p);
            return p;
        }
        2 => {
            std::fs::write(&p, if yaml { &b"items: [\n"[..] } else { &b"h,h\na,b\n\xff,c\n"[..] }).unwrap();
            return p;
        }
        _ => {}
    }
    let text = if yaml { cfg::file_cfg(r, 4).yaml() } else { cfg::csv_of(&cfg::pairs(r, 40)) };
    std::fs::write(&p, text).unwrap();
    p
}

fn c22(ctx: &mut Ctx) -> R {
    let pkg = PathBuf::from(std::env::var_os("VMON_PY").expect("VMON_PY"));
    let python = std::env::var_os("VMON_PYTHON").unwrap_or_else(|| "/opt/vp/pyvenv/bin/python3".into());
    let driver = std::env::var_os("VMON_DRIVER").expect("VMON_DRIVER");
    let batches = ctx.budget(32, 400);
    for _ in 0..batches {
        let mut steps: Vec<String> = Vec::new();
        let mut want: Vec<String> = Vec::new();
        let mut info: Vec<String> = Vec::new();
        let mut starts: Vec<usize> = Vec::new();
        let mut layouts = Vec::new();
        for _ in 0..60 {
            let l = layout(ctx, true);
            starts.push(steps.len());
            let desc = l.desc.clone();
            let mut put = |s: String, w: String, i: String| {
                steps.push(s);
                want.push(w);
                info.push(i);
            };
            put(
                format!("env\t{}\t{}\t{}", hx(l.home.to_str().unwrap()), hx(l.cwd.to_str().unwrap()), l.rc.as_ref().map(|v| hex_all(v.as_bytes())).unwrap_or_else(|| "-".into())),
                "ok".into(),
                desc,
            );
            enter(&l);
            let mut focus: Vec<char> = l.focus.clone();
            focus.extend(['Ａ', '１', '！', 'ｱ', 'ー', '~', 'か', '゛', ' ', '　', '－', '㌀', '㍿']);
            let mut tables: Vec<(String, Table)> = Vec::new();
            let mut objs: Vec<(String, Chanoma)> = Vec::new();
            let files = l.home.parent().unwrap().join("files");
            std::fs::create_dir_all(&files).unwrap();
            for k in 0..ctx.rng.range(4, 14) {
                match ctx.rng.below(10) {
                    0 | 1 => {
                        let preset = ctx.rng.chance(1, 3);
                        let csv = if ctx.rng.chance(1, 2) { Some(some_file(ctx, &files, &l.cwd, false)) } else { None };
                        let yaml = if ctx.rng.chance(1, 2) { Some(some_file(ctx, &files, &l.cwd, true)) } else { None };
                        let t = guard(|| -> Result<Table, String> {
                            let mut b = TableBuilder::new();
                            if preset {
                                b.preset();
                            }
                            if let Some(p) = &csv {
                                b.add_from_csv(p).map_err(|e| e.to_string())?;
                            }
                            if let Some(p) = &yaml {
                                b.add_from_yaml(p).map_err(|e| e.to_string())?;
                            }
                            Ok(b.build())
                        });
                        let t = match t {
                            Ok(t) => t,
                            Err(e) => return Err(ctx.violation(&e)),
                        };
                        let style = *ctx.rng.pick(&["pos", "all", "kw"]);
                        let name = format!("t{}", k % 5);
                        put(
                            format!("table\t{}\t{}\t{}\t{}\t{}", name, style, b(preset), opt(&csv), opt(&yaml)),
                            if t.is_ok() { "ok".into() } else { "OSError".into() },
                            format!("{} = Table(preset={}, csv={:?}, yaml={:?}) by {}", name, preset, csv, yaml, style),
                        );
                        if let Ok(t) = t {
                            focus.extend(t.items().iter().take(30).flat_map(|i| i.from.chars().chain(i.to.chars()).collect::<Vec<_>>()));
                            tables.retain(|x| x.0 != name);
                            tables.push((name, t));
                        } else {
                            ctx.event("tables that must be refused", 1);
                        }
                    }
                    2 | 3 if !tables.is_empty() => {
                        let i = ctx.rng.below(tables.len());
                        let (spec, items): (String, Vec<Item>) = match ctx.rng.below(9) {
                            0 => ("set:Alphabets".into(), cs::alphabets::ALPHABETS.items()),
                            1 => ("set:Digits".into(), cs::digits::DIGITS.items()),
                            2 => ("set:Punctuations".into(), cs::punctuations::PUNCTUATIONS.items()),
                            3 => ("set:Kanas".into(), cs::kanas::KANAS.items()),
                            4 => ("set:CjkCompatibilities".into(), cs::cjk_compatibilities::CJK_COMPATIBILITIES.items()),
                            5 => {
                                let (n, all) = *ctx.rng.pick(&[("Alphabets", 0usize), ("Digits", 1), ("Punctuations", 2), ("Kanas", 3), ("CjkCompatibilities", 4)]);
                                let all = match all {
                                    0 => cs::alphabets::ALPHABETS.items(),
                                    1 => cs::digits::DIGITS.items(),
                                    2 => cs::punctuations::PUNCTUATIONS.items(),
                                    3 => cs::kanas::KANAS.items(),
                                    _ => cs::cjk_compatibilities::CJK_COMPATIBILITIES.items(),
                                };
                                let lo = ctx.rng.below(all.len());
                                let hi = (lo + ctx.rng.below(60)).min(all.len());
                                (format!("part:{}:{}:{}", n, lo, hi), all[lo..hi].to_vec())
                            }
                            k => {
                                let n = ctx.rng.below(8);
                                let v: Vec<(String, String)> = (0..n).map(|_| (word(&mut ctx.rng), word(&mut ctx.rng))).collect();
                                focus.extend(v.iter().flat_map(|(a, b)| a.chars().chain(b.chars()).collect::<Vec<_>>()));
                                let s: Vec<String> = v.iter().map(|(a, b)| format!("{}={}", hx(a), hx(b))).collect();
                                (
                                    format!("{}:{}", if k == 6 { "duck" } else { "items" }, s.join(",")),
                                    v.iter().map(|(a, b)| Item::new(a.clone(), b.clone())).collect(),
                                )
                            }
                        };
                        let name = tables[i].0.clone();
                        put(format!("len\t{}", spec), format!("ok {}", items.len()), format!("len({}.items)", clip(&spec, 200)));
                        put(format!("add\t{}\t{}\t{}", name, spec, b(ctx.rng.chance(1, 2))), "ok".into(), format!("{}.add({})", name, clip(&spec, 300)));
                        tables[i].1.add(&Correspondence::new(Synthesized::new(items)));
                        ctx.event("additions to tables", 1);
                        if ctx.rng.chance(1, 4) {
                            // what is no correspondence is refused and adds nothing
                            let kind = ctx.rng.below(5);
                            put(format!("bad\t{}\t{}", name, kind), "refused".into(), format!("{}.add(something else, kind {})", name, kind));
                            ctx.event("additions that must be refused", 1);
                        }
                    }
                    4..=6 => {
                        let table = if !tables.is_empty() && ctx.rng.chance(1, 2) { Some(ctx.rng.below(tables.len())) } else { None };
                        let (neo, preset, rc) = (ctx.rng.chance(1, 3), ctx.rng.chance(1, 3), ctx.rng.chance(1, 3));
                        let config = if ctx.rng.chance(1, 3) {
                            let y = ctx.rng.chance(1, 2);
                            Some(some_file(ctx, &files, &l.cwd, y))
                        } else {
                            None
                        };
                        let tab = table.map(|i| tables[i].1.clone());
                        let c = guard(|| -> Result<Chanoma, String> {
                            let mut c = if let Some(p) = &config {
                                Chanoma::from_config_file(p).map_err(|e| e.to_string())?
                            } else if rc {
                                Chanoma::load_rc().map_err(|e| e.to_string())?
                            } else {
                                Chanoma::new()
                            };
                            if let Some(t) = tab {
                                c.add_table(t);
                            }
                            if preset {
                                c.use_preset();
                            }
                            if neo {
                                c.use_neologdn();
                            }
                            Ok(c)
                        });
                        let c = match c {
                            Ok(c) => c,
                            Err(e) => return Err(ctx.violation(&e)),
                        };
                        let style = *ctx.rng.pick(&["pos", "all", "kw"]);
                        let name = format!("c{}", k % 6);
                        let tname = table.map(|i| tables[i].0.clone()).unwrap_or_else(|| "-".into());
                        put(
                            format!("new\t{}\t{}\t{}\t{}\t{}\t{}\t{}", name, style, tname, b(neo), b(preset), b(rc), opt(&config)),
                            if c.is_ok() { "ok".into() } else { "OSError".into() },
                            format!("{} = Chanoma(table={}, neologdn={}, preset={}, rc={}, configfile={:?}) by {}", name, tname, neo, preset, rc, config, style),
                        );
                        match c {
                            Ok(c) => {
                                objs.retain(|x| x.0 != name);
                                objs.push((name, c))
                            }
                            Err(_) => ctx.event("objects that must be refused", 1),
                        }
                    }
                    7 if !objs.is_empty() => {
                        let name = objs[ctx.rng.below(objs.len())].0.clone();
                        put(format!("wrong\t{}\t{}", name, ctx.rng.below(5)), "done".into(), format!("{}.normalize(something that is no text)", name));
                    }
                    8 if objs.len() > 1 && ctx.rng.chance(1, 2) => {
                        let texts: Vec<String> = (0..3).map(|_| gen::text(&mut ctx.rng, &focus)).collect();
                        let mut w = Vec::new();
                        for (_, c) in &objs {
                            for t in &texts {
                                match guard(|| c.normalize(t)) {
                                    Ok(x) => w.push(hx(&x)),
                                    Err(e) => return Err(ctx.violation(&e)),
                                }
                            }
                        }
                        let names: Vec<&str> = objs.iter().map(|x| x.0.as_str()).collect();
                        let hexed: Vec<String> = texts.iter().map(|t| hx(t)).collect();
                        put(
                            format!("threads\t{}\t{}", names.join(","), hexed.join(",")),
                            format!("ok {}", w.join(",")),
                            format!("threads that normalise {} with {}", texts.iter().map(|t| show(t)).collect::<Vec<_>>().join(", "), names.join(", ")),
                        );
                        ctx.event("steps with threads", 1);
                    }
                    _ => {}
                }
                // every object made so far, also after its table was changed
                for (name, c) in &objs {
                    for _ in 0..2 {
                        let t = match ctx.rng.below(400) {
                            0 => gen::big(&mut ctx.rng, &focus, 100_000),
                            1..=40 => super::rc::marker_text(),
                            _ => gen::text(&mut ctx.rng, &focus),
                        };
                        if t.len() > 10_000 {
                            ctx.event("large texts", 1);
                        }
                        let w = match guard(|| c.normalize(&t)) {
                            Ok(w) => w,
                            Err(e) => return Err(ctx.violation(&e)),
                        };
                        put(format!("norm\t{}\t{}", name, hx(&t)), format!("ok {}", hx(&w)), format!("{}.normalize({})", name, show(&t)));
                        if w != t {
                            ctx.key(&[name.as_bytes(), t.as_bytes(), w.as_bytes()]);
                        }
                        ctx.event("normalisations compared", 1);
                    }
                }
            }
            leave(ctx);
            layouts.push(l);
        }
        // run it in Python
        let sp = ctx.path("steps");
        let rp = ctx.path("results");
        std::fs::write(&sp, steps.join("\n") + "\n").unwrap();
        let _ = std::fs::write(&rp, "");
        let o = Command::new(&python)
            .arg("-B")
            .arg(&driver)
            .arg(&pkg)
            .arg(&sp)
            .arg(&rp)
            .env("PYTHONUTF8", "1")
            .env_remove("CHANOMARC")
            .current_dir(&ctx.dir)
            .stdin(Stdio::null())
            .output()
            .unwrap();
        let got = std::fs::read_to_string(&rp).unwrap_or_default();
        let got: Vec<&str> = got.lines().collect();
        if got.is_empty() {
            // not even started
            std::fs::write(ctx.dir.join("inconclusive.txt"), format!("Python did not start: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr))).unwrap();
            return Ok(());
        }
        let mut start = 0;
        for i in 0..steps.len() {
            if starts.contains(&i) {
                start = i;
            }
            let history = || info[start..=i].join("\n");
            let (g, w) = (got.get(i).copied(), &want[i]);
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            ctx.judge(&history, || match g {
                Some(g) if g == w => Ok(()),
                Some(g) => {
                    let dec = |s: &str| match s.strip_prefix("ok ") {
                        Some(h) if info[i].contains("normalize") => show(&String::from_utf8_lossy(&crate::ctx::unhex(h))),
                        _ => s.to_string(),
                    };
                    Err(format!("last step gives\n    in Python {}\n    in Rust   {}", dec(g), dec(w)))
                }
                None => Err(format!("Python died at the last step: {:?} {}", o.status, clip(&err, 1500))),
            })?;
            if want[i] == "OSError" {
                ctx.key(&[steps[i].as_bytes()]);
            }
            ctx.sample(|| info[i].clone());
        }
        ctx.event("steps", steps.len() as u64);
        let _ = std::fs::remove_file(&sp);
        let _ = std::fs::remove_file(&rp);
        for l in &layouts {
            l.cleanup();
        }
    }
    Ok(())
}
