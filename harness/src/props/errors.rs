//! What errors tell: C30.
use super::tables::{invalid, must_fail, mutate, valid_file, WRONG};
use super::Prop;
use crate::ctx::{guard, show, Ctx, R};
use crate::gen;
use chanoma::error::Error;
use chanoma::file_extension::FileExtension;
use chanoma::{file, Chanoma, TableBuilder};
use std::ffi::{OsStr, OsString};
use std::io::ErrorKind;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;

pub static PROPS: &[Prop] = &[Prop {
    id: "C30",
    level: "fault_enumeration",
    rule: "loading by every function from paths with every kind of file extension (none, unsupported, not UTF-8), missing files and directories, links that lead nowhere, CSV and YAML files that are invalid (random, mutated, truncated), unknown stage names, wrong parameters, unusable CHANOMARC values and broken files at the documented places, also through the program; kind, content and message of every error compared with what was made wrong, and with the error of a second time; non-trivial: distinct failure",
    assumptions: &["texts of messages are judged only for the path, extension or name that they must hold"],
    shards: 0,
    min_nontrivial: Some(3000),
    run: c30,
}];

/// The input/output error behind an error, whatever wraps it.
fn io_kind(e: &Error) -> Option<ErrorKind> {
    match e {
        Error::IoError(e) => Some(e.kind()),
        Error::CsvFileLoadError(e) => match e.kind() {
            csv::ErrorKind::Io(e) => Some(e.kind()),
            _ => None,
        },
        _ => None,
    }
}

/// What must be told.
enum Want<'a> {
    NoExtension(&'a Path),
    Unsupported(&'a Path, &'a str),
    NotUtf8(&'a Path),
    Missing,
    Io,
    Csv,
    Yaml,
    Stage(&'a str),
    /// One of these, or a wrong parameter where there are some.
    Several(&'a [String], bool),
    Parameter,
    Rc(&'a Path),
}

fn told(e: &Error, w: &Want) -> Result<(), String> {
    let msg = e.to_string();
    let fail = |s: &str| Err(format!("{}: {:?} with the message {}", s, e, show(&msg)));
    if msg.trim().is_empty() {
        return fail("an error without a message");
    }
    let holds = |p: &Path| msg.contains(&p.display().to_string());
    let ok = match w {
        Want::NoExtension(p) => matches!(e, Error::FileExtensionNotFoundInPath(q) if q == p) && holds(p),
        Want::Unsupported(_, x) => matches!(e, Error::UnsupportedFileExtensionError(q) if q == x || q.strip_prefix('.') == Some(*x)) && msg.contains(x),
        Want::NotUtf8(p) => matches!(e, Error::FileExtensionCanNotConvertToStr(q) if q == p) && holds(p),
        Want::Missing => io_kind(e) == Some(ErrorKind::NotFound),
        // what cannot be opened or read: by itself or wrapped by the parser
        Want::Io => matches!(e, Error::IoError(_) | Error::CsvFileLoadError(_) | Error::YamlFileLoadError(_)),
        Want::Csv => matches!(e, Error::CsvFileLoadError(_)) && io_kind(e).map_or(true, |k| k == ErrorKind::InvalidData),
        Want::Yaml => matches!(e, Error::YamlFileLoadError(_)),
        Want::Stage(n) => matches!(e, Error::ModifierKindParseError(_)) && msg.contains(n),
        Want::Several(names, wrong) => match e {
            Error::ModifierKindParseError(_) => *wrong || names.iter().any(|n| msg.contains(n)),
            Error::YamlFileLoadError(_) => *wrong,
            _ => false,
        },
        Want::Parameter => matches!(e, Error::ModifierKindParseError(_) | Error::YamlFileLoadError(_)),
        Want::Rc(p) => match e {
            Error::RcFileLoadError(q) => q == p && holds(p),
            _ => false,
        },
    };
    if ok {
        return Ok(());
    }
    match w {
        Want::NoExtension(_) => fail("not reported as a path without extension, with this path"),
        Want::Unsupported(_, x) => fail(&format!("not reported as the unsupported extension {:?}", x)),
        Want::NotUtf8(_) => fail("not reported as an extension that is not UTF-8, with this path"),
        Want::Missing => fail("not reported as a missing file"),
        Want::Io => fail("not reported as a failure of reading"),
        Want::Csv => fail("not reported as invalid CSV"),
        Want::Yaml => fail("not reported as invalid YAML"),
        Want::Stage(n) => fail(&format!("not reported as the unknown stage {:?}", n)),
        Want::Several(names, _) => fail(&format!("not reported as one of the unknown stages {:?} or a wrong parameter", names)),
        Want::Parameter => fail("not reported as a wrong parameter"),
        Want::Rc(_) => fail("not reported as an unusable CHANOMARC, with this path"),
    }
}

type Loader = (&'static str, fn(&Path) -> Result<(), Error>);

const CONFIG: Loader = ("Chanoma::from_config_file", |p| Chanoma::from_config_file(p).map(|_| ()));
const TABLES: [&[Loader]; 2] = [
    &[
        ("table_from_csv_path", |p| file::table_from_csv_path(p).map(|_| ())),
        ("TableBuilder::from_csv_path", |p| TableBuilder::from_csv_path(p).map(|_| ())),
        ("TableBuilder::add_from_csv", |p| TableBuilder::new().add_from_csv(p).map(|_| ())),
    ],
    &[
        ("table_from_yaml_path", |p| file::table_from_yaml_path(p).map(|_| ())),
        ("TableBuilder::from_yaml_path", |p| TableBuilder::from_yaml_path(p).map(|_| ())),
        ("TableBuilder::add_from_yaml", |p| TableBuilder::new().add_from_yaml(p).map(|_| ())),
    ],
];
const STAGES: Loader = ("modifiers_from_yaml_path", |p| file::modifiers_from_yaml_path(p).map(|_| ()));

fn judge(ctx: &mut Ctx, what: &str, p: &Path, loaders: &[Loader], w: &Want) -> R {
    for (name, f) in loaders {
        ctx.judge(&|| format!("{}\n{}({:?})", what, name, p), || match f(p) {
            Ok(()) => Err("accepted, although it must be refused".into()),
            Err(e) => {
                told(&e, w)?;
                match f(p) {
                    Err(e2) if e2.to_string() == e.to_string() && format!("{:?}", e2) == format!("{:?}", e) => Ok(()),
                    Err(e2) => Err(format!("another error the second time: {:?} and {:?}", e, e2)),
                    Ok(()) => Err(format!("accepted the second time; the first time {:?}", e)),
                }
            }
        })?;
    }
    ctx.event(what, 1);
    ctx.key(&[what.as_bytes(), p.as_os_str().as_bytes()]);
    Ok(())
}

fn stem(r: &mut crate::rng::Rng) -> Vec<u8> {
    match r.below(11) {
        10 => "long name-長い".repeat(9)[..r.range(1, 10)].to_string().into_bytes().into_iter().chain(std::iter::repeat(b'n').take(r.range(20, 130))).collect(),
        0 => b"x.yaml".to_vec(),
        1 => b"x.csv".to_vec(),
        2 => "設定".into(),
        3 => b"a b".to_vec(),
        4 => b"\xff".to_vec(),
        5 => b"-".to_vec(),
        6 => b"a\nb".to_vec(),
        7 => format!("{{}}{}", r.below(1000)).into_bytes(),
        _ => format!("f{}", r.below(100_000)).into_bytes(),
    }
}

/// An extension that is not supported: other words, other case, more or fewer characters.
fn other_ext(r: &mut crate::rng::Rng) -> String {
    loop {
        let base = *r.pick(&["csv", "yaml", "yml"]);
        let x: String = match r.below(10) {
            9 => base.chars().cycle().take(r.range(5, 95)).collect(),
            0 => base.to_uppercase(),
            1 => base.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            2 => format!("{}{}", base, gen::any(r)),
            3 => format!("{}{}", gen::any(r), base),
            4 => base[..r.range(1, base.len() - 1)].to_string(),
            5 => r.pick(&["json", "toml", "txt", "tsv", "yam", "cvs", "bak", "yamll", "rs", "ini", "CSV", "ｃｓｖ", "ya ml", "~"]).to_string(),
            6 => format!("{} ", base),
            7 => (0..r.range(1, 6)).map(|_| gen::any(r)).collect(),
            _ => format!("{}", r.below(1000)),
        };
        if x.is_empty() || x.contains(|c| matches!(c, '/' | '\0' | '.')) || ["csv", "yaml", "yml"].contains(&x.as_str()) || x.len() > 100 {
            continue;
        }
        return x;
    }
}

fn extensions(ctx: &mut Ctx) -> R {
    let dir = ctx.dir.join("ext");
    std::fs::create_dir_all(&dir).unwrap();
    let good = "items:\n  - {from: a, to: b}\n";
    for _ in 0..ctx.budget(4000, 100000) {
        let kind = ctx.rng.below(4);
        let mut name = if kind == 0 { format!("n{}", ctx.rng.below(100_000)).into_bytes() } else { stem(&mut ctx.rng) };
        let x = other_ext(&mut ctx.rng);
        let ext: Vec<u8> = match kind {
            0 => Vec::new(),
            1 => [&b"."[..], &gen::any(&mut ctx.rng).to_string().into_bytes(), b"\xff\xfe"].concat().into_iter().filter(|b| *b != b'/' && *b != 0).collect(),
            _ => format!(".{}", x).into_bytes(),
        };
        if kind == 1 && (ext.len() < 3 || ext[1..].contains(&b'.')) {
            continue;
        }
        name.extend(&ext);
        // below the directory, relative, or by a long way round
        let p = match ctx.rng.below(4) {
            0 => PathBuf::from(OsString::from_vec(name.clone())),
            1 => dir.join("..").join("ext").join(OsStr::from_bytes(&name)),
            _ => dir.join(OsStr::from_bytes(&name)),
        };
        let there = ctx.rng.chance(1, 2) && p.is_absolute();
        if there {
            std::fs::write(&p, good).unwrap();
        }
        let w = match kind {
            0 => Want::NoExtension(&p),
            1 => Want::NotUtf8(&p),
            _ => Want::Unsupported(&p, &x),
        };
        judge(ctx, ["paths without extension", "extensions that are not UTF-8", "unsupported extensions", "unsupported extensions"][kind], &p, &[CONFIG], &w)?;
        ctx.judge(&|| format!("FileExtension::from_path({:?})", p), || match FileExtension::from_path(&p) {
            Ok(x) => Err(format!("gives {:?}", x)),
            Err(e) => told(&e, &w),
        })?;
        if kind > 1 {
            ctx.judge(&|| format!("FileExtension::from_str({:?})", x), || match FileExtension::from_str(&x) {
                Ok(f) => Err(format!("gives {:?}", f)),
                Err(e) => told(&e, &w),
            })?;
        }
        if there {
            let _ = std::fs::remove_file(&p);
        }
    }
    for (x, f, s) in [("csv", FileExtension::Csv, "csv"), ("yaml", FileExtension::Yaml, "yaml"), ("yml", FileExtension::Yaml, "yaml")] {
        for _ in 0..ctx.budget(64, 640) {
            let mut name = stem(&mut ctx.rng);
            name.extend(format!(".{}", x).into_bytes());
            let p = PathBuf::from(OsString::from_vec(name));
            ctx.judge(&|| format!("FileExtension::from_path({:?})", p), || match FileExtension::from_path(&p) {
                Ok(g) if g == f && g.to_string() == s && FileExtension::from_str(&g.to_string()).ok().as_ref() == Some(&g) => Ok(()),
                g => Err(format!("gives {:?}", g)),
            })?;
        }
    }
    Ok(())
}

fn files(ctx: &mut Ctx) -> R {
    let dir = ctx.dir.join("files");
    std::fs::create_dir_all(&dir).unwrap();
    for _ in 0..ctx.budget(1600, 30000) {
        let y = ctx.rng.below(2);
        let ext = if y == 1 { *ctx.rng.pick(&["yaml", "yml"]) } else { "csv" };
        let mut name = stem(&mut ctx.rng);
        name.extend(format!(".{}", ext).into_bytes());
        let mut all: Vec<Loader> = TABLES[y].to_vec();
        all.push(CONFIG);
        if y == 1 {
            all.push(STAGES);
        }
        let p = dir.join(OsStr::from_bytes(&name));
        match ctx.rng.below(4) {
            0 => judge(ctx, "missing files", &p, &all, &Want::Missing)?,
            1 => judge(ctx, "files in missing directories", &dir.join("no").join(OsStr::from_bytes(&name)), &all, &Want::Missing)?,
            2 => {
                let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &p);
                judge(ctx, "links that lead nowhere", &p, &all, &Want::Missing)?;
                let _ = std::fs::remove_file(&p);
            }
            _ => {
                std::fs::create_dir_all(&p).unwrap();
                judge(ctx, "directories", &p, &all, &Want::Io)?;
                let _ = std::fs::remove_dir(&p);
            }
        }
    }
    Ok(())
}

fn contents(ctx: &mut Ctx) -> R {
    for _ in 0..ctx.budget(8000, 200000) {
        let (ext, t) = valid_file(&mut ctx.rng);
        let b = match ctx.rng.below(4) {
            0 => {
                let n = ctx.rng.below(t.len() + 1);
                let mut b = t.as_bytes()[..n].to_vec();
                b.extend(ctx.rng.pick(&[&b"\xff"[..], b"\xe3\x81", b"\n\t- {", b"\n[", b": :\n]", b"\"", b"\x01"]).iter());
                b
            }
            _ => mutate(&mut ctx.rng, t.as_bytes()),
        };
        if !invalid(ext, &b) {
            continue;
        }
        let y = (ext != "csv") as usize;
        let pl = ctx.place(ext, &b);
        let mut all: Vec<Loader> = TABLES[y].to_vec();
        all.push(CONFIG);
        if y == 1 {
            all.push(STAGES);
        }
        judge(ctx, if y == 1 { "invalid YAML files" } else { "invalid CSV files" }, &pl.path, &all, &if y == 1 { Want::Yaml } else { Want::Csv })?;
        ctx.key(&[&b]);
        ctx.sample(|| format!("{}: {}", ext, show(&String::from_utf8_lossy(&b))));
    }
    Ok(())
}

fn stages(ctx: &mut Ctx) -> R {
    let known = ["character_converter", "character_eliminator", "consecutive_character_reducer", "dotted_space_eliminator", "ligature_translator", "trim", "neologdn"];
    let lead = |r: &mut crate::rng::Rng| -> String {
        match r.below(4) {
            0 => "  consecutive_character_reducer: x\n".into(),
            1 => "  character_eliminator: [q, \"~\"]\n".into(),
            _ => String::new(),
        }
    };
    for _ in 0..ctx.budget(3000, 60000) {
        let r = &mut ctx.rng;
        let k = known[r.below(7)];
        let name: String = match r.below(9) {
            8 => {
                let part = *r.pick(&["trim", "neologdn_", "正規化", "a", "x y", "ライブラリ-"]);
                part.repeat(r.range(2, 120)).chars().take(r.range(2, 120)).collect::<String>().trim().to_string()
            }
            0 => k.to_uppercase(),
            1 => format!("{}{}", k, r.pick(&["s", " ", "_", "()", "(a)", "2", "\u{ff4d}"])),
            2 => format!("{}{}", r.pick(&[" ", "_", "x", "no_"]), k),
            3 => k[..r.range(0, k.len() - 1)].to_string(),
            4 => k.replace('_', "-"),
            5 => r.pick(&["preset", "items", "modifiers", "lowercase", "正規化", "character converter", "Trim", "NEOLOGDN", "all", "dotted_space"]).to_string(),
            _ => (0..r.range(1, 8)).map(|_| gen::any(r)).filter(|c| !c.is_control() && !matches!(*c as u32, 0x85 | 0x2028 | 0x2029 | 0xfeff | 0xfffe | 0xffff)).collect(),
        };
        if known.contains(&name.as_str()) || name.is_empty() {
            continue;
        }
        let pre = lead(r);
        let post = if r.chance(1, 2) { "  trim:\n" } else { "" };
        let value = *r.pick(&["", "a", "[a]", "{a: b}", "\"x\""]);
        let t = format!("modifiers:\n{}  {}: {}\n{}", pre, crate::cfg::q(&name), value, post);
        let pl = ctx.place("yaml", t.as_bytes());
        judge(ctx, "unknown stages", &pl.path, &[CONFIG, STAGES], &Want::Stage(&name))?;
        ctx.key(&[t.as_bytes()]);
    }
    // several things wrong at once: whichever is told, it is told every time
    for _ in 0..ctx.budget(1200, 30000) {
        let r = &mut ctx.rng;
        let mut lines: Vec<String> = Vec::new();
        let mut names = Vec::new();
        let mut wrong = false;
        let mut used: Vec<&str> = Vec::new();
        for i in 0..r.range(2, 9) {
            if r.chance(1, 3) {
                let (k, v) = (*r.pick(&known), *r.pick(&WRONG));
                if !used.contains(&k) && must_fail(k, v) == Some(true) {
                    used.push(k);
                    lines.push(format!("  {}: {}\n", k, v));
                    wrong = true;
                }
            } else {
                let n = format!("{}{}", r.pick(&["trim", "unknown", "x", "正規化", "neologdn_", "ligature"]), i + 10);
                lines.push(format!("  {}: {}\n", n, r.pick(&["", "a", "[a]", "{a: b}"])));
                names.push(n);
            }
        }
        if r.chance(1, 2) {
            lines.push("  dotted_space_eliminator:\n".into());
        }
        r.shuffle(&mut lines);
        if names.len() + used.len() < 2 {
            continue;
        }
        let t = format!("modifiers:\n{}{}", lines.concat(), r.pick(&["", "items: []\n", "items: [{from: a, to: b}]\n"]));
        let pl = ctx.place("yaml", t.as_bytes());
        let w = Want::Several(&names, wrong);
        judge(ctx, "several faults in one file", &pl.path, &[CONFIG, STAGES], &w)?;
        judge(ctx, "several faults in one file", &pl.path, &[CONFIG, STAGES], &w)?;
        ctx.key(&[t.as_bytes()]);
    }
    let mut i = 0;
    for k in known {
        for v in WRONG {
            i += 1;
            if must_fail(k, v) != Some(true) || !ctx.mine(i) {
                continue;
            }
            for n in 0..3 {
                let pre = if n == 0 { String::new() } else { lead(&mut ctx.rng) };
                if pre.contains(k) {
                    continue;
                }
                let t = format!("modifiers:\n{}  {}: {}\n", pre, k, v);
                let pl = ctx.place("yml", t.as_bytes());
                judge(ctx, "wrong parameters", &pl.path, &[CONFIG, STAGES], &Want::Parameter)?;
                ctx.key(&[t.as_bytes()]);
            }
        }
    }
    for (n, v) in ["1", "x", "[1]", "[{from: a}]", "[{to: a}]", "[{from: 1, to: a}]", "{a: 1}", "{a: [b, 2]}", "{1: a}", "[x]", "true", "{a: {b: c}}"].iter().enumerate() {
        if !ctx.mine(n) {
            continue;
        }
        let pl = ctx.place("yaml", format!("modifiers:\n  trim:\nitems: {}\n", v).as_bytes());
        let mut all: Vec<Loader> = TABLES[1].to_vec();
        all.push(CONFIG);
        judge(ctx, "malformed tables", &pl.path, &all, &Want::Parameter)?;
    }
    Ok(())
}

/// CHANOMARC and the documented files, in this process and in the program.
fn discovered(ctx: &mut Ctx) -> R {
    let bin = PathBuf::from(std::env::var_os("VMON_BIN").expect("VMON_BIN")).join("chanoma");
    let work = ctx.dir.join("rc");
    let (home, cwd) = (work.join("home"), work.join("cwd"));
    for k in 0..ctx.budget(400, 8000) {
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(home.join(".config/chanoma")).unwrap();
        std::fs::create_dir_all(&cwd).unwrap();
        let r = &mut ctx.rng;
        let y = r.below(2);
        let ext = if y == 1 { *r.pick(&["yaml", "yml"]) } else { "csv" };
        let broken: &[u8] = if y == 1 { r.pick(&[&b"items: [\n"[..], b"modifiers: {no_such: 1}\n", b"modifiers:\n  trim: 1\n", b"a: &x\n*y"]) } else { r.pick(&[&b"h,h\na,\xff\n"[..], b"h\nx,y\nx,\xe3\x81\n"]) };
        let mut rc = None;
        // the same file also loaded directly, to compare the errors
        let mut same_as = None;
        let mut stem = stem(r);
        stem.extend(format!(".{}", ext).into_bytes());
        match r.below(6) {
            0 => rc = Some(work.join(OsStr::from_bytes(&stem))),
            1 => {
                let p = work.join(OsStr::from_bytes(&stem));
                std::fs::create_dir_all(&p).unwrap();
                rc = Some(p);
            }
            2 => rc = Some(PathBuf::from(*r.pick(&["nowhere.csv", "", "x", "no/such.yml", "設定.yaml"]))),
            3 => {
                let p = work.join(OsStr::from_bytes(&stem));
                std::fs::write(&p, broken).unwrap();
                rc = Some(p.clone());
                same_as = Some(p);
            }
            _ => {
                let d = [home.join(".config/chanoma"), home.clone(), cwd.clone()][r.below(3)].clone();
                let p = d.join(format!("{}chanomarc.{}", r.pick(&["", "."]), ext));
                std::fs::write(&p, broken).unwrap();
                same_as = Some(p);
            }
        }
        std::env::set_var("HOME", &home);
        std::env::set_current_dir(&cwd).unwrap();
        match &rc {
            Some(v) => std::env::set_var("CHANOMARC", v),
            None => std::env::remove_var("CHANOMARC"),
        }
        let e = guard(|| Chanoma::load_rc().map(|_| ()));
        let direct = same_as.as_ref().map(|p| guard(|| Chanoma::from_config_file(p).map(|_| ())));
        std::env::remove_var("CHANOMARC");
        std::env::set_current_dir(&ctx.dir).unwrap();
        let desc = format!("CHANOMARC {:?}, broken file {:?}: {}", rc, same_as, show(&String::from_utf8_lossy(broken)));
        let mut msg = String::new();
        ctx.judge(&|| desc.clone(), || {
            let e = match e? {
                Ok(()) => return Err("loaded, although it must be refused".into()),
                Err(e) => e,
            };
            msg = e.to_string();
            let own = match e.downcast_ref::<Error>() {
                Some(x) => x,
                None => return Err(format!("the error is none of the library's: {:?}", e)),
            };
            match direct {
                Some(d) => match d? {
                    Ok(()) => Err("loaded when named, although it must be refused".into()),
                    Err(d) if d.to_string() == own.to_string() => Ok(()),
                    Err(d) => Err(format!("another error than when the file is named: {:?} and {:?}", own, d)),
                },
                None => told(own, &Want::Rc(rc.as_ref().unwrap())),
            }
        })?;
        ctx.event("configurations that are found and refused", 1);
        ctx.key(&[desc.as_bytes()]);
        if k % 3 == 0 {
            let mut c = Command::new(&bin);
            c.arg("ａ").env("HOME", &home).env_remove("CHANOMARC").current_dir(&cwd).stdin(Stdio::null());
            if let Some(v) = &rc {
                c.env("CHANOMARC", v);
            }
            let o = c.output().unwrap();
            ctx.judge(&|| format!("the program with {}", desc), || {
                let err = String::from_utf8_lossy(&o.stderr);
                // debug formatting escapes what is not printable
                let plain: String = msg.chars().take_while(|c| !c.is_control() && *c != '"' && *c != '\\').collect();
                if o.status.success() || !o.stdout.is_empty() || !err.contains(plain.trim()) {
                    return Err(format!("{:?}, standard output {:?}, standard error {} does not hold {}", o.status, String::from_utf8_lossy(&o.stdout), show(&err), show(&plain)));
                }
                Ok(())
            })?;
            ctx.event("runs of the program", 1);
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    Ok(())
}

fn c30(ctx: &mut Ctx) -> R {
    extensions(ctx)?;
    files(ctx)?;
    contents(ctx)?;
    stages(ctx)?;
    discovered(ctx)
}
