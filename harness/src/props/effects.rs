//! Side effects: C28. The library is used in processes of their own, which look at their surroundings before and after.
use super::rc::{self, Layout};
use super::Prop;
use crate::cfg;
use crate::ctx::{clip, guard, install_panic_hook, show, Ctx, R};
use crate::gen;
use crate::rng::{fnv, Rng};
use chanoma::{file, Chanoma, Correspondence, Item, Synthesized, Table, TableBuilder};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static PROPS: &[Prop] = &[Prop {
    id: "C28",
    level: "exploration",
    rule: "directory layouts as for C20, working and broken; loading by every function (also of missing, broken and unsupported files), building, exporting, normalising and tracing, in processes that compare before and after: every file and directory below the home, working and temporary directories (content, times, permissions), environment, working directory, open descriptors, threads, child processes, signal and permission settings, log level; standard input unread, standard output and error empty; runs of both programs likewise; non-trivial: distinct case that loaded something",
    assumptions: &["files outside the layout and the temporary directory are not looked at"],
    shards: 0,
    min_nontrivial: Some(300),
    run: c28,
}];

/// What could be changed by mistake.
fn files(root: &Path, out: &mut BTreeMap<PathBuf, String>) {
    let m = match root.symlink_metadata() {
        Ok(m) => m,
        Err(_) => return,
    };
    let mut s = format!("mode {:o} owner {} inode {} modified {}.{} links {}", m.mode(), m.uid(), m.ino(), m.mtime(), m.mtime_nsec(), m.nlink());
    if m.is_file() {
        let b = fs::read(root).unwrap_or_default();
        s.push_str(&format!(" size {} content {:016x}", b.len(), fnv(&[&b])));
    } else if m.file_type().is_symlink() {
        s.push_str(&format!(" to {:?}", fs::read_link(root).ok()));
    }
    out.insert(root.to_path_buf(), s);
    if m.is_dir() {
        if let Ok(d) = fs::read_dir(root) {
            for e in d.flatten() {
                files(&e.path(), out);
            }
        }
    }
}

/// Gives everything an old time, so that any later change shows.
fn age(root: &Path) {
    if let Ok(m) = root.symlink_metadata() {
        if m.is_dir() {
            if let Ok(d) = fs::read_dir(root) {
                for e in d.flatten() {
                    age(&e.path());
                }
            }
        }
        if !m.file_type().is_symlink() {
            let _ = fs::File::open(root).and_then(|f| f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)));
        }
    }
}

fn process(out: &mut BTreeMap<PathBuf, String>) {
    for (k, v) in std::env::vars_os() {
        out.insert(PathBuf::from(format!("environment variable {:?}", k)), format!("{:?}", v));
    }
    out.insert("current directory".into(), format!("{:?}", std::env::current_dir().ok()));
    let mut fds: Vec<(i32, String)> = fs::read_dir("/proc/self/fd")
        .map(|d| {
            d.flatten()
                .map(|e| (e.file_name().to_string_lossy().parse().unwrap_or(-1), fs::read_link(e.path()).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()))
                .filter(|(_, p)| !(p.starts_with("/proc/") && p.ends_with("/fd")))
                .collect()
        })
        .unwrap_or_default();
    fds.sort();
    out.insert("open descriptors".into(), format!("{:?}", fds));
    let st = fs::read_to_string("/proc/self/status").unwrap_or_default();
    for l in st.lines() {
        if ["Threads:", "Umask:", "SigBlk:", "SigIgn:", "SigCgt:", "Uid:", "Gid:"].iter().any(|k| l.starts_with(k)) {
            let (k, v) = l.split_once(':').unwrap();
            out.insert(PathBuf::from(format!("process {}", k)), v.trim().to_string());
        }
    }
    let mut kids = String::new();
    if let Ok(d) = fs::read_dir("/proc/self/task") {
        for t in d.flatten() {
            kids.push_str(&fs::read_to_string(t.path().join("children")).unwrap_or_default());
        }
    }
    out.insert("child processes".into(), kids);
    out.insert("limits".into(), fs::read_to_string("/proc/self/limits").unwrap_or_default());
    out.insert("log level".into(), format!("{:?}", log::max_level()));
}

fn compare(what: &str, a: &BTreeMap<PathBuf, String>, b: &BTreeMap<PathBuf, String>) -> Result<(), String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Err(format!("{}: {:?} is gone", what, k)),
            Some(w) if w != v => return Err(format!("{}: {:?} changed\n    before {}\n    after  {}", what, k, v, w)),
            _ => {}
        }
    }
    match b.iter().find(|(k, _)| !a.contains_key(*k)) {
        Some((k, v)) => Err(format!("{}: {:?} is new ({})", what, k, v)),
        None => Ok(()),
    }
}

fn snapshot(dirs: &[&Path]) -> BTreeMap<PathBuf, String> {
    let mut m = BTreeMap::new();
    process(&mut m);
    for d in dirs {
        files(d, &mut m);
    }
    m
}

fn corr(v: &[(char, char)]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(v.iter().map(|(a, b)| Item::new(a.to_string(), b.to_string())).collect()))
}

/// Uses the library in many ways; what comes out does not matter here. Returns how often something was loaded.
fn use_all(r: &mut Rng, l: &Layout, extra: &[PathBuf], texts: &[String]) -> u64 {
    let mut loaded = 0;
    let mut pipes: Vec<Chanoma> = Vec::new();
    if let Ok(c) = Chanoma::load_rc() {
        loaded += 1;
        pipes.push(c);
    }
    let mut paths: Vec<PathBuf> = extra.to_vec();
    for d in [l.home.join(".config/chanoma"), l.home.clone(), l.cwd.clone()] {
        for n in rc::NAMES {
            for e in rc::EXTS {
                paths.push(d.join(format!("{}.{}", n, e)));
            }
        }
    }
    r.shuffle(&mut paths);
    let mut builder = TableBuilder::new();
    let mut tables: Vec<Table> = Vec::new();
    for p in paths.iter().take(8) {
        if let Ok(c) = Chanoma::from_config_file(p) {
            loaded += 1;
            pipes.push(c);
        }
        for t in [file::table_from_csv_path(p), file::table_from_yaml_path(p)] {
            if let Ok(t) = t {
                loaded += 1;
                tables.push(t);
            }
        }
        for b in [TableBuilder::from_csv_path(p), TableBuilder::from_yaml_path(p)] {
            if let Ok(b) = b {
                tables.push(b.build());
            }
        }
        let _ = file::modifiers_from_yaml_path(p).map(|m| m.len());
        let _ = builder.add_from_csv(p).map(|_| ());
        let _ = builder.add_from_yaml(p).map(|_| ());
    }
    builder.preset();
    let c = corr(&cfg::pairs(r, 30));
    builder.add_corr(&c);
    if r.chance(1, 12) {
        // more entries than any other table here
        let n = *r.pick(&[300, 1100, 3000, 9000]);
        let big: Vec<(char, char)> = (0..n).map(|i| (char::from_u32(0x4e00 + i).unwrap(), char::from_u32(0x20000 + i).unwrap())).collect();
        builder.add_corr(&corr(&big));
    }
    let mut t = builder.build();
    t.remove(&corr(&cfg::pairs(r, 5)));
    tables.push(t);
    for t in tables {
        let _ = t.items();
        let _ = file::to_csv_writer(&t.corr(), Vec::new()).into_inner();
        let _ = serde_yaml::to_string(&file::to_serialized_corr(&t.corr()));
        let mut p = if r.chance(1, 2) { Chanoma::from_table(t) } else { Chanoma::new() };
        if r.chance(1, 3) {
            p.use_preset();
        }
        if r.chance(1, 3) {
            p.use_neologdn();
        }
        pipes.push(p);
    }
    for p in &pipes {
        for t in texts {
            let _ = p.normalize(t);
            let _ = p.normalize_with_positions(t).modified_records().len();
        }
    }
    loaded
}

fn text_of(r: &mut Rng, l: &Layout) -> String {
    let mut f = l.focus.clone();
    f.extend(['Ａ', 'ｱ', 'ー', '~', 'か', '゛', ' ']);
    if r.chance(1, 40) {
        gen::big(r, &f, 70_000)
    } else {
        gen::text(r, &f)
    }
}

/// The body of the process: `vmon effects <seed> <cases> <dir>`; what was observed is written to `<dir>/report`.
pub fn main(a: &[String]) -> i32 {
    install_panic_hook();
    let seed: u64 = a[0].parse().unwrap();
    let n: usize = a[1].parse().unwrap();
    let dir = PathBuf::from(&a[2]);
    let work = dir.join("work");
    let tmp = dir.join("tmp");
    fs::create_dir_all(&work).unwrap();
    fs::create_dir_all(&tmp).unwrap();
    for v in ["TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR", "XDG_STATE_HOME"] {
        std::env::set_var(v, &tmp);
    }
    let mut report = String::new();
    let mut ctx = Ctx::new("C28", 0, 1, seed, false, &work);
    if seed % 2 == 0 {
        log::set_max_level(log::LevelFilter::Trace);
    }
    let mut violation = None;
    for k in 0..n + 1 {
        let l = rc::layout(&mut ctx, false);
        let mut extra: Vec<PathBuf> = Vec::new();
        let root = l.home.parent().unwrap().to_path_buf();
        for (n, t) in [("x.csv", "h,h\na,b\n"), ("x.yaml", "items: {b: a}\nmodifiers:\n  trim:\n"), ("y.yml", "items: [\n"), ("y.csv", "h\n\"a\n\u{1},b\n"), ("z.json", "{}"), ("z", "a")] {
            fs::write(root.join(n), t).unwrap();
            extra.push(root.join(n));
        }
        fs::write(root.join("bad.csv"), b"h,h\na,b\n\xff\xfe,c\n").unwrap();
        extra.extend([root.join("bad.csv"), root.join("missing.yaml"), root.join("nodir/missing.csv"), root.clone(), PathBuf::from("relative.csv"), PathBuf::from("./x.yaml")]);
        let texts: Vec<String> = (0..4).map(|_| text_of(&mut ctx.rng, &l)).collect();
        rc::enter(&l);
        age(&work);
        age(&tmp);
        let before = snapshot(&[&work, &tmp]);
        let r = guard(|| use_all(&mut ctx.rng, &l, &extra, &texts));
        let after = snapshot(&[&work, &tmp]);
        rc::leave(&ctx);
        // the first case may set up what the process keeps
        let v = match r {
            Err(p) => Some(p),
            Ok(loaded) => {
                if loaded > 0 && k > 0 {
                    report.push_str(&format!("key {}\n", fnv(&[l.desc.replace(&*dir.to_string_lossy(), "").as_bytes()])));
                }
                if k > 0 {
                    report.push_str(&format!("event {} files loaded by some function\nevent {} surroundings compared (files, variables, settings)\n", loaded, before.len()));
                }
                compare("after loading, exporting and normalising", &before, &after).err()
            }
        };
        if let Some(v) = v {
            violation = Some(format!("{}texts {}\n\n{}", l.desc, texts.iter().map(|t| show(t)).collect::<Vec<_>>().join(", "), v));
            break;
        }
        l.cleanup();
    }
    if violation.is_none() {
        let mut s = String::new();
        let _ = std::io::stdin().read_to_string(&mut s);
        if s != "unread\nlines\n" {
            violation = Some(format!("standard input was read: {:?} is left", s));
        }
    }
    fs::write(dir.join("report"), report).unwrap();
    if let Some(v) = violation {
        fs::write(dir.join("violation"), v).unwrap();
        return 1;
    }
    0
}

fn c28(ctx: &mut Ctx) -> R {
    let exe = std::env::current_exe().unwrap();
    let runs = ctx.budget(64, 1200);
    for _ in 0..runs {
        let seed = ctx.rng.below(1 << 40) as u64;
        let dir = ctx.path("fx");
        fs::create_dir_all(&dir).unwrap();
        let cases = 12;
        let mut ch = Command::new(&exe)
            .args(["effects", &seed.to_string(), &cases.to_string()])
            .arg(&dir)
            .stdin(Stdio::piped())
            .stdout(fs::File::create(dir.join("stdout")).unwrap())
            .stderr(fs::File::create(dir.join("stderr")).unwrap())
            .spawn()
            .unwrap();
        let _ = ch.stdin.take().unwrap().write_all(b"unread\nlines\n");
        let st = ch.wait().unwrap();
        let read = |n: &str| fs::read(dir.join(n)).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        for l in read("report").lines() {
            if let Some(x) = l.strip_prefix("key ") {
                ctx.key(&[x.as_bytes()]);
            } else if let Some((n, k)) = l.strip_prefix("event ").and_then(|x| x.split_once(' ')) {
                ctx.event(k, n.parse().unwrap_or(0));
            }
        }
        ctx.evals += cases as u64 - 1;
        let (v, out, err) = (read("violation"), read("stdout"), read("stderr"));
        ctx.judge(&|| format!("process {}", seed), || {
            if !v.is_empty() {
                return Err(v.clone());
            }
            if !out.is_empty() || !err.is_empty() {
                return Err(format!("printed by the library:\n    standard output {}\n    standard error {}", show(&out), show(&err)));
            }
            if st.code() != Some(0) {
                return Err(format!("the process ended with {:?}", st));
            }
            Ok(())
        })?;
        ctx.sample(|| format!("process {}: {}", seed, clip(&read("report").replace('\n', " "), 300)));
        let _ = fs::remove_dir_all(&dir);
    }
    // the programs
    let bin = PathBuf::from(std::env::var_os("VMON_BIN").expect("VMON_BIN"));
    for k in 0..ctx.budget(320, 6000) {
        let l = rc::layout(ctx, false);
        let root = l.home.parent().unwrap().to_path_buf();
        let tmp = root.join("tmp");
        fs::create_dir_all(&tmp).unwrap();
        let t = text_of(&mut ctx.rng, &l).replace('\0', "");
        let debug = k % 4 == 1;
        let dump = k % 16 == 2;
        let mut c = Command::new(bin.join(if dump { "output" } else { "chanoma" }));
        let mut by_stdin = false;
        if dump {
            c.args(if ctx.rng.chance(1, 2) { vec![] } else { vec!["-f", "yaml"] });
        } else {
            for o in ["-p", "-n"] {
                if ctx.rng.chance(1, 2) {
                    c.arg(o);
                }
            }
            if debug {
                c.arg("-d");
            }
            by_stdin = ctx.rng.chance(1, 2) || t.len() > 100_000;
            if !by_stdin {
                c.arg("--").arg(&t);
            }
        }
        c.env("HOME", &l.home).env_remove("CHANOMARC").env_remove("RUST_LOG").current_dir(&l.cwd);
        for v in ["TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR", "XDG_STATE_HOME"] {
            c.env(v, &tmp);
        }
        if let Some(v) = &l.rc {
            c.env("CHANOMARC", v);
        }
        let mut before = BTreeMap::new();
        age(&root);
        files(&root, &mut before);
        let stdin = if by_stdin { t.clone().into_bytes() } else { Vec::new() };
        let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
        let mut si = ch.stdin.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&stdin);
        });
        let o = ch.wait_with_output().unwrap();
        let _ = w.join();
        let mut after = BTreeMap::new();
        files(&root, &mut after);
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        ctx.judge(&|| format!("{}{:?}", l.desc, c), || {
            compare("after the program has ended", &before, &after)?;
            if o.status.success() && !debug && !err.is_empty() {
                return Err(format!("standard error of a successful run without the debug option: {}", show(&err)));
            }
            Ok(())
        })?;
        ctx.event(if o.status.success() { "successful runs of the programs" } else { "failing runs of the programs" }, 1);
        l.cleanup();
    }
    Ok(())
}
