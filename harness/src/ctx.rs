//! What a shard process knows and records: judging single executions, catching panics, shrinking, counting.
use crate::rng::{fnv, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// A violation was recorded; the shard ends.
#[derive(Debug)]
pub struct Stop;
pub type R = Result<(), Stop>;

pub struct Ctx {
    pub prop: String,
    pub shard: usize,
    pub nshards: usize,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub dir: PathBuf,
    /// other threads rely on the working directory
    pub stay: bool,
    pub evals: u64,
    pub keys: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    sampled: u64,
    files: u64,
    journal: Option<std::fs::File>,
}

pub static SEQ: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("panicked at {}: {}", loc, clip(&msg, 400));
        }
    }));
}

pub fn last_panic() -> String {
    PANIC.lock().map(|p| p.clone()).unwrap_or_default()
}

/// Runs `f`; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let head: String = s.chars().take(n).collect();
        format!("{}...({} characters)", head, s.chars().count())
    }
}

pub fn show(s: &str) -> String {
    // every non-ASCII character also by number, so that look-alikes can be told apart
    let mut out = String::new();
    let n = s.chars().count();
    for (i, c) in s.chars().enumerate() {
        if i >= 300 {
            out.push_str(&format!("...({} characters, hash {:016x})", n, fnv(&[s.as_bytes()])));
            break;
        }
        if (' '..='~').contains(&c) && c != '\\' {
            out.push(c);
        } else if c.is_alphanumeric() {
            out.push_str(&format!("{}\\u{{{:x}}}", c, c as u32));
        } else {
            out.push_str(&format!("\\u{{{:x}}}", c as u32));
        }
    }
    format!("\"{}\"", out)
}

pub fn diff(what: &str, got: &str, want: &str) -> String {
    format!("{}\n    got      {}\n    expected {}", what, show(got), show(want))
}

impl Ctx {
    pub fn new(prop: &str, shard: usize, nshards: usize, seed: u64, thorough: bool, dir: &Path) -> Self {
        let rng = Rng::new(fnv(&[
            prop.as_bytes(),
            &seed.to_le_bytes(),
            &(shard as u64).to_le_bytes(),
            &[thorough as u8],
        ]));
        let journal = std::env::var_os("VMON_JOURNAL").map(|p| std::fs::File::create(p).unwrap());
        Ctx {
            prop: prop.to_string(),
            shard,
            nshards,
            seed,
            thorough,
            rng,
            dir: dir.to_path_buf(),
            stay: false,
            evals: 0,
            keys: HashSet::new(),
            events: BTreeMap::new(),
            samples: Vec::new(),
            sampled: 0,
            files: 0,
            journal,
        }
    }

    /// Quick checks that take little time do more.
    pub fn budget(&self, quick: usize, thorough: usize) -> usize {
        // total over all shards
        let n = if self.thorough { thorough } else { (quick * often(&self.prop)).min(thorough.max(quick)) };
        (n + self.nshards - 1) / self.nshards
    }

    /// true for the work items of this shard
    pub fn mine(&self, i: usize) -> bool {
        i % self.nshards == self.shard
    }

    pub fn event(&mut self, name: &str, n: u64) {
        *self.events.entry(name.to_string()).or_insert(0) += n;
    }

    pub fn key(&mut self, parts: &[&[u8]]) {
        if self.keys.len() < 3_000_000 {
            self.keys.insert(fnv(parts));
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sampled += 1;
        let n = self.sampled;
        if self.samples.len() < 6 && n.is_power_of_two() && (n > 3 || self.samples.is_empty()) {
            self.samples.push(clip(&f(), 600));
        }
    }

    /// A path in the scratch directory that nothing else uses at the time; the same names come back with other contents.
    pub fn path(&mut self, ext: &str) -> PathBuf {
        self.files += 1;
        let mut k = self.files % 4;
        loop {
            let p = self.dir.join(format!("f{}.{}", k, ext));
            if p.symlink_metadata().is_err() {
                return p;
            }
            k += 4;
        }
    }

    /// A file with this content at one of many kinds of place. It goes away with the value.
    pub fn place(&mut self, ext: &str, content: &[u8]) -> Place {
        self.files += 1;
        let n = self.files;
        let dir = self.dir.clone();
        let old = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
        let mut remove = Vec::new();
        let (path, kind) = match self.rng.below(20) {
            // rewritten in place, without a later time
            0..=3 => (dir.join(format!("same.{}", ext)), "file rewritten in place"),
            4 => {
                let names: &[&str] = &["a b", "表", "x.tar", "x.", "-x", "a\nb", "..x", "x.yaml", "x.csv", "100%", "~", "$HOME", "*", "#", "😀", "a:b", "\\", "Ａ", "か\u{3099}", "\u{304c}", "x.CSV", "...", " ", "\"q\""];
                (dir.join(format!("{}.{}", self.rng.pick(names), ext)), "unusual names")
            }
            5 => {
                use std::os::unix::ffi::OsStringExt;
                let mut b = b"n\xff\xfe.".to_vec();
                b.extend(ext.as_bytes());
                (dir.join(std::ffi::OsString::from_vec(b)), "unusual names")
            }
            6 if !self.stay => {
                let sub = dir.join("cwd");
                std::fs::create_dir_all(&sub).unwrap();
                std::env::set_current_dir(&sub).unwrap();
                let name = format!("r{}.{}", n % 3, ext);
                let (real, p) = match self.rng.below(3) {
                    0 => (sub.join(&name), PathBuf::from(&name)),
                    1 => (sub.join(&name), Path::new(".").join(&name)),
                    _ => (dir.join(&name), Path::new("..").join(&name)),
                };
                std::fs::write(&real, content).unwrap();
                remove.push(real);
                (p, "relative paths")
            }
            7 => {
                let t = dir.join(["target.txt", "target", "target.yaml", "target.csv", "target.json"][self.rng.below(5)]);
                let l = dir.join(format!("link{}.{}", n % 2, ext));
                std::fs::write(&t, content).unwrap();
                if self.rng.chance(1, 2) {
                    std::os::unix::fs::symlink(&t, &l).unwrap();
                } else {
                    std::fs::hard_link(&t, &l).unwrap();
                }
                remove.extend([l.clone(), t]);
                (l, "links to files with other extensions")
            }
            8 => {
                let mut d = dir.clone();
                for i in 0..self.rng.range(1, 12) {
                    d.push(["sub", "deep.yaml", "x.csv", "設定", ".hidden"][(i + n as usize) % 5]);
                }
                std::fs::create_dir_all(&d).unwrap();
                (d.join(format!("f.{}", ext)), "deep directories")
            }
            9 => {
                let name = format!("{}.{}", "n".repeat(250 - ext.len()), ext);
                (dir.join("..").join(dir.file_name().unwrap()).join(".").join(name), "long names")
            }
            _ => (self.path(ext), "fresh files"),
        };
        if remove.is_empty() {
            std::fs::write(&path, content).unwrap();
            if kind == "file rewritten in place" {
                let _ = std::fs::File::options().write(true).open(&path).and_then(|f| f.set_modified(old));
            } else {
                remove.push(path.clone());
            }
        }
        self.event(kind, 1);
        Place { path, remove }
    }

    fn journal(&mut self, desc: &dyn Fn() -> String) {
        if let Some(j) = &mut self.journal {
            let _ = j.set_len(0);
            let _ = j.rewind();
            let _ = j.write_all(desc().as_bytes());
            let _ = j.flush();
        }
    }

    pub fn violation(&mut self, text: &str) -> Stop {
        let body = format!(
            "property {}\nseed {} shard {}/{} tier {}\nrepeat: VERIF_SEED={} vmon shard {} {} {} {} <scratch>\n\n{}\n",
            self.prop,
            self.seed,
            self.shard,
            self.nshards,
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            self.prop,
            self.shard,
            self.nshards,
            if self.thorough { "thorough" } else { "quick" },
            text
        );
        std::fs::write(self.dir.join("violation.txt"), body).unwrap();
        Stop
    }

    /// A failure that may be a finding recorded in known_findings.txt under this key; otherwise it is a violation.
    pub fn known(&mut self, key: &str, text: &str) -> R {
        let verif = std::env::var_os("VMON_VERIF").unwrap_or_else(|| "/verif".into());
        let file = std::fs::read_to_string(Path::new(&verif).join("known_findings.txt")).unwrap_or_default();
        let start = format!("open: property={} key={} ", self.prop, key);
        match file.lines().find_map(|l| l.strip_prefix(&start)) {
            Some(what) => {
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(self.dir.join("known.txt")).unwrap();
                writeln!(f, "{}", what.trim()).unwrap();
                Ok(())
            }
            None => Err(self.violation(text)),
        }
    }

    /// Judges one execution. `f` returns an error text if the property is violated.
    pub fn judge(&mut self, desc: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> R {
        SEQ.fetch_add(1, Relaxed);
        self.evals += 1;
        self.journal(desc);
        let r = guard(f);
        SEQ.fetch_add(1, Relaxed);
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(self.violation(&format!("{}\n\n{}", desc(), e))),
            Err(p) => Err(self.violation(&format!("{}\n\n{}", desc(), p))),
        }
    }

    /// Judges one text. The oracle returns whether the case was non-trivial, or what is wrong.
    /// A failing text is shrunk.
    pub fn text(&mut self, cfg_hash: u64, cfg: &dyn Fn() -> String, text: &str, oracle: &dyn Fn(&str) -> Result<bool, String>) -> R {
        SEQ.fetch_add(1, Relaxed);
        self.evals += 1;
        self.journal(&|| format!("{}\ntext {}", cfg(), show(text)));
        let r = guard(|| oracle(text));
        SEQ.fetch_add(1, Relaxed);
        let err = match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial {
                    self.key(&[&cfg_hash.to_le_bytes(), text.as_bytes()]);
                    self.sample(|| format!("{} | text {}", clip(&cfg(), 300), clip(&show(text), 200)));
                }
                return Ok(());
            }
            Ok(Err(e)) => e,
            Err(p) => p,
        };
        let (small, e2) = shrink(text, oracle, err);
        let t = format!(
            "{}\n\ntext ({} characters, shrunk from {}): {}\nhex: {}\n\n{}",
            cfg(),
            small.chars().count(),
            text.chars().count(),
            show(&small),
            hex(small.as_bytes()),
            e2
        );
        Err(self.violation(&t))
    }
}

pub struct Place {
    pub path: PathBuf,
    remove: Vec<PathBuf>,
}

impl Drop for Place {
    fn drop(&mut self) {
        for p in &self.remove {
            let _ = std::fs::remove_file(p);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(4096) {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn shrink(text: &str, oracle: &dyn Fn(&str) -> Result<bool, String>, err: String) -> (String, String) {
    let mut cur: Vec<char> = text.chars().collect();
    let mut err = err;
    let mut tries = 0;
    let started = std::time::Instant::now();
    let mut size = (cur.len() / 2).max(1);
    'outer: loop {
        let mut i = 0;
        let mut removed = false;
        while i < cur.len() {
            tries += 1;
            SEQ.fetch_add(1, Relaxed);
            if tries > 5000 || started.elapsed().as_secs() > 20 {
                break 'outer;
            }
            let end = (i + size).min(cur.len());
            let cand: String = cur[..i].iter().chain(cur[end..].iter()).collect();
            let r = guard(|| oracle(&cand));
            let e = match r {
                Ok(Ok(_)) => None,
                Ok(Err(e)) => Some(e),
                Err(p) => Some(p),
            };
            if let Some(e) = e {
                cur = cand.chars().collect();
                err = e;
                removed = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !removed {
            break;
        }
        if !removed || size > 1 {
            size = (size / 2).max(1);
        }
    }
    (cur.into_iter().collect(), err)
}

fn often(id: &str) -> usize {
    match id {
        "C30" | "C31" => 6,
        "C11" | "C33" => 5,
        "C16" | "C17" | "C18" => 4,
        "C07" | "C08" | "C09" | "C12" | "C15" | "C27" => 3,
        "C02" | "C03" | "C06" | "C10" | "C19" => 2,
        _ => 1,
    }
}
