//! Discovery of configuration files and the command: C20, C21.
use super::Prop;
use crate::cfg::{self, FileCfg, Stage};
use crate::ctx::{clip, guard, show, Ctx, R};
use crate::gen;
use crate::model::Models;
use crate::rng::{fnv, Rng};
use chanoma::Chanoma;
use std::collections::HashMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C20",
        level: "exploration",
        rule: "directory layouts: any subset of the 18 documented files (regular, linked, directories in their place, dangling links, broken contents) with decoys around; every file holds stages and entries, and for every pair of files a marker that tells which was applied first; with and without CHANOMARC of many kinds, with misleading other variables; layouts changed and loaded again in the same process; result compared with the composition of reference models over the files that should be used; non-trivial: distinct layout with at least one file or with CHANOMARC",
        assumptions: &["HOME is set", "conflicting texts outside the specification (HOME equal to the current directory) only with contents for which applying a file twice does not matter"],
        shards: 0,
        min_nontrivial: Some(3000),
        run: c20,
    },
    Prop {
        id: "C21",
        level: "exploration",
        rule: "runs of the chanoma program: all combinations and spellings of its options, text as an argument or on standard input (several lines, no newline, empty, large; pipes fed in pieces, files, terminals), layouts of configuration files as in C20, working and broken, RUST_LOG set or not; standard output compared byte by byte with the composition of reference models; non-trivial: distinct run whose output differs from the text",
        assumptions: &["texts are UTF-8; without carriage return at the end of the first line of standard input"],
        shards: 0,
        min_nontrivial: Some(1000),
        run: c21,
    },
];

pub const NAMES: [&str; 2] = ["chanomarc", ".chanomarc"];
pub const EXTS: [&str; 3] = ["csv", "yaml", "yml"];

fn pua(base: u32, i: usize, j: usize) -> char {
    char::from_u32(base + (i * 18 + j) as u32).unwrap()
}

/// Entries that tell the order of this file among the others.
fn markers(k: usize) -> Vec<(char, char)> {
    let mut v = Vec::new();
    for j in 0..18 {
        if j > k {
            v.push((pua(0xf0000, k, j), pua(0xf1000, k, j)));
        }
        if j < k {
            v.push((pua(0xf0000, j, k), pua(0xf2000, j, k)));
        }
    }
    v
}

pub fn marker_text() -> String {
    let mut s = String::new();
    for i in 0..18 {
        for j in i + 1..18 {
            s.push(pua(0xf0000, i, j));
        }
    }
    s
}

pub struct Layout {
    pub home: PathBuf,
    pub cwd: PathBuf,
    /// what the files mean that are to be used, in order
    pub used: Vec<FileCfg>,
    /// a used file cannot be loaded
    pub broken: bool,
    pub rc: Option<OsString>,
    pub desc: String,
    pub focus: Vec<char>,
    /// the documented files that exist
    found: HashMap<PathBuf, Option<FileCfg>>,
    /// variables that must not matter
    pub env: Vec<(&'static str, OsString)>,
}

impl Layout {
    /// The documented files in order of use.
    fn candidates(&self) -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = Vec::new();
        for d in [self.home.join(".config/chanoma"), self.home.clone(), self.cwd.clone()] {
            for n in NAMES {
                for e in EXTS {
                    v.push(d.join(format!("{}.{}", n, e)));
                }
            }
        }
        if self.home == self.cwd {
            v.truncate(12);
        }
        v
    }
    /// What changes between two times of loading. False if nothing did.
    fn change(&mut self, r: &mut Rng) -> bool {
        if let Some(v) = self.rc.clone() {
            // the value may have been the name of such a file, too
            if r.chance(1, 2) || self.candidates().iter().any(|p| p.is_file() && !self.found.contains_key(p)) {
                return false;
            }
            self.desc.push_str(&format!("then CHANOMARC {:?} is unset\n", v));
            self.rc = None;
        } else {
            let same = self.home == self.cwd;
            let all = self.candidates();
            let at = r.below(all.len());
            let p = all[at].clone();
            let ext = p.extension().unwrap().to_string_lossy().into_owned();
            let there = self.found.contains_key(&p);
            if !there && p.symlink_metadata().is_ok() {
                return false;
            }
            match r.below(6) {
                0 | 1 if there => {
                    std::fs::remove_file(&p).unwrap();
                    self.found.remove(&p);
                    self.desc.push_str(&format!("then {:?} is removed\n", p));
                }
                2 if r.chance(1, 3) => {
                    if std::fs::create_dir_all(p.parent().unwrap()).is_err() {
                        return false;
                    }
                    std::fs::write(&p, broken(r, &ext)).unwrap();
                    self.found.insert(p.clone(), None);
                    self.desc.push_str(&format!("then {:?} is broken\n", p));
                }
                3 if there && !same => {
                    // another file in its place
                    let q = self.home.parent().unwrap().join("store/moved");
                    let _ = std::fs::rename(&p, &q);
                    let _ = std::fs::rename(&q, &p);
                    return false;
                }
                _ => {
                    let mut f = if ext == "csv" || same { FileCfg { stages: vec![], items: vec![] } } else { cfg::file_cfg(r, 3) };
                    f.items.retain(|x| !(0xf0000..0xf3000).contains(&(x.0 as u32)));
                    if !same {
                        let have: Vec<char> = f.items.iter().map(|x| x.0).collect();
                        f.items.extend(cfg::pairs(r, 6).into_iter().filter(|x| !have.contains(&x.0) && !(0xf0000..0xf3000).contains(&(x.0 as u32))));
                    }
                    f.items.extend(markers(at));
                    let content = if ext == "csv" { cfg::csv_of(&f.items) } else { f.yaml() };
                    if std::fs::create_dir_all(p.parent().unwrap()).is_err() {
                        return false;
                    }
                    std::fs::write(&p, &content).unwrap();
                    self.desc.push_str(&format!("then {:?} is written:\n{}\n", p, clip(&content, 400)));
                    self.found.insert(p, Some(f));
                }
            }
        }
        let files: Vec<Option<FileCfg>> = self.candidates().iter().filter_map(|p| self.found.get(p).cloned()).collect();
        self.broken = files.iter().any(|f| f.is_none());
        self.used = files.into_iter().flatten().collect();
        true
    }
    pub fn apply(&self, m: &Models, t: &str) -> String {
        let mut t = t.to_string();
        for f in &self.used {
            t = f.apply(m, &t);
        }
        t
    }
    pub fn cleanup(&self) {
        let _ = std::fs::remove_dir_all(self.home.parent().unwrap());
    }
}

fn dirname(r: &mut Rng, plain: bool) -> OsString {
    let mut b: Vec<u8> = r.pick(&[&b"d"[..], b"a b", "設定".as_bytes(), b"x.yaml", b"-p", b"'q'", b"$HOME", b"dir.d"]).to_vec();
    if !plain && r.chance(1, 10) {
        b.extend(b"\xff\xfe");
    }
    OsString::from_vec(b)
}

const BROKEN_YAML: [&str; 6] = ["items: [\n", "items: 5\n", "modifiers:\n  nosuchstage:\n", "modifiers:\n  trim: 3\n", "items:\n  - {from: a}\n", "a: b: c\n"];

fn broken(r: &mut Rng, ext: &str) -> Vec<u8> {
    if ext == "csv" {
        b"h,h\nb,c\n\xff\xfe,x\n".to_vec()
    } else if r.chance(1, 5) {
        b"items: \"\xff\"\n".to_vec()
    } else if r.chance(1, 5) {
        // without any document
        r.pick(&["", "\n", "# nothing\n", " \n \n"]).as_bytes().to_vec()
    } else {
        r.pick(&BROKEN_YAML).as_bytes().to_vec()
    }
}

/// `utf8`: names that can be passed to Python; `simple`: contents for which applying a file twice does not matter.
pub fn layout(ctx: &mut Ctx, utf8: bool) -> Layout {
    let root = ctx.path("d");
    let r = &mut ctx.rng;
    let same = r.chance(1, 20);
    let mut n1 = dirname(r, utf8);
    n1.push("h");
    let mut n2 = dirname(r, utf8);
    n2.push("c");
    let home = root.join(n1);
    let cwd = if same { home.clone() } else if r.chance(1, 8) { home.join("sub").join(n2) } else { root.join(n2) };
    let conf = home.join(".config/chanoma");
    std::fs::create_dir_all(&home).unwrap();
    std::fs::create_dir_all(&cwd).unwrap();
    let store = root.join("store");
    std::fs::create_dir_all(&store).unwrap();
    if r.chance(9, 10) {
        std::fs::create_dir_all(&conf).unwrap();
    }
    let dirs = [conf.clone(), home.clone(), cwd.clone()];
    let density = *r.pick(&[0, 1, 1, 2, 3, 5, 8, 10]);
    let breaking = r.chance(1, 8);
    let mut used: Vec<FileCfg> = Vec::new();
    let mut any_broken = false;
    let mut desc = format!("HOME {:?}\ncurrent directory {:?}\n", home, cwd);
    let mut paths: Vec<(PathBuf, Option<FileCfg>)> = Vec::new();
    let mut slot = 0;
    for (di, d) in dirs.iter().enumerate() {
        for n in NAMES {
            for e in EXTS {
                let k = slot;
                slot += 1;
                if same && di == 2 {
                    // the same files again
                    continue;
                }
                if !r.chance(density, 10) {
                    continue;
                }
                let p = d.join(format!("{}.{}", n, e));
                let kind = r.below(14);
                match kind {
                    0 => {
                        let _ = std::fs::create_dir_all(&p);
                        desc.push_str(&format!("directory {:?}\n", p));
                        continue;
                    }
                    1 => {
                        if d.exists() {
                            let _ = std::os::unix::fs::symlink(store.join("gone"), &p);
                            desc.push_str(&format!("dangling link {:?}\n", p));
                        }
                        continue;
                    }
                    _ => {}
                }
                std::fs::create_dir_all(d).unwrap();
                let mut f = if e == "csv" || same || r.chance(1, 3) { FileCfg { stages: vec![], items: vec![] } } else { cfg::file_cfg(r, 5) };
                if !same {
                    let have: Vec<char> = f.items.iter().map(|x| x.0).collect();
                    f.items.extend(cfg::pairs(r, 20).into_iter().filter(|x| !have.contains(&x.0)));
                }
                // what follows the markers in the file decides nothing about them
                f.items.retain(|x| !(0xf0000..0xf3000).contains(&(x.0 as u32)));
                f.items.extend(markers(k));
                let bad = breaking && r.chance(1, 3);
                let content: Vec<u8> = if bad {
                    broken(r, e)
                } else if e == "csv" {
                    cfg::csv_of(&f.items).into_bytes()
                } else {
                    f.yaml().into_bytes()
                };
                let target = if kind < 4 {
                    let t = store.join(format!("f{}.txt", k));
                    std::os::unix::fs::symlink(&t, &p).unwrap();
                    t
                } else {
                    p.clone()
                };
                std::fs::write(&target, &content).unwrap();
                desc.push_str(&format!("file {:?}{}{}:\n{}\n", p, if kind < 4 { " (link)" } else { "" }, if bad { " (broken)" } else { "" }, clip(&String::from_utf8_lossy(&content), 400)));
                any_broken |= bad;
                paths.push((p, if bad { None } else { Some(f.clone()) }));
                used.push(f);
            }
        }
    }
    // decoys
    for d in [root.clone(), home.join(".config"), conf.join("sub"), store.clone(), cwd.join("sub")] {
        if r.chance(1, 3) {
            let _ = std::fs::create_dir_all(&d);
            for n in ["chanomarc.yaml", ".chanomarc.csv"] {
                if d.join(n).exists() {
                    continue;
                }
                let _ = std::fs::write(d.join(n), "items: [\n");
            }
        }
    }
    for d in &dirs {
        if r.chance(1, 3) && d.exists() {
            for n in ["chanomarc", ".chanomarc", "chanomarc.json", "chanomarc.yaml.bak", "chanomarc.YAML", "Chanomarc.yaml", "chanomarcs.csv", "_chanomarc.yml", ".chanomarc.yaml~", "chanoma.yaml", "chanomarc.csv.txt", "..chanomarc.csv"] {
                let _ = std::fs::write(d.join(n), "items: [\n");
            }
        }
    }
    // CHANOMARC
    let mut rc = None;
    if r.chance(2, 5) {
        let mut f = cfg::file_cfg(r, 4);
        f.items.retain(|x| !(0xf0000..0xf3000).contains(&(x.0 as u32)));
        f.items.extend(markers(r.below(18)));
        let mut name = dirname(r, utf8);
        let e = *r.pick(&EXTS);
        name.push(".");
        name.push(e);
        let csv = e == "csv";
        if csv {
            f.stages.clear();
        }
        let mut content = if csv { cfg::csv_of(&f.items) } else { f.yaml() };
        let mut good = Some(f);
        let v: OsString = match r.below(12) {
            0 | 1 => {
                std::fs::write(store.join(&name), &content).unwrap();
                store.join(&name).into_os_string()
            }
            2 | 3 => {
                // relative to the current directory, whatever there is under the same name elsewhere
                let sub = *r.pick(&["", "", "rel", "~", ".config/chanoma", "$HOME", " "]);
                let name = if r.chance(1, 4) { OsString::from(r.pick(&[" rc.yaml", "~.yaml", "a:b.yaml", "a;b.yaml", "a,b.yaml", "%s.yaml", "*.yaml", "-.yaml", "file:x.yaml", "chanomarc.yaml", ".chanomarc.yaml"])) } else { name };
                let csv = name.as_bytes().ends_with(b".csv");
                if csv != (e == "csv") {
                    // the content goes by the name
                    let f = good.as_mut().unwrap();
                    if csv {
                        f.stages.clear();
                    }
                    content = if csv { cfg::csv_of(&f.items) } else { f.yaml() };
                }
                let at = cwd.join(sub).join(&name);
                let (was, there) = (paths.iter().any(|x| x.0 == at), at.symlink_metadata().is_ok());
                if !was && !there {
                    std::fs::create_dir_all(cwd.join(sub)).unwrap();
                    std::fs::write(&at, &content).unwrap();
                    for d in [&home, &conf, &store, &root] {
                        let o = d.join(sub).join(&name);
                        if r.chance(1, 2) && o.symlink_metadata().is_err() && std::fs::create_dir_all(d.join(sub)).is_ok() {
                            let _ = std::fs::write(&o, if csv { "from,to\nx,decoy\n" } else { "items: {decoy: x}\n" });
                            desc.push_str(&format!("decoy {:?}\n", o));
                        }
                    }
                } else {
                    good = paths.iter().find(|x| x.0 == at).and_then(|x| x.1.clone());
                }
                let v = Path::new(if sub.is_empty() && r.chance(1, 2) { "." } else { "" }).join(sub).join(&name);
                if sub == "rel" {
                    Path::new("./rel/..").join(v).into_os_string()
                } else {
                    v.into_os_string()
                }
            }
            4 if !paths.is_empty() => {
                // one of the files that would be found anyway
                let (p, f) = r.pick(&paths).clone();
                good = f;
                p.into_os_string()
            }
            5 => {
                std::fs::write(store.join("target"), &content).unwrap();
                let _ = std::os::unix::fs::symlink(store.join("target"), store.join(&name));
                store.join(&name).into_os_string()
            }
            6 => {
                good = None;
                store.join("missing").join(&name).into_os_string()
            }
            7 => {
                good = None;
                std::fs::create_dir_all(store.join(&name)).unwrap();
                store.join(&name).into_os_string()
            }
            8 => {
                good = None;
                let n = *r.pick(&["rc", "rc.json", "rc.yaml.bak", "rc.YAML", ".yaml", "rc.", "chanomarc", "rc.yam", "rc.txt"]);
                std::fs::write(store.join(n), &content).unwrap();
                store.join(n).into_os_string()
            }
            9 => {
                good = None;
                std::fs::write(store.join(&name), broken(r, e)).unwrap();
                store.join(&name).into_os_string()
            }
            10 => {
                good = None;
                match r.below(6) {
                    0 => OsString::new(),
                    1 => home.clone().into_os_string(),
                    2 | 3 => {
                        // two files, or one with something around its name
                        std::fs::write(store.join("a.csv"), "f,t\na,b\n").unwrap();
                        std::fs::write(store.join("b.yaml"), "items: {a: b}\n").unwrap();
                        let (a, b) = (store.join("a.csv").into_os_string(), store.join("b.yaml").into_os_string());
                        let mut v = OsString::new();
                        match r.below(5) {
                            0 => {
                                v.push(a);
                                v.push(r.pick(&[":", ";", ",", " "]));
                                v.push(b);
                            }
                            1 => {
                                v.push(a);
                                v.push(r.pick(&[" ", "\n", "/", "~", ":", "#", "?"]));
                            }
                            2 => {
                                v.push(r.pick(&[" ", "\"", "'", "file://", "@"]));
                                v.push(b);
                            }
                            3 => {
                                // found at home only
                                let _ = std::fs::write(home.join("only.yaml"), "items: {a: b}\n");
                                v.push(if cwd == home { "only/none.yaml" } else { r.pick(&["only.yaml", "~/only.yaml", "$HOME/only.yaml"]) });
                            }
                            _ => {
                                // without the extension
                                v.push(store.join("a"));
                            }
                        }
                        v
                    }
                    _ => {
                        let _ = std::os::unix::fs::symlink(store.join("gone"), store.join(&name));
                        store.join(&name).into_os_string()
                    }
                }
            }
            _ => {
                let mut n = OsString::from("rc");
                if !utf8 {
                    n.push(OsStr::from_bytes(b"\xff"));
                }
                n.push(".");
                n.push(e);
                std::fs::write(store.join(&n), &content).unwrap();
                store.join(&n).into_os_string()
            }
        };
        desc.push_str(&format!("CHANOMARC {:?} {}\n", v, if good.is_some() { format!("with\n{}", clip(&content, 600)) } else { "(cannot be loaded)".into() }));
        any_broken = good.is_none();
        used = good.into_iter().collect();
        rc = Some(v);
    }
    let mut focus: Vec<char> = Vec::new();
    for f in used.iter().take(4) {
        for s in &f.stages {
            s.focus(&mut focus);
        }
        focus.extend(f.items.iter().take(12).flat_map(|(a, b)| [*a, *b]));
    }
    let mut env: Vec<(&'static str, OsString)> = Vec::new();
    if r.chance(1, 3) {
        let x = root.join("xdg");
        for d in [x.clone(), x.join("chanoma"), x.join(".config/chanoma")] {
            std::fs::create_dir_all(&d).unwrap();
            for n in ["chanomarc.yaml", "chanomarc.csv", ".chanomarc.yml"] {
                std::fs::write(d.join(n), if n.ends_with("csv") { "h,h\na,b\n" } else { "items: [\n" }).unwrap();
            }
        }
        for n in ["XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "USERPROFILE", "APPDATA", "CONFIG_HOME", "CONFIG_DIR", "HOMEPATH", "CHANOMA_HOME", "CHANOMA_CONFIG_DIR", "PWD", "OLDPWD", "TMPDIR", "SUDO_HOME"] {
            if r.chance(3, 4) {
                env.push((n, x.clone().into_os_string()));
            }
        }
        for n in ["CHANOMA_RC", "CHANOMARCS", "CHANOMA_CONFIG", "CHANOMA", "chanomarc", "ChanomaRc", "RCFILE", "CONFIG", "CHANOMARC_PATH", "CHANOMA_RC_PATH", "_CHANOMARC", "CHANOMARC_"] {
            if r.chance(3, 4) {
                env.push((n, x.join("chanomarc.yaml").into_os_string()));
            }
        }
        for (n, v) in [("USER", "nobody"), ("LOGNAME", "nobody"), ("LANG", "tr_TR.ISO-8859-9"), ("LC_ALL", "ja_JP.eucJP"), ("RUST_BACKTRACE", "1"), ("PATH", "/nonexistent"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("COLUMNS", "3"), ("CLICOLOR_FORCE", "1")] {
            if r.chance(1, 2) {
                env.push((n, v.into()));
            }
        }
        desc.push_str(&format!("variables {:?}\n", env.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    Layout { home, cwd, used, broken: any_broken, rc, desc, focus, found: paths.into_iter().collect(), env }
}

pub fn enter(l: &Layout) {
    std::env::set_var("HOME", &l.home);
    std::env::set_current_dir(&l.cwd).unwrap();
    match &l.rc {
        Some(v) => std::env::set_var("CHANOMARC", v),
        None => std::env::remove_var("CHANOMARC"),
    }
}

pub fn leave(ctx: &Ctx) {
    std::env::remove_var("CHANOMARC");
    let _ = std::env::set_current_dir(&ctx.dir);
}

fn c20(ctx: &mut Ctx) -> R {
    let m = Models::new();
    let marks = marker_text();
    for k in 0..ctx.budget(5000, 150000) {
        let mut l = layout(ctx, false);
        let l = &mut l;
        for (n, v) in &l.env {
            std::env::set_var(n, v);
        }
        let mut kept: Vec<(Chanoma, Vec<(String, String)>)> = Vec::new();
        for step in 0..4 {
        if step > 0 {
            if !l.change(&mut ctx.rng) {
                continue;
            }
            ctx.event("loaded again after a change", 1);
        }
        enter(l);
        let gone = step == 0 && k % 40 == 7 && l.rc.is_none() && !l.broken;
        let mut used: Vec<FileCfg> = l.used.clone();
        if gone {
            // the current directory does not exist any more
            let d = l.home.parent().unwrap().join("gone");
            std::fs::create_dir(&d).unwrap();
            std::env::set_current_dir(&d).unwrap();
            std::fs::remove_dir(&d).unwrap();
            // which of the files are in the other two directories is decided by the markers
            let n = used.len();
            let in_cwd = |f: &FileCfg| f.items.contains(&markers(12)[0]) || (13..18).any(|i| f.items.ends_with(&markers(i))) || f.items.ends_with(&markers(12));
            used.retain(|f| !in_cwd(f));
            ctx.event("layouts with a deleted current directory", 1);
            let _ = n;
        }
        let c = guard(Chanoma::load_rc);
        leave(ctx);
        let mut texts = vec![marks.clone(), String::new()];
        for _ in 0..4 {
            texts.push(gen::text(&mut ctx.rng, &l.focus));
        }
        let mut differs = false;
        ctx.judge(&|| format!("{}{}", l.desc, if gone { "(and the current directory deleted)" } else { "" }), || {
            let c = match c? {
                Ok(c) => c,
                Err(e) if l.broken => {
                    let _ = format!("{} {:?}", e, e);
                    return Ok(());
                }
                Err(e) => return Err(format!("refused: {}", e)),
            };
            if l.broken {
                return Err("succeeded, although a file cannot be loaded".into());
            }
            for (c, old) in &kept {
                for (t, w) in old {
                    if c.normalize(t) != *w {
                        return Err(crate::ctx::diff(&format!("pipeline loaded before, text {}", show(t)), &c.normalize(t), w));
                    }
                }
            }
            let mut results = Vec::new();
            for t in &texts {
                let mut w = t.clone();
                for f in &used {
                    w = f.apply(&m, &w);
                }
                let g = c.normalize(t);
                differs |= w != *t;
                if g != w {
                    return Err(crate::ctx::diff(&format!("text {}", show(t)), &g, &w));
                }
                if c.normalize_with_positions(t).text() != w {
                    return Err(crate::ctx::diff(&format!("traced, text {}", show(t)), c.normalize_with_positions(t).text(), &w));
                }
                results.push((t.clone(), w));
            }
            if l.used.is_empty() && !c.normalize_with_positions("a").modified_records().is_empty() {
                return Err("no file, but the pipeline is not empty".into());
            }
            kept.push((c, results));
            Ok(())
        })?;
        if gone {
            break;
        }
        if !l.used.is_empty() || l.rc.is_some() {
            let d = l.desc.replace(&*ctx.dir.to_string_lossy(), "");
            ctx.key(&[d.as_bytes()]);
        }
        ctx.event(
            match (&l.rc, l.broken) {
                (Some(_), true) => "layouts with CHANOMARC that must fail",
                (Some(_), false) => "layouts with CHANOMARC",
                (None, true) => "layouts that must fail",
                (None, false) => "layouts",
            },
            1,
        );
        ctx.event("files used", l.used.len() as u64);
        if l.used.len() > 1 {
            ctx.event("layouts with an order to observe", 1);
        }
        let d = l.desc.clone();
        ctx.sample(|| clip(&d.replace('\n', " "), 500));
        }
        for (n, _) in &l.env {
            std::env::remove_var(n);
        }
        l.cleanup();
    }
    same_content(ctx, &m)
}

/// Several documented files with one content, as copies, links to one file or other names of one file: each is used.
fn same_content(ctx: &mut Ctx, m: &Models) -> R {
    for _ in 0..ctx.budget(1200, 20000) {
        let root = ctx.path("s");
        let (home, cwd) = (root.join("h"), root.join("c"));
        let conf = home.join(".config/chanoma");
        std::fs::create_dir_all(&conf).unwrap();
        std::fs::create_dir_all(&cwd).unwrap();
        let r = &mut ctx.rng;
        let csv = r.chance(1, 3);
        // every use moves a character on
        let n = r.range(3, 12) as u32;
        let start = 0x4e00 + r.below(5000) as u32;
        let ch = |i: u32| char::from_u32(start + i).unwrap();
        let items: Vec<(char, char)> = (0..n).map(|i| (ch(i), ch(i + 1))).collect();
        let mut stages = Vec::new();
        if !csv && r.chance(1, 2) {
            stages.push(Stage::Conv(vec![('x', 'y'), ('y', 'z'), ('z', 'w')]));
        }
        if !csv && r.chance(1, 3) {
            stages.push(Stage::Lig(vec![("(((".into(), "((".into())]));
        }
        let f = FileCfg { stages, items };
        let content = if csv { cfg::csv_of(&f.items) } else { f.yaml() };
        let slots: Vec<PathBuf> = [&conf, &home, &cwd]
            .iter()
            .flat_map(|d| NAMES.iter().flat_map(move |n| EXTS.iter().map(move |e| (d.join(format!("{}.{}", n, e)), *e))))
            .filter(|x| (x.1 == "csv") == csv)
            .map(|x| x.0)
            .collect();
        let most = r.range(1, slots.len());
        let mut chosen: Vec<&PathBuf> = slots.iter().collect();
        r.shuffle(&mut chosen);
        chosen.truncate(most);
        let how = r.below(4);
        let one = root.join(if csv { "one.csv" } else { "one.yaml" });
        std::fs::write(&one, &content).unwrap();
        for (i, p) in chosen.iter().enumerate() {
            match if how == 3 { i % 3 } else { how } {
                0 => std::fs::write(p, &content).unwrap(),
                1 => std::os::unix::fs::symlink(&one, p).unwrap(),
                _ => std::fs::hard_link(&one, p).unwrap(),
            }
        }
        let desc = format!("HOME {:?}\ncurrent directory {:?}\nfiles {:?}, all with the content\n{}", home, cwd, chosen, content);
        let l = Layout { home, cwd, used: vec![], broken: false, rc: None, desc: desc.clone(), focus: vec![], found: HashMap::new(), env: vec![] };
        enter(&l);
        let c = guard(Chanoma::load_rc);
        leave(ctx);
        let mut text: String = (0..=n).map(ch).collect();
        text.push_str("xyz((((((((((((((((((((");
        ctx.judge(&|| desc.clone(), || {
            let c = c?.map_err(|e| format!("refused: {}", e))?;
            let mut want = text.clone();
            for _ in &chosen {
                want = f.apply(m, &want);
            }
            let got = c.normalize(&text);
            if got != want {
                return Err(crate::ctx::diff(&format!("text {}", show(&text)), &got, &want));
            }
            Ok(())
        })?;
        ctx.event(if chosen.len() > 1 { "sets of files with the same content" } else { "single files" }, 1);
        ctx.key(&[content.as_bytes(), &[most as u8, how as u8]]);
        let _ = std::fs::remove_dir_all(&root);
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

/// A terminal that changes no bytes: this end and the program's.
fn terminal() -> Option<(std::fs::File, std::fs::File)> {
    use std::os::fd::{AsRawFd, FromRawFd};
    use std::os::unix::fs::OpenOptionsExt;
    extern "C" {
        fn posix_openpt(flags: i32) -> i32;
        fn grantpt(fd: i32) -> i32;
        fn unlockpt(fd: i32) -> i32;
        fn ptsname_r(fd: i32, buf: *mut std::ffi::c_char, n: usize) -> i32;
        fn tcgetattr(fd: i32, t: *mut u64) -> i32;
        fn tcsetattr(fd: i32, how: i32, t: *const u64) -> i32;
        fn cfmakeraw(t: *mut u64);
    }
    const NOCTTY_CLOEXEC: i32 = 0o400 | 0o2000000;
    unsafe {
        let fd = posix_openpt(2 | NOCTTY_CLOEXEC);
        if fd < 0 {
            return None;
        }
        let ours = std::fs::File::from_raw_fd(fd);
        let mut name = [0u8; 64];
        if grantpt(fd) != 0 || unlockpt(fd) != 0 || ptsname_r(fd, name.as_mut_ptr().cast(), 64) != 0 {
            return None;
        }
        let name = std::ffi::CStr::from_bytes_until_nul(&name).ok()?;
        let theirs = std::fs::OpenOptions::new().read(true).write(true).custom_flags(NOCTTY_CLOEXEC).open(name.to_str().ok()?).ok()?;
        // larger than any termios
        let mut t = [0u64; 32];
        if tcgetattr(theirs.as_raw_fd(), t.as_mut_ptr()) != 0 {
            return None;
        }
        cfmakeraw(t.as_mut_ptr());
        if tcsetattr(theirs.as_raw_fd(), 0, t.as_ptr()) != 0 {
            return None;
        }
        Some((ours, theirs))
    }
}

fn run(bin: &Path, l: &Layout, args: &[OsString], stdin: &[u8], log: Option<&str>, io: usize) -> Result<(Option<i32>, Vec<u8>, String), String> {
    let mut c = Command::new(bin);
    c.args(args).env("HOME", &l.home).env_remove("CHANOMARC").env_remove("RUST_LOG").current_dir(&l.cwd);
    if let Some(v) = &l.rc {
        c.env("CHANOMARC", v);
    }
    if let Some(v) = log {
        c.env("RUST_LOG", v);
    }
    c.envs(l.env.iter().map(|(n, v)| (n, v)));
    let store = l.home.parent().unwrap().join("store");
    let (fi, fo) = (store.join("stdin"), store.join("stdout"));
    let (slow, infile, outfile) = (io == 1, io == 2 || io == 4, io == 3 || io == 4);
    // a terminal never ends: the program must be content with a line
    let line = stdin.len() < 3000 && stdin.contains(&b'\n');
    let term = if io == 5 || ((io == 6 || io == 7) && line) { terminal() } else { None };
    if let Some((ours, theirs)) = term {
        c.env("TERM", "xterm-256color");
        if io != 5 {
            c.stdin(theirs.try_clone().unwrap());
            let mut w = ours.try_clone().unwrap();
            std::io::Write::write_all(&mut w, stdin).map_err(|e| e.to_string())?;
        } else {
            c.stdin(Stdio::piped());
        }
        let mut shown = None;
        if io != 6 {
            c.stdout(theirs.try_clone().unwrap());
            let mut r = ours.try_clone().unwrap();
            shown = Some(std::thread::spawn(move || {
                // ends with EIO when the program has closed its end
                let mut all = Vec::new();
                let _ = std::io::Read::read_to_end(&mut r, &mut all);
                all
            }));
        } else {
            c.stdout(Stdio::piped());
        }
        drop(theirs);
        let ch = c.stderr(Stdio::piped()).spawn();
        // also holds the terminal
        drop(c);
        let mut ch = ch.map_err(|e| e.to_string())?;
        let w = ch.stdin.take().map(|mut si| {
            let data = stdin.to_vec();
            std::thread::spawn(move || {
                let _ = std::io::Write::write_all(&mut si, &data);
            })
        });
        let o = ch.wait_with_output().map_err(|e| e.to_string())?;
        if let Some(w) = w {
            let _ = w.join();
        }
        let out = match shown {
            Some(r) => r.join().unwrap(),
            None => o.stdout,
        };
        drop(ours);
        return Ok((o.status.code(), out, clip(&String::from_utf8_lossy(&o.stderr), 600)));
    }
    if infile {
        std::fs::write(&fi, stdin).unwrap();
        c.stdin(std::fs::File::open(&fi).unwrap());
    } else {
        c.stdin(Stdio::piped());
    }
    if outfile {
        c.stdout(std::fs::File::create(&fo).unwrap());
    } else {
        c.stdout(Stdio::piped());
    }
    let mut ch = c.stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let w = ch.stdin.take().map(|mut si| {
        let data = stdin.to_vec();
        std::thread::spawn(move || {
            use std::io::Write;
            if !slow || data.len() > 100_000 {
                let _ = si.write_all(&data);
                return;
            }
            // in pieces that divide characters, with pauses at first
            let (mut at, mut k) = (0, 0);
            while at < data.len() {
                let n = [1, 1, 2, 4, 1, 5, 7, 1000][k % 8].min(data.len() - at);
                if si.write_all(&data[at..at + n]).is_err() {
                    return;
                }
                at += n;
                k += 1;
                if k < 12 {
                    std::thread::sleep(std::time::Duration::from_micros(700));
                }
            }
        })
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    if let Some(w) = w {
        let _ = w.join();
    }
    let out = if outfile { std::fs::read(&fo).unwrap() } else { o.stdout };
    Ok((o.status.code(), out, clip(&String::from_utf8_lossy(&o.stderr), 600)))
}

fn c21(ctx: &mut Ctx) -> R {
    let m = Models::new();
    let bin = PathBuf::from(std::env::var_os("VMON_BIN").expect("VMON_BIN")).join("chanoma");
    let n = ctx.budget(520, 8000);
    for _ in 0..n {
        let l = layout(ctx, false);
        for _ in 0..6 {
            let (preset, neo, debug) = (ctx.rng.chance(1, 2), ctx.rng.chance(1, 2), ctx.rng.chance(1, 3));
            let mut opts: Vec<String> = Vec::new();
            let mut short = String::new();
            for (on, s, long) in [(preset, 'p', "--preset"), (neo, 'n', "--neologdn"), (debug, 'd', "--debug")] {
                if on {
                    match ctx.rng.below(3) {
                        0 => opts.push(long.to_string()),
                        1 => opts.push(format!("-{}", s)),
                        _ => short.push(s),
                    }
                }
            }
            if !short.is_empty() {
                opts.push(format!("-{}", short));
            }
            ctx.rng.shuffle(&mut opts);
            let mut focus = l.focus.clone();
            focus.extend(['Ａ', '１', '！', 'ｱ', 'ー', '~', 'か', '゛', ' ', '　', '－', 'é']);
            let mut t = gen::text(&mut ctx.rng, &focus);
            if ctx.rng.chance(1, 6) {
                t = super::rc::marker_text();
            }
            if ctx.rng.chance(1, 8) {
                t = ctx.rng.pick(&["-", "--", "---", "-p", "-h", "-V", "--help", "--version", "--preset", "-pn", "--debug=1", "help", "=", "-=", "@x", "*", "~", "$HOME", "%s", "\\n", "\\x41", "{}", "{0}", "\"", "'", "chanomarc.yaml", "/dev/stdin", "a\u{0}b", "\u{1b}[0m", "-Ａ", "—p"]).to_string();
            }
            let other = gen::text(&mut ctx.rng, &focus);
            let by_arg = ctx.rng.chance(1, 2);
            let mut args: Vec<OsString> = opts.iter().map(OsString::from).collect();
            let mut stdin: Vec<u8> = Vec::new();
            let how;
            if by_arg {
                t.retain(|c| c != '\0');
                if ctx.rng.chance(1, 60) {
                    t = gen::big(&mut ctx.rng, &focus, 130_000).replace('\0', "");
                }
                // the system does not take longer arguments
                while t.len() > 131_000 {
                    t = t.chars().take(30_000).collect();
                }
                if !t.starts_with('-') && ctx.rng.chance(1, 2) {
                    let at = ctx.rng.below(args.len() + 1);
                    args.insert(at, OsString::from(&t));
                } else {
                    args.push("--".into());
                    args.push(OsString::from(&t));
                }
                // something to read that must not matter
                if ctx.rng.chance(1, 2) {
                    stdin = other.into_bytes();
                }
                how = "argument";
            } else {
                t.retain(|c| c != '\n');
                while t.ends_with('\r') {
                    t.pop();
                }
                if ctx.rng.chance(1, 200) {
                    let n = *ctx.rng.pick(&[600_000, 1_100_000, 2_200_000]);
                    t = gen::huge(&mut ctx.rng, &focus, n).replace('\n', "").trim_end_matches('\r').to_string();
                    ctx.event("lines of more than half a million characters", 1);
                } else if ctx.rng.chance(1, 40) {
                    t = gen::big(&mut ctx.rng, &focus, 200_000).replace('\n', "").trim_end_matches('\r').to_string();
                }
                stdin = t.clone().into_bytes();
                how = match ctx.rng.below(4) {
                    0 => "standard input without newline",
                    1 => {
                        stdin.push(b'\n');
                        "standard input, one line"
                    }
                    2 => {
                        stdin.extend(b"\n\n");
                        "standard input, empty second line"
                    }
                    _ => {
                        stdin.push(b'\n');
                        stdin.extend(other.as_bytes());
                        stdin.push(b'\n');
                        "standard input, several lines"
                    }
                };
            }
            let log = match ctx.rng.below(4) {
                0 => Some(*ctx.rng.pick(&["debug", "trace", "off", "chanoma=trace", "bogus=,=", ""])),
                _ => None,
            };
            let io = ctx.rng.below(10);
            let mut want = l.apply(&m, &t);
            if preset {
                want = m.preset(&want);
            }
            if neo {
                want = m.neologdn(&want);
            }
            let desc = || format!("{}options {:?}, text by {}: {}\nRUST_LOG {:?}, {}", l.desc, args.iter().map(|a| clip(&a.to_string_lossy(), 80)).collect::<Vec<_>>(), how, show(&t), log, ["", "standard input in pieces", "standard input from a file", "standard output to a file", "standard input and output are files", "standard output is a terminal", "standard input is a terminal (when it is a short line)", "standard input and output are a terminal (when it is a short line)", "", ""][io]);
            ctx.judge(&desc, || {
                let (code, out, err) = run(&bin, &l, &args, &stdin, log, io)?;
                if l.broken {
                    if code == Some(0) {
                        return Err(format!("exit 0 although the configuration cannot be loaded, output {}", show(&String::from_utf8_lossy(&out))));
                    }
                    if !out.is_empty() && t.chars().count() > 1 && String::from_utf8_lossy(&out).lines().any(|x| x == want || x == t) {
                        return Err(format!("a text was printed although the configuration cannot be loaded: {}", show(&String::from_utf8_lossy(&out))));
                    }
                    return Ok(());
                }
                if code != Some(0) {
                    return Err(format!("exit {:?}, standard error: {}", code, err));
                }
                let w = format!("{}\n", want);
                if out != w.as_bytes() {
                    return Err(crate::ctx::diff("standard output", &String::from_utf8_lossy(&out), &w));
                }
                Ok(())
            })?;
            if !l.broken && want != t {
                let d = format!("{:?}{}", args, l.desc.replace(&*ctx.dir.to_string_lossy(), ""));
                ctx.key(&[&fnv(&[d.as_bytes()]).to_le_bytes(), &stdin]);
            }
            ctx.event(if l.broken { "runs that must fail" } else { how }, 1);
            if io == 5 || ((io == 6 || io == 7) && stdin.len() < 3000 && stdin.contains(&b'\n')) {
                ctx.event("runs at a terminal", 1);
            }
            if debug {
                ctx.event("runs with the debug option", 1);
            }
            ctx.sample(|| format!("{:?} {}", args, how));
        }
        l.cleanup();
    }
    Ok(())
}
