//! Reference models, written from the documented behaviour. They share nothing with the code under test.
use std::collections::{HashMap, HashSet};

const HALF: &str = "｡｢｣､･ｦｧｨｩｪｫｬｭｮｯｱｲｳｴｵｶｷｸｹｺｻｼｽｾｿﾀﾁﾂﾃﾄﾅﾆﾇﾈﾉﾊﾋﾌﾍﾎﾏﾐﾑﾒﾓﾔﾕﾖﾗﾘﾙﾚﾛﾜﾝ";
const FULL: &str = "。「」、・ヲァィゥェォャュョッアイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワン";

/// The conversions of the preset as a list.
pub fn preset_pairs() -> Vec<(char, char)> {
    let mut v: Vec<(char, char)> = HALF.chars().zip(FULL.chars()).collect();
    for u in 0xff01u32..=0xff5e {
        let c = char::from_u32(u).unwrap();
        if matches!(c, '＂' | '＇' | '～') {
            continue;
        }
        v.push((c, char::from_u32(u - 0xfee0).unwrap()));
    }
    v.push(('”', '"'));
    v.push(('’', '\''));
    v.push(('〜', '~'));
    v.push(('￥', '¥'));
    v.push(('　', ' '));
    v
}

pub struct Models {
    preset: HashMap<char, char>,
    neo: HashMap<char, char>,
    join: HashMap<(char, char), char>,
}

pub const TILDES: [char; 6] = ['~', '∼', '∾', '〜', '〰', '～'];
pub const CHOONPUS: [char; 6] = ['﹣', 'ｰ', '—', '―', '─', '━'];
pub const HYPHENS: [char; 11] = ['˗', '֊', '‐', '‑', '‒', '–', '⁃', '⁻', '₋', '−', '－'];

impl Models {
    pub fn new() -> Self {
        let preset: HashMap<char, char> = preset_pairs().into_iter().collect();
        let mut neo = preset.clone();
        neo.remove(&'＝');
        for c in CHOONPUS {
            neo.insert(c, 'ー');
        }
        for c in HYPHENS {
            neo.insert(c, '-');
        }
        neo.insert('ﾞ', '゛');
        neo.insert('ﾟ', '゜');
        let mut join = HashMap::new();
        for (b, v) in "かきくけこさしすせそたちつてとはひふへほうカキクケコサシスセソタチツテトハヒフヘホウ"
            .chars()
            .zip("がぎぐげござじずぜぞだぢづでどばびぶべぼゔガギグゲゴザジズゼゾダヂヅデドバビブベボヴ".chars())
        {
            join.insert((b, '゛'), v);
        }
        for (b, v) in "はひふへほハヒフヘホ".chars().zip("ぱぴぷぺぽパピプペポ".chars()) {
            join.insert((b, '゜'), v);
        }
        Models { preset, neo, join }
    }

    pub fn preset(&self, t: &str) -> String {
        t.chars().map(|c| *self.preset.get(&c).unwrap_or(&c)).collect()
    }

    pub fn neologdn(&self, t: &str) -> String {
        let t: String = t.chars().map(|c| *self.neo.get(&c).unwrap_or(&c)).collect();
        let t = reduce(&t, 'ー');
        let t = spaces(&t);
        let v: Vec<char> = t.chars().filter(|c| !TILDES.contains(c)).collect();
        let mut out = String::new();
        let mut i = 0;
        while i < v.len() {
            if i + 1 < v.len() {
                if let Some(j) = self.join.get(&(v[i], v[i + 1])) {
                    out.push(*j);
                    i += 2;
                    continue;
                }
            }
            out.push(v[i]);
            i += 1;
        }
        reduce(&out, 'ー')
    }

    pub fn neo_source(&self, c: char) -> bool {
        self.neo.contains_key(&c)
    }

    pub fn joinable(&self, a: char, b: char) -> bool {
        self.join.contains_key(&(a, b))
    }
}

pub fn convert(t: &str, pairs: &HashMap<char, char>) -> String {
    t.chars().map(|c| *pairs.get(&c).unwrap_or(&c)).collect()
}

pub fn eliminate(t: &str, set: &HashSet<char>) -> String {
    t.chars().filter(|c| !set.contains(c)).collect()
}

pub fn reduce(t: &str, c: char) -> String {
    let mut out = String::new();
    let mut last = None;
    for x in t.chars() {
        if x == c && last == Some(c) {
            continue;
        }
        out.push(x);
        last = Some(x);
    }
    out
}

fn alnum(c: char) -> bool {
    matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9')
}

pub fn spaces(t: &str) -> String {
    let v: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] != ' ' {
            out.push(v[i]);
            i += 1;
            continue;
        }
        let s = i;
        while i < v.len() && v[i] == ' ' {
            i += 1;
        }
        if s > 0 && i < v.len() && alnum(v[s - 1]) && alnum(v[i]) {
            out.push(' ');
        }
    }
    out
}

pub fn trim(t: &str) -> String {
    let v: Vec<char> = t.chars().collect();
    let a = v.iter().position(|c| *c != ' ');
    let b = v.iter().rposition(|c| *c != ' ');
    match (a, b) {
        (Some(a), Some(b)) => v[a..=b].iter().collect(),
        _ => String::new(),
    }
}

/// Leftmost single-pass replacement; only meaningful for rules that do not interfere.
pub fn ligature(t: &str, rules: &[(String, String)]) -> String {
    let rules: Vec<(Vec<char>, &String)> = rules.iter().map(|(f, t)| (f.chars().collect(), t)).collect();
    let mut first: HashMap<char, Vec<usize>> = HashMap::new();
    for (i, (f, _)) in rules.iter().enumerate() {
        first.entry(f[0]).or_default().push(i);
    }
    let v: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    'next: while i < v.len() {
        if let Some(c) = first.get(&v[i]) {
            for k in c {
                let f = &rules[*k].0;
                if v[i..].starts_with(f) {
                    out.push_str(rules[*k].1);
                    i += f.len();
                    continue 'next;
                }
            }
        }
        out.push(v[i]);
        i += 1;
    }
    out
}

/// No source contains another one, no proper suffix of a source is a prefix of a source,
/// and no target is empty or contains a character of a source.
pub fn non_interfering(rules: &[(String, String)]) -> bool {
    let src: Vec<Vec<char>> = rules.iter().map(|(f, _)| f.chars().collect()).collect();
    let chars: HashSet<char> = src.iter().flatten().copied().collect();
    if rules.iter().any(|(f, t)| f.is_empty() || t.is_empty() || t.chars().any(|c| chars.contains(&c))) {
        return false;
    }
    for (i, a) in src.iter().enumerate() {
        for (j, b) in src.iter().enumerate() {
            if i != j && a.len() <= b.len() && b.windows(a.len()).any(|w| w == &a[..]) {
                return false;
            }
            let m = a.len().min(b.len());
            for k in 1..=m {
                if i == j && k == a.len() {
                    continue;
                }
                if a[a.len() - k..] == b[..k] {
                    return false;
                }
            }
        }
    }
    true
}
