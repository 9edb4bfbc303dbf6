//! Texts and characters.
use crate::rng::Rng;

pub const SPACES: &[char] = &[
    ' ', ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2009}',
    '\u{200b}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{feff}',
];
pub const MARKS: &[char] = &['゛', '゜', 'ﾞ', 'ﾟ', '\u{3099}', '\u{309a}', '\u{200d}', '\u{fe0f}', '\u{301}'];
pub const DASHES: &[char] = &[
    '-', 'ー', 'ｰ', '－', '﹣', '—', '―', '─', '━', '˗', '֊', '‐', '‑', '‒', '–', '⁃', '⁻', '₋', '−', '_', '￣', '一',
    '\u{ad}', '\u{2e3a}', '\u{fe58}', '゠', '\u{2212}',
];
pub const TILDES: &[char] = &['~', '∼', '∾', '〜', '〰', '～', '˜', '∽', '⁓', '\u{303}'];
const ODD: &[char] = &[
    '\0', '\u{1}', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{fffe}',
    '\u{fdd0}', '\u{d7ff}', '\u{e000}', '\u{f8ff}', '\u{fffd}', '\u{10000}', '\u{1ffff}', '\u{10ffff}', '\u{1f600}', '\u{20b9f}',
    '\u{e0101}', '\u{2f800}', '\u{1f468}', '\u{fb00}', '\u{1d400}', 'ß', 'İ', 'ı', 'ſ', 'Å', '٣', '²', 'é', 'Ω',
];

pub fn scalar(r: &mut Rng) -> char {
    loop {
        if let Some(c) = char::from_u32((r.next() % 0x110000) as u32) {
            return c;
        }
    }
}

fn in_range(r: &mut Rng, a: u32, b: u32) -> char {
    char::from_u32(a + r.below((b - a + 1) as usize) as u32).unwrap_or('?')
}

/// A character that resembles `c` in its encoding or its meaning.
pub fn near(r: &mut Rng, c: char) -> char {
    let u = c as u32;
    let cand = match r.below(12) {
        0 => u.wrapping_add(1),
        1 => u.wrapping_sub(1),
        2 => u ^ 0x20,
        3 => u + 0x10000,
        4 => u & 0xff,
        5 => u & 0xffff,
        6 => u ^ 0x100,
        7 => u.wrapping_add(0xfee0),
        8 => u.wrapping_sub(0xfee0),
        9 => u ^ 0x80,
        10 => u + 0x60,
        _ => u ^ 0x10000,
    };
    char::from_u32(cand).unwrap_or(c)
}

pub fn any(r: &mut Rng) -> char {
    match r.below(22) {
        0 | 1 => in_range(r, 'a' as u32, 'z' as u32),
        2 => in_range(r, 'A' as u32, 'Z' as u32),
        3 => in_range(r, '0' as u32, '9' as u32),
        4 => in_range(r, 0x21, 0x7e),
        5 => *r.pick(SPACES),
        6 | 7 => in_range(r, 0xff01, 0xff5e),
        8 | 9 => in_range(r, 0xff61, 0xff9f),
        10 => in_range(r, 0x3041, 0x3096),
        11 => in_range(r, 0x30a1, 0x30fa),
        12 => *r.pick(MARKS),
        13 => *r.pick(DASHES),
        14 => *r.pick(TILDES),
        15 => *r.pick(ODD),
        16 => in_range(r, 0x4e00, 0x9fff),
        17 => in_range(r, 0x80, 0x7ff),
        18 => in_range(r, 0x10000, 0x1ffff),
        19 => in_range(r, 0x3300, 0x33ff),
        20 => in_range(r, 0xff00, 0xffef),
        _ => scalar(r),
    }
}

pub fn mixed(r: &mut Rng, focus: &[char]) -> char {
    if focus.is_empty() {
        return any(r);
    }
    match r.below(10) {
        0 => any(r),
        1 => {
            let c = *r.pick(focus);
            near(r, c)
        }
        _ => *r.pick(focus),
    }
}

/// Run and text lengths around the places where something may change.
pub fn edge_len(r: &mut Rng, max: usize) -> usize {
    let base = [1, 2, 3, 4, 8, 10, 16, 32, 64, 100, 128, 200, 256, 512, 1000, 1024, 2048, 4096, 8192, 65536];
    let hi = base.iter().position(|b| *b > max).unwrap_or(base.len());
    let b = base[r.below(hi.max(1))];
    let d = r.below(3);
    (b + d).saturating_sub(1).max(1).min(max)
}

pub fn run(r: &mut Rng, focus: &[char], max_len: usize) -> Vec<char> {
    let k = r.range(1, 5);
    let mut v = Vec::new();
    for _ in 0..k {
        let c = mixed(r, focus);
        let l = if r.chance(1, 2) { r.range(1, 4) } else { edge_len(r, max_len) };
        for _ in 0..l {
            v.push(c);
        }
    }
    v
}

fn piece(r: &mut Rng, focus: &[char], len: usize) -> Vec<char> {
    (0..len).map(|_| mixed(r, focus)).collect()
}

/// Sequences as they occur in real texts, which random characters hardly ever form.
pub const SNIPPETS: &[&str] = &[
    "\r\n", "\n\n", "\n\r", "\t\t", "か\u{3099}", "は\u{309a}", "ハ\u{3099}", "e\u{301}", "n\u{303}", "A\u{30a}", "\u{1f1ef}\u{1f1f5}",
    "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}", "\u{1f469}\u{200d}\u{1f4bb}", "\u{1f44d}\u{1f3fd}", "❤\u{fe0f}", "1\u{fe0f}\u{20e3}", "葛\u{e0100}",
    "\u{2764}\u{fe0e}", "「", "」", "。」", "」。", "」「", "（", "）。", "、、", "。。。", "……", "・・・", "！？", "!?", "!!", "？！", "ｶﾞ", "ｶﾞｶﾞ", "ﾊﾟﾋﾟ", "ｳﾞｧ", "ﾊﾞｰ", "ﾎﾟｯﾌﾟ",
    "が゛", "か゛", "は゜", "カ゛゛", "ハ゛゜", "ﾊ゜", "う゛", "ヴ", "ワ゛", "っ", "ッ", "ゃ", "ーーー", "～～", "〜〜〜", "ー～ー", "ー ー", "~ー~", "漢字", "日本語", "東京都", "正規化", "人々",
    "ひらがな", "カタカナ", "ﾊﾝｶｸ", "ＡＢＣ", "１２３", "ａ ｂ", "Ａ１", "（株）", "㈱", "㌔", "㍻", "①", "Ⅳ", "ﬁ", "½", "ｗｗｗ", "www", "http", "https://", "http://a.b/c?d=e&f", "</", "<br>",
    "<a href=\"x\">", "&amp;", "&#12540;", "%20", "%E3%81%82", "+81", "03-1234-5678", "2021/01/01", "12:34:56", "1,000", "3.14", "-1", "1e5", "0x1F", "a@b.jp", "C++", "C#", ".NET",
    "don't", "\"q\"", "'s", "a-b", "a_b", "foo bar", "Foo  Bar", "the quick brown fox", "end. Next", "a , b", "( a )", "検索 エンジン", "アルゴリズム C", "Web サイト", "PRML 副読本", "あ い", "　　", " 　 ",
    "\u{a0}\u{a0}", "\u{200b}", "\u{feff}", "\u{200e}", "\u{202e}", "\\n", "\\", "${x}", "{}", "%s", "[]", "null", "true", "NaN", "\u{0}\u{0}", "สวัสดี", "안녕", "\u{1112}\u{1161}\u{11ab}", "Привет", "שלום",
    "مرحبا", "नमस्ते", "ﻻ", "Straße", "İstanbul", "ΑΣ", "\u{1d400}\u{1d401}", "𠮷野家", "﨑", "髙", "⼀", "－１", "−1", "—", "‐", "---", "===", "###", "***", "・", "･", "｡｢｣､", "￥", "¥", "”", "’",
];

/// Real sequences into a text, sometimes one after another.
fn sprinkle(r: &mut Rng, v: &mut Vec<char>) {
    let n = *r.pick(&[1, 1, 1, 2, 3, 8]);
    let together = r.chance(1, 2);
    let mut at = r.below(v.len() + 1);
    for _ in 0..n {
        let s: Vec<char> = r.pick(SNIPPETS).chars().collect();
        let end = at + s.len();
        v.splice(at..at, s);
        at = if together { end } else { r.below(v.len() + 1) };
    }
}

/// Cut or filled to a number of bytes that buffers have.
fn fit(r: &mut Rng, focus: &[char], t: String, max: usize) -> String {
    let sizes = [64, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 12288, 16384, 32768, 65536, 131072];
    let hi = sizes.iter().position(|b| *b > max).unwrap_or(sizes.len()).max(1);
    let n = sizes[r.below(hi)];
    let mut o = String::with_capacity(n + 4);
    let pad = mixed(r, focus);
    let src: Vec<char> = t.chars().collect();
    let mut i = 0;
    loop {
        let left = n - o.len();
        let c = if i < src.len() { src[i] } else if i % 7 == 0 || src.is_empty() { pad } else { src[i % src.len()] };
        i += 1;
        if c.len_utf8() <= left {
            o.push(c);
        } else if left > 0 {
            // fill up with what fits
            let small: Vec<char> = focus.iter().copied().filter(|c| c.len_utf8() <= left).collect();
            o.push(if small.is_empty() { 'a' } else { *r.pick(&small) });
        }
        if o.len() == n {
            return o;
        }
    }
}

/// One text; most are short, some are long, few are huge.
pub fn text(r: &mut Rng, focus: &[char]) -> String {
    let t = plain_text(r, focus);
    if t.len() < 4000 && r.chance(1, 6) {
        let mut v: Vec<char> = t.chars().collect();
        sprinkle(r, &mut v);
        return v.into_iter().collect();
    }
    if r.chance(1, 300) {
        return fit(r, focus, t, 8192);
    }
    t
}

fn plain_text(r: &mut Rng, focus: &[char]) -> String {
    let mut v: Vec<char> = Vec::new();
    match r.below(104) {
        0..=34 => {
            // short, over a very small alphabet
            let k = r.range(1, 4);
            let alpha: Vec<char> = (0..k).map(|_| mixed(r, focus)).collect();
            let n = r.below(10);
            for _ in 0..n {
                v.push(*r.pick(&alpha));
            }
        }
        35..=59 => {
            let n = r.range(0, 40);
            v = piece(r, focus, n);
        }
        60..=71 => v = run(r, focus, 70),
        72..=81 => {
            // an interesting piece inside padding of some length
            let pad = mixed(r, focus);
            let a = r.below(70);
            let b = r.below(70);
            let n = r.range(1, 8);
            let m = piece(r, focus, n);
            v.extend(std::iter::repeat(pad).take(a));
            v.extend(m);
            v.extend(std::iter::repeat(if r.chance(1, 2) { pad } else { any(r) }).take(b));
        }
        82..=87 => {
            // a pattern, repeated
            let n = r.range(1, 5);
            let p = piece(r, focus, n);
            let k = edge_len(r, 64);
            for _ in 0..k {
                v.extend(&p);
            }
        }
        88..=92 => {
            let n = edge_len(r, 512);
            v = piece(r, focus, n);
        }
        93..=95 => {
            // many distinct characters
            let start = r.below(0x10000) as u32;
            let n = r.range(1, 400) as u32;
            v = (start..start + n).filter_map(char::from_u32).collect();
            if r.chance(1, 2) {
                r.shuffle(&mut v);
            }
        }
        96..=97 => {
            // prose with spaces
            let n = r.range(1, 20);
            for i in 0..n {
                if i > 0 {
                    v.push(if r.chance(3, 4) { ' ' } else { '　' });
                }
                let l = r.range(1, 9);
                let base = any(r);
                for _ in 0..l {
                    v.push(if r.chance(1, 5) { mixed(r, focus) } else { near(r, base) });
                }
            }
        }
        98 => v = run(r, focus, 1100),
        100..=103 => return scaled(r, focus, 600),
        _ => {
            let n = edge_len(r, 2100);
            v = piece(r, focus, n);
        }
    }
    v.into_iter().collect()
}

/// Something repeated about as often as a small counter can count: one character in a run, a pattern,
/// separate runs, or padding before something interesting.
pub fn scaled(r: &mut Rng, focus: &[char], max: usize) -> String {
    let base = [128, 256, 256, 256, 512, 1024, 2048, 4096, 32768, 65536, 65536];
    let hi = base.iter().position(|b| *b > max).unwrap_or(base.len()).max(1);
    let n = (base[r.below(hi)] + r.below(9)).saturating_sub(3).min(max.max(1));
    let ends = |r: &mut Rng| {
        let k = r.below(4);
        piece(r, focus, k)
    };
    let mut v = ends(r);
    let c = if focus.is_empty() || r.chance(1, 8) { any(r) } else { *r.pick(focus) };
    match r.below(6) {
        0 | 1 => v.extend(std::iter::repeat(c).take(n)),
        2 => {
            let l = r.range(2, 4);
            let p = piece(r, focus, l);
            v.extend(p.iter().cycle().take(n));
        }
        3 => {
            // the pattern n times, if the text does not become too long
            let l = r.range(2, 4);
            let p = piece(r, focus, l);
            v.extend(p.iter().cycle().take(n * l));
        }
        4 => {
            let l = r.range(2, 5);
            let d = mixed(r, focus);
            for _ in 0..n / l {
                v.extend(std::iter::repeat(c).take(l));
                v.push(d);
            }
        }
        _ => {
            let d = mixed(r, focus);
            v.extend(std::iter::repeat(d).take(n));
            v.push(c);
            v.extend(ends(r));
            v.extend(std::iter::repeat(d).take(n / 2));
        }
    }
    v.extend(ends(r));
    v.into_iter().collect()
}

/// Large texts: at least 4096 characters, sometimes beyond 65536.
pub fn big(r: &mut Rng, focus: &[char], max: usize) -> String {
    if r.chance(1, 5) {
        let n = r.range(1, 40);
        let t = piece(r, focus, n).into_iter().collect();
        return fit(r, focus, t, max.min(131072));
    }
    if r.chance(1, 3) {
        return scaled(r, focus, max.min(70000));
    }
    let n = *r.pick(&[4095, 4096, 4097, 8191, 8193, 16384, 21846, 32767, 32769, 65535, 65536, 65537, 70000, 131073, 262145]);
    let n = n.min(max);
    let v: Vec<char> = match r.below(5) {
        0 => {
            let c = mixed(r, focus);
            let mut v = vec![c; n];
            let k = r.below(4);
            for _ in 0..k {
                let i = r.below(n);
                v[i] = mixed(r, focus);
            }
            v
        }
        1 => piece(r, focus, n),
        2 => {
            let l = r.range(1, 7);
            let p = piece(r, focus, l);
            p.iter().cycle().take(n).copied().collect()
        }
        3 => {
            let mut v = Vec::new();
            while v.len() < n {
                v.extend(run(r, focus, 5000));
            }
            v.truncate(n);
            v
        }
        _ => {
            let mut v: Vec<char> = (0..n as u32).filter_map(|i| char::from_u32(0x20 + i)).collect();
            if r.chance(1, 2) {
                r.shuffle(&mut v);
            }
            v
        }
    };
    v.into_iter().collect()
}

/// About `n` characters: one run or one pattern from end to end, or with something before and after it.
pub fn huge(r: &mut Rng, focus: &[char], n: usize) -> String {
    let ends = |r: &mut Rng| {
        let k = *r.pick(&[0, 0, 1, 3]);
        piece(r, focus, k)
    };
    let mut v = ends(r);
    let l = *r.pick(&[1, 1, 1, 2, 2, 3, 5]);
    let p: Vec<char> = (0..l).map(|_| if focus.is_empty() { any(r) } else { *r.pick(focus) }).collect();
    v.extend(p.iter().cycle().take(n));
    v.extend(ends(r));
    v.into_iter().collect()
}

/// All scalar values.
pub fn scalars() -> impl Iterator<Item = char> {
    (0..=0x10ffffu32).filter_map(char::from_u32)
}

/// The i-th string over `alpha` in length-lexicographic order of all strings up to `max` characters.
pub fn count_strings(alpha: usize, max: usize) -> usize {
    let mut n = 0usize;
    let mut p = 1usize;
    for _ in 0..=max {
        n += p;
        p *= alpha;
    }
    n
}

pub fn nth_string(alpha: &[char], mut i: usize) -> String {
    let k = alpha.len();
    let mut len = 0;
    let mut p = 1usize;
    while i >= p {
        i -= p;
        p *= k;
        len += 1;
    }
    let mut v = vec![alpha[0]; len];
    for j in (0..len).rev() {
        v[j] = alpha[i % k];
        i /= k;
    }
    v.into_iter().collect()
}

/// The next text of a history on one instance: sometimes a variation of the one before, so that
/// anything kept between calls meets texts that resemble each other.
pub fn next(r: &mut Rng, focus: &[char], prev: &str) -> String {
    if prev.is_empty() || !r.chance(1, 4) {
        return text(r, focus);
    }
    let mut v: Vec<char> = prev.chars().collect();
    match r.below(7) {
        0 => {
            let i = r.below(v.len());
            v[i] = mixed(r, focus);
        }
        1 => r.shuffle(&mut v),
        2 => v.reverse(),
        3 => {
            let c = mixed(r, focus);
            v.push(c);
        }
        4 => {
            let c = mixed(r, focus);
            v.insert(0, c);
        }
        5 => {
            v.pop();
        }
        _ => {} // the same text again
    }
    v.into_iter().collect()
}
