#!/usr/bin/env python3
"""Writes harness/src/props/constants.rs: the single-character constants, what their names say, from Unicode data."""
import os, unicodedata as u
out = []
def add(path, f, t): out.append((path, f, t))
for i in range(26):
    c = chr(65 + i)
    add(f"A::CAPITAL_LETTER_{c}", chr(0xff21 + i), c)
    add(f"A::SMALL_LETTER_{c}", chr(0xff41 + i), c.lower())
for i, n in enumerate("ZERO ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE".split()):
    add(f"D::DIGIT_{n}", chr(0xff10 + i), str(i))
P = {"EXCLAMATION_MARK": "!", "SHARP": "#", "DOLLER_SIGN": "$", "PERCENT_SIGN": "%", "AMPERSAND": "&", "LEFT_PARENTHESIS": "(", "RIGHT_PARENTHESIS": ")",
 "ASTERISK": "*", "PLUS_SIGN": "+", "COMMA": ",", "HYPHEN_MINUS": "-", "FULL_STOP": ".", "SLASH": "/", "COLON": ":", "SEMI_COLON": ";", "LESS_THAN_SIGN": "<",
 "EQUAL_SIGN": "=", "GREATER_THAN_SIGN": ">", "QUESTION_MARK": "?", "AT_SIGN": "@", "LEFT_SQUARE_BRACKET": "[", "BACKSLASH": "\\", "RIGHT_SQUARE_BRACKET": "]",
 "CIRCUMFLEX_ACCENT": "^", "LOW_LINE": "_", "GRAVE_ACCENT": "`", "LEFT_CURLY_BRACKET": "{", "VERTICAL_BAR": "|", "RIGHT_CURLY_BRACKET": "}"}
for n, c in P.items(): add(f"P::{n}", chr(ord(c) + 0xfee0), c)
add("P::QUOTATION_MARK", "\u201d", '"'); add("P::APOSTROPHE", "\u2019", "'"); add("P::YEN_SIGN", "\uffe5", "\u00a5"); add("P::TILDE", "\u301c", "~")
ren = {"SHI": "SI", "CHI": "TI", "TSU": "TU", "FU": "HU"}
for i in range(0xff66, 0xff9e):
    c = chr(i)
    n = u.name(c)
    if "PROLONGED" in n or "VOICED" in n: continue
    add("K::" + n.replace("HALFWIDTH ", "").replace(" ", "_"), c, u.normalize("NFKC", c))
for f, n in (("､", "IDEOGRAPHIC_COMMA"), ("｡", "IDEOGRAPHIC_FULL_STOP"), ("･", "KATAKANA_MIDDLE_DOT"), ("｢", "LEFT_CORNER_BRACKET"), ("｣", "RIGHT_CORNER_BRACKET")):
    add("K::" + n, f, u.normalize("NFKC", f))
add("K::IDEOGRAPHIC_SPACE", "\u3000", " ")
lit = lambda s: '"' + "".join(f"\\u{{{ord(c):x}}}" for c in s) + '"'
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/props/constants.rs"), "w") as w:
    w.write("// Generated by tools/gen_constants.py.\n//! Public constants for single characters: name, entries, source, target.\nuse chanoma::characters_set::{alphabets::Alphabets as A, cjk_compatibilities as C, digits::Digits as D, kanas::Kanas as K, punctuations::Punctuations as P};\nuse chanoma::{Corr, Item};\n\n#[rustfmt::skip]\npub fn constants() -> Vec<(&'static str, Vec<Item>, &'static str, Option<&'static str>)> {\n    vec![\n")
    for p, f, t in out:
        w.write(f'        ("{p[3:]}", {p}.items(), {lit(f)}, Some({lit(t)})),\n')
    for i in range(256):
        n = u.name(chr(0x3300 + i)).replace(" ", "_").replace("-", "_")
        w.write(f'        ("{n}", C::{n}.items(), {lit(chr(0x3300 + i))}, None),\n')
    w.write("    ]\n}\n")
