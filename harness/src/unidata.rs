//! Unicode compatibility decompositions, generated with Python's unicodedata 15.0.0.
pub const CJK: [&str; 256] = [
    "アパート",
    "アルファ",
    "アンペア",
    "アール",
    "イニング",
    "インチ",
    "ウォン",
    "エスクード",
    "エーカー",
    "オンス",
    "オーム",
    "カイリ",
    "カラット",
    "カロリー",
    "ガロン",
    "ガンマ",
    "ギガ",
    "ギニー",
    "キュリー",
    "ギルダー",
    "キロ",
    "キログラム",
    "キロメートル",
    "キロワット",
    "グラム",
    "グラムトン",
    "クルゼイロ",
    "クローネ",
    "ケース",
    "コルナ",
    "コーポ",
    "サイクル",
    "サンチーム",
    "シリング",
    "センチ",
    "セント",
    "ダース",
    "デシ",
    "ドル",
    "トン",
    "ナノ",
    "ノット",
    "ハイツ",
    "パーセント",
    "パーツ",
    "バーレル",
    "ピアストル",
    "ピクル",
    "ピコ",
    "ビル",
    "ファラッド",
    "フィート",
    "ブッシェル",
    "フラン",
    "ヘクタール",
    "ペソ",
    "ペニヒ",
    "ヘルツ",
    "ペンス",
    "ページ",
    "ベータ",
    "ポイント",
    "ボルト",
    "ホン",
    "ポンド",
    "ホール",
    "ホーン",
    "マイクロ",
    "マイル",
    "マッハ",
    "マルク",
    "マンション",
    "ミクロン",
    "ミリ",
    "ミリバール",
    "メガ",
    "メガトン",
    "メートル",
    "ヤード",
    "ヤール",
    "ユアン",
    "リットル",
    "リラ",
    "ルピー",
    "ルーブル",
    "レム",
    "レントゲン",
    "ワット",
    "0点",
    "1点",
    "2点",
    "3点",
    "4点",
    "5点",
    "6点",
    "7点",
    "8点",
    "9点",
    "10点",
    "11点",
    "12点",
    "13点",
    "14点",
    "15点",
    "16点",
    "17点",
    "18点",
    "19点",
    "20点",
    "21点",
    "22点",
    "23点",
    "24点",
    "hPa",
    "da",
    "AU",
    "bar",
    "oV",
    "pc",
    "dm",
    "dm2",
    "dm3",
    "IU",
    "平成",
    "昭和",
    "大正",
    "明治",
    "株式会社",
    "pA",
    "nA",
    "μA",
    "mA",
    "kA",
    "KB",
    "MB",
    "GB",
    "cal",
    "kcal",
    "pF",
    "nF",
    "μF",
    "μg",
    "mg",
    "kg",
    "Hz",
    "kHz",
    "MHz",
    "GHz",
    "THz",
    "μl",
    "ml",
    "dl",
    "kl",
    "fm",
    "nm",
    "μm",
    "mm",
    "cm",
    "km",
    "mm2",
    "cm2",
    "m2",
    "km2",
    "mm3",
    "cm3",
    "m3",
    "km3",
    "m∕s",
    "m∕s2",
    "Pa",
    "kPa",
    "MPa",
    "GPa",
    "rad",
    "rad∕s",
    "rad∕s2",
    "ps",
    "ns",
    "μs",
    "ms",
    "pV",
    "nV",
    "μV",
    "mV",
    "kV",
    "MV",
    "pW",
    "nW",
    "μW",
    "mW",
    "kW",
    "MW",
    "kΩ",
    "MΩ",
    "a.m.",
    "Bq",
    "cc",
    "cd",
    "C∕kg",
    "Co.",
    "dB",
    "Gy",
    "ha",
    "HP",
    "in",
    "KK",
    "KM",
    "kt",
    "lm",
    "ln",
    "log",
    "lx",
    "mb",
    "mil",
    "mol",
    "PH",
    "p.m.",
    "PPM",
    "PR",
    "sr",
    "Sv",
    "Wb",
    "V∕m",
    "A∕m",
    "1日",
    "2日",
    "3日",
    "4日",
    "5日",
    "6日",
    "7日",
    "8日",
    "9日",
    "10日",
    "11日",
    "12日",
    "13日",
    "14日",
    "15日",
    "16日",
    "17日",
    "18日",
    "19日",
    "20日",
    "21日",
    "22日",
    "23日",
    "24日",
    "25日",
    "26日",
    "27日",
    "28日",
    "29日",
    "30日",
    "31日",
    "gal",
];
/// (character, NFKC) for the half-width and full-width forms block and the ideographic space
pub const FORMS: &[(char, &str)] = &[
    ('\u{3000}', " "),
    ('\u{ff01}', "!"),
    ('\u{ff02}', "\""),
    ('\u{ff03}', "#"),
    ('\u{ff04}', "$"),
    ('\u{ff05}', "%"),
    ('\u{ff06}', "&"),
    ('\u{ff07}', "'"),
    ('\u{ff08}', "("),
    ('\u{ff09}', ")"),
    ('\u{ff0a}', "*"),
    ('\u{ff0b}', "+"),
    ('\u{ff0c}', ","),
    ('\u{ff0d}', "-"),
    ('\u{ff0e}', "."),
    ('\u{ff0f}', "/"),
    ('\u{ff10}', "0"),
    ('\u{ff11}', "1"),
    ('\u{ff12}', "2"),
    ('\u{ff13}', "3"),
    ('\u{ff14}', "4"),
    ('\u{ff15}', "5"),
    ('\u{ff16}', "6"),
    ('\u{ff17}', "7"),
    ('\u{ff18}', "8"),
    ('\u{ff19}', "9"),
    ('\u{ff1a}', ":"),
    ('\u{ff1b}', ";"),
    ('\u{ff1c}', "<"),
    ('\u{ff1d}', "="),
    ('\u{ff1e}', ">"),
    ('\u{ff1f}', "?"),
    ('\u{ff20}', "@"),
    ('\u{ff21}', "A"),
    ('\u{ff22}', "B"),
    ('\u{ff23}', "C"),
    ('\u{ff24}', "D"),
    ('\u{ff25}', "E"),
    ('\u{ff26}', "F"),
    ('\u{ff27}', "G"),
    ('\u{ff28}', "H"),
    ('\u{ff29}', "I"),
    ('\u{ff2a}', "J"),
    ('\u{ff2b}', "K"),
    ('\u{ff2c}', "L"),
    ('\u{ff2d}', "M"),
    ('\u{ff2e}', "N"),
    ('\u{ff2f}', "O"),
    ('\u{ff30}', "P"),
    ('\u{ff31}', "Q"),
    ('\u{ff32}', "R"),
    ('\u{ff33}', "S"),
    ('\u{ff34}', "T"),
    ('\u{ff35}', "U"),
    ('\u{ff36}', "V"),
    ('\u{ff37}', "W"),
    ('\u{ff38}', "X"),
    ('\u{ff39}', "Y"),
    ('\u{ff3a}', "Z"),
    ('\u{ff3b}', "["),
    ('\u{ff3c}', "\\"),
    ('\u{ff3d}', "]"),
    ('\u{ff3e}', "^"),
    ('\u{ff3f}', "_"),
    ('\u{ff40}', "`"),
    ('\u{ff41}', "a"),
    ('\u{ff42}', "b"),
    ('\u{ff43}', "c"),
    ('\u{ff44}', "d"),
    ('\u{ff45}', "e"),
    ('\u{ff46}', "f"),
    ('\u{ff47}', "g"),
    ('\u{ff48}', "h"),
    ('\u{ff49}', "i"),
    ('\u{ff4a}', "j"),
    ('\u{ff4b}', "k"),
    ('\u{ff4c}', "l"),
    ('\u{ff4d}', "m"),
    ('\u{ff4e}', "n"),
    ('\u{ff4f}', "o"),
    ('\u{ff50}', "p"),
    ('\u{ff51}', "q"),
    ('\u{ff52}', "r"),
    ('\u{ff53}', "s"),
    ('\u{ff54}', "t"),
    ('\u{ff55}', "u"),
    ('\u{ff56}', "v"),
    ('\u{ff57}', "w"),
    ('\u{ff58}', "x"),
    ('\u{ff59}', "y"),
    ('\u{ff5a}', "z"),
    ('\u{ff5b}', "{"),
    ('\u{ff5c}', "|"),
    ('\u{ff5d}', "}"),
    ('\u{ff5e}', "~"),
    ('\u{ff5f}', "⦅"),
    ('\u{ff60}', "⦆"),
    ('\u{ff61}', "。"),
    ('\u{ff62}', "「"),
    ('\u{ff63}', "」"),
    ('\u{ff64}', "、"),
    ('\u{ff65}', "・"),
    ('\u{ff66}', "ヲ"),
    ('\u{ff67}', "ァ"),
    ('\u{ff68}', "ィ"),
    ('\u{ff69}', "ゥ"),
    ('\u{ff6a}', "ェ"),
    ('\u{ff6b}', "ォ"),
    ('\u{ff6c}', "ャ"),
    ('\u{ff6d}', "ュ"),
    ('\u{ff6e}', "ョ"),
    ('\u{ff6f}', "ッ"),
    ('\u{ff70}', "ー"),
    ('\u{ff71}', "ア"),
    ('\u{ff72}', "イ"),
    ('\u{ff73}', "ウ"),
    ('\u{ff74}', "エ"),
    ('\u{ff75}', "オ"),
    ('\u{ff76}', "カ"),
    ('\u{ff77}', "キ"),
    ('\u{ff78}', "ク"),
    ('\u{ff79}', "ケ"),
    ('\u{ff7a}', "コ"),
    ('\u{ff7b}', "サ"),
    ('\u{ff7c}', "シ"),
    ('\u{ff7d}', "ス"),
    ('\u{ff7e}', "セ"),
    ('\u{ff7f}', "ソ"),
    ('\u{ff80}', "タ"),
    ('\u{ff81}', "チ"),
    ('\u{ff82}', "ツ"),
    ('\u{ff83}', "テ"),
    ('\u{ff84}', "ト"),
    ('\u{ff85}', "ナ"),
    ('\u{ff86}', "ニ"),
    ('\u{ff87}', "ヌ"),
    ('\u{ff88}', "ネ"),
    ('\u{ff89}', "ノ"),
    ('\u{ff8a}', "ハ"),
    ('\u{ff8b}', "ヒ"),
    ('\u{ff8c}', "フ"),
    ('\u{ff8d}', "ヘ"),
    ('\u{ff8e}', "ホ"),
    ('\u{ff8f}', "マ"),
    ('\u{ff90}', "ミ"),
    ('\u{ff91}', "ム"),
    ('\u{ff92}', "メ"),
    ('\u{ff93}', "モ"),
    ('\u{ff94}', "ヤ"),
    ('\u{ff95}', "ユ"),
    ('\u{ff96}', "ヨ"),
    ('\u{ff97}', "ラ"),
    ('\u{ff98}', "リ"),
    ('\u{ff99}', "ル"),
    ('\u{ff9a}', "レ"),
    ('\u{ff9b}', "ロ"),
    ('\u{ff9c}', "ワ"),
    ('\u{ff9d}', "ン"),
    ('\u{ff9e}', "゙"),
    ('\u{ff9f}', "゚"),
    ('\u{ffa0}', "ᅠ"),
    ('\u{ffa1}', "ᄀ"),
    ('\u{ffa2}', "ᄁ"),
    ('\u{ffa3}', "ᆪ"),
    ('\u{ffa4}', "ᄂ"),
    ('\u{ffa5}', "ᆬ"),
    ('\u{ffa6}', "ᆭ"),
    ('\u{ffa7}', "ᄃ"),
    ('\u{ffa8}', "ᄄ"),
    ('\u{ffa9}', "ᄅ"),
    ('\u{ffaa}', "ᆰ"),
    ('\u{ffab}', "ᆱ"),
    ('\u{ffac}', "ᆲ"),
    ('\u{ffad}', "ᆳ"),
    ('\u{ffae}', "ᆴ"),
    ('\u{ffaf}', "ᆵ"),
    ('\u{ffb0}', "ᄚ"),
    ('\u{ffb1}', "ᄆ"),
    ('\u{ffb2}', "ᄇ"),
    ('\u{ffb3}', "ᄈ"),
    ('\u{ffb4}', "ᄡ"),
    ('\u{ffb5}', "ᄉ"),
    ('\u{ffb6}', "ᄊ"),
    ('\u{ffb7}', "ᄋ"),
    ('\u{ffb8}', "ᄌ"),
    ('\u{ffb9}', "ᄍ"),
    ('\u{ffba}', "ᄎ"),
    ('\u{ffbb}', "ᄏ"),
    ('\u{ffbc}', "ᄐ"),
    ('\u{ffbd}', "ᄑ"),
    ('\u{ffbe}', "ᄒ"),
    ('\u{ffc2}', "ᅡ"),
    ('\u{ffc3}', "ᅢ"),
    ('\u{ffc4}', "ᅣ"),
    ('\u{ffc5}', "ᅤ"),
    ('\u{ffc6}', "ᅥ"),
    ('\u{ffc7}', "ᅦ"),
    ('\u{ffca}', "ᅧ"),
    ('\u{ffcb}', "ᅨ"),
    ('\u{ffcc}', "ᅩ"),
    ('\u{ffcd}', "ᅪ"),
    ('\u{ffce}', "ᅫ"),
    ('\u{ffcf}', "ᅬ"),
    ('\u{ffd2}', "ᅭ"),
    ('\u{ffd3}', "ᅮ"),
    ('\u{ffd4}', "ᅯ"),
    ('\u{ffd5}', "ᅰ"),
    ('\u{ffd6}', "ᅱ"),
    ('\u{ffd7}', "ᅲ"),
    ('\u{ffda}', "ᅳ"),
    ('\u{ffdb}', "ᅴ"),
    ('\u{ffdc}', "ᅵ"),
    ('\u{ffe0}', "¢"),
    ('\u{ffe1}', "£"),
    ('\u{ffe2}', "¬"),
    ('\u{ffe3}', " ̄"),
    ('\u{ffe4}', "¦"),
    ('\u{ffe5}', "¥"),
    ('\u{ffe6}', "₩"),
    ('\u{ffe8}', "│"),
    ('\u{ffe9}', "←"),
    ('\u{ffea}', "↑"),
    ('\u{ffeb}', "→"),
    ('\u{ffec}', "↓"),
    ('\u{ffed}', "■"),
    ('\u{ffee}', "○"),
];
