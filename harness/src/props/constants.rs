// Generated by tools/gen_constants.py.
//! Public constants for single characters: name, entries, source, target.
use chanoma::characters_set::{alphabets::Alphabets as A, cjk_compatibilities as C, digits::Digits as D, kanas::Kanas as K, punctuations::Punctuations as P};
use chanoma::{Corr, Item};

#[rustfmt::skip]
pub fn constants() -> Vec<(&'static str, Vec<Item>, &'static str, Option<&'static str>)> {
    vec![
        ("CAPITAL_LETTER_A", A::CAPITAL_LETTER_A.items(), "\u{ff21}", Some("\u{41}")),
        ("SMALL_LETTER_A", A::SMALL_LETTER_A.items(), "\u{ff41}", Some("\u{61}")),
        ("CAPITAL_LETTER_B", A::CAPITAL_LETTER_B.items(), "\u{ff22}", Some("\u{42}")),
        ("SMALL_LETTER_B", A::SMALL_LETTER_B.items(), "\u{ff42}", Some("\u{62}")),
        ("CAPITAL_LETTER_C", A::CAPITAL_LETTER_C.items(), "\u{ff23}", Some("\u{43}")),
        ("SMALL_LETTER_C", A::SMALL_LETTER_C.items(), "\u{ff43}", Some("\u{63}")),
        ("CAPITAL_LETTER_D", A::CAPITAL_LETTER_D.items(), "\u{ff24}", Some("\u{44}")),
        ("SMALL_LETTER_D", A::SMALL_LETTER_D.items(), "\u{ff44}", Some("\u{64}")),
        ("CAPITAL_LETTER_E", A::CAPITAL_LETTER_E.items(), "\u{ff25}", Some("\u{45}")),
        ("SMALL_LETTER_E", A::SMALL_LETTER_E.items(), "\u{ff45}", Some("\u{65}")),
        ("CAPITAL_LETTER_F", A::CAPITAL_LETTER_F.items(), "\u{ff26}", Some("\u{46}")),
        ("SMALL_LETTER_F", A::SMALL_LETTER_F.items(), "\u{ff46}", Some("\u{66}")),
        ("CAPITAL_LETTER_G", A::CAPITAL_LETTER_G.items(), "\u{ff27}", Some("\u{47}")),
        ("SMALL_LETTER_G", A::SMALL_LETTER_G.items(), "\u{ff47}", Some("\u{67}")),
        ("CAPITAL_LETTER_H", A::CAPITAL_LETTER_H.items(), "\u{ff28}", Some("\u{48}")),
        ("SMALL_LETTER_H", A::SMALL_LETTER_H.items(), "\u{ff48}", Some("\u{68}")),
        ("CAPITAL_LETTER_I", A::CAPITAL_LETTER_I.items(), "\u{ff29}", Some("\u{49}")),
        ("SMALL_LETTER_I", A::SMALL_LETTER_I.items(), "\u{ff49}", Some("\u{69}")),
        ("CAPITAL_LETTER_J", A::CAPITAL_LETTER_J.items(), "\u{ff2a}", Some("\u{4a}")),
        ("SMALL_LETTER_J", A::SMALL_LETTER_J.items(), "\u{ff4a}", Some("\u{6a}")),
        ("CAPITAL_LETTER_K", A::CAPITAL_LETTER_K.items(), "\u{ff2b}", Some("\u{4b}")),
        ("SMALL_LETTER_K", A::SMALL_LETTER_K.items(), "\u{ff4b}", Some("\u{6b}")),
        ("CAPITAL_LETTER_L", A::CAPITAL_LETTER_L.items(), "\u{ff2c}", Some("\u{4c}")),
        ("SMALL_LETTER_L", A::SMALL_LETTER_L.items(), "\u{ff4c}", Some("\u{6c}")),
        ("CAPITAL_LETTER_M", A::CAPITAL_LETTER_M.items(), "\u{ff2d}", Some("\u{4d}")),
        ("SMALL_LETTER_M", A::SMALL_LETTER_M.items(), "\u{ff4d}", Some("\u{6d}")),
        ("CAPITAL_LETTER_N", A::CAPITAL_LETTER_N.items(), "\u{ff2e}", Some("\u{4e}")),
        ("SMALL_LETTER_N", A::SMALL_LETTER_N.items(), "\u{ff4e}", Some("\u{6e}")),
        ("CAPITAL_LETTER_O", A::CAPITAL_LETTER_O.items(), "\u{ff2f}", Some("\u{4f}")),
        ("SMALL_LETTER_O", A::SMALL_LETTER_O.items(), "\u{ff4f}", Some("\u{6f}")),
        ("CAPITAL_LETTER_P", A::CAPITAL_LETTER_P.items(), "\u{ff30}", Some("\u{50}")),
        ("SMALL_LETTER_P", A::SMALL_LETTER_P.items(), "\u{ff50}", Some("\u{70}")),
        ("CAPITAL_LETTER_Q", A::CAPITAL_LETTER_Q.items(), "\u{ff31}", Some("\u{51}")),
        ("SMALL_LETTER_Q", A::SMALL_LETTER_Q.items(), "\u{ff51}", Some("\u{71}")),
        ("CAPITAL_LETTER_R", A::CAPITAL_LETTER_R.items(), "\u{ff32}", Some("\u{52}")),
        ("SMALL_LETTER_R", A::SMALL_LETTER_R.items(), "\u{ff52}", Some("\u{72}")),
        ("CAPITAL_LETTER_S", A::CAPITAL_LETTER_S.items(), "\u{ff33}", Some("\u{53}")),
        ("SMALL_LETTER_S", A::SMALL_LETTER_S.items(), "\u{ff53}", Some("\u{73}")),
        ("CAPITAL_LETTER_T", A::CAPITAL_LETTER_T.items(), "\u{ff34}", Some("\u{54}")),
        ("SMALL_LETTER_T", A::SMALL_LETTER_T.items(), "\u{ff54}", Some("\u{74}")),
        ("CAPITAL_LETTER_U", A::CAPITAL_LETTER_U.items(), "\u{ff35}", Some("\u{55}")),
        ("SMALL_LETTER_U", A::SMALL_LETTER_U.items(), "\u{ff55}", Some("\u{75}")),
        ("CAPITAL_LETTER_V", A::CAPITAL_LETTER_V.items(), "\u{ff36}", Some("\u{56}")),
        ("SMALL_LETTER_V", A::SMALL_LETTER_V.items(), "\u{ff56}", Some("\u{76}")),
        ("CAPITAL_LETTER_W", A::CAPITAL_LETTER_W.items(), "\u{ff37}", Some("\u{57}")),
        ("SMALL_LETTER_W", A::SMALL_LETTER_W.items(), "\u{ff57}", Some("\u{77}")),
        ("CAPITAL_LETTER_X", A::CAPITAL_LETTER_X.items(), "\u{ff38}", Some("\u{58}")),
        ("SMALL_LETTER_X", A::SMALL_LETTER_X.items(), "\u{ff58}", Some("\u{78}")),
        ("CAPITAL_LETTER_Y", A::CAPITAL_LETTER_Y.items(), "\u{ff39}", Some("\u{59}")),
        ("SMALL_LETTER_Y", A::SMALL_LETTER_Y.items(), "\u{ff59}", Some("\u{79}")),
        ("CAPITAL_LETTER_Z", A::CAPITAL_LETTER_Z.items(), "\u{ff3a}", Some("\u{5a}")),
        ("SMALL_LETTER_Z", A::SMALL_LETTER_Z.items(), "\u{ff5a}", Some("\u{7a}")),
        ("DIGIT_ZERO", D::DIGIT_ZERO.items(), "\u{ff10}", Some("\u{30}")),
        ("DIGIT_ONE", D::DIGIT_ONE.items(), "\u{ff11}", Some("\u{31}")),
        ("DIGIT_TWO", D::DIGIT_TWO.items(), "\u{ff12}", Some("\u{32}")),
        ("DIGIT_THREE", D::DIGIT_THREE.items(), "\u{ff13}", Some("\u{33}")),
        ("DIGIT_FOUR", D::DIGIT_FOUR.items(), "\u{ff14}", Some("\u{34}")),
        ("DIGIT_FIVE", D::DIGIT_FIVE.items(), "\u{ff15}", Some("\u{35}")),
        ("DIGIT_SIX", D::DIGIT_SIX.items(), "\u{ff16}", Some("\u{36}")),
        ("DIGIT_SEVEN", D::DIGIT_SEVEN.items(), "\u{ff17}", Some("\u{37}")),
        ("DIGIT_EIGHT", D::DIGIT_EIGHT.items(), "\u{ff18}", Some("\u{38}")),
        ("DIGIT_NINE", D::DIGIT_NINE.items(), "\u{ff19}", Some("\u{39}")),
        ("EXCLAMATION_MARK", P::EXCLAMATION_MARK.items(), "\u{ff01}", Some("\u{21}")),
        ("SHARP", P::SHARP.items(), "\u{ff03}", Some("\u{23}")),
        ("DOLLER_SIGN", P::DOLLER_SIGN.items(), "\u{ff04}", Some("\u{24}")),
        ("PERCENT_SIGN", P::PERCENT_SIGN.items(), "\u{ff05}", Some("\u{25}")),
        ("AMPERSAND", P::AMPERSAND.items(), "\u{ff06}", Some("\u{26}")),
        ("LEFT_PARENTHESIS", P::LEFT_PARENTHESIS.items(), "\u{ff08}", Some("\u{28}")),
        ("RIGHT_PARENTHESIS", P::RIGHT_PARENTHESIS.items(), "\u{ff09}", Some("\u{29}")),
        ("ASTERISK", P::ASTERISK.items(), "\u{ff0a}", Some("\u{2a}")),
        ("PLUS_SIGN", P::PLUS_SIGN.items(), "\u{ff0b}", Some("\u{2b}")),
        ("COMMA", P::COMMA.items(), "\u{ff0c}", Some("\u{2c}")),
        ("HYPHEN_MINUS", P::HYPHEN_MINUS.items(), "\u{ff0d}", Some("\u{2d}")),
        ("FULL_STOP", P::FULL_STOP.items(), "\u{ff0e}", Some("\u{2e}")),
        ("SLASH", P::SLASH.items(), "\u{ff0f}", Some("\u{2f}")),
        ("COLON", P::COLON.items(), "\u{ff1a}", Some("\u{3a}")),
        ("SEMI_COLON", P::SEMI_COLON.items(), "\u{ff1b}", Some("\u{3b}")),
        ("LESS_THAN_SIGN", P::LESS_THAN_SIGN.items(), "\u{ff1c}", Some("\u{3c}")),
        ("EQUAL_SIGN", P::EQUAL_SIGN.items(), "\u{ff1d}", Some("\u{3d}")),
        ("GREATER_THAN_SIGN", P::GREATER_THAN_SIGN.items(), "\u{ff1e}", Some("\u{3e}")),
        ("QUESTION_MARK", P::QUESTION_MARK.items(), "\u{ff1f}", Some("\u{3f}")),
        ("AT_SIGN", P::AT_SIGN.items(), "\u{ff20}", Some("\u{40}")),
        ("LEFT_SQUARE_BRACKET", P::LEFT_SQUARE_BRACKET.items(), "\u{ff3b}", Some("\u{5b}")),
        ("BACKSLASH", P::BACKSLASH.items(), "\u{ff3c}", Some("\u{5c}")),
        ("RIGHT_SQUARE_BRACKET", P::RIGHT_SQUARE_BRACKET.items(), "\u{ff3d}", Some("\u{5d}")),
        ("CIRCUMFLEX_ACCENT", P::CIRCUMFLEX_ACCENT.items(), "\u{ff3e}", Some("\u{5e}")),
        ("LOW_LINE", P::LOW_LINE.items(), "\u{ff3f}", Some("\u{5f}")),
        ("GRAVE_ACCENT", P::GRAVE_ACCENT.items(), "\u{ff40}", Some("\u{60}")),
        ("LEFT_CURLY_BRACKET", P::LEFT_CURLY_BRACKET.items(), "\u{ff5b}", Some("\u{7b}")),
        ("VERTICAL_BAR", P::VERTICAL_BAR.items(), "\u{ff5c}", Some("\u{7c}")),
        ("RIGHT_CURLY_BRACKET", P::RIGHT_CURLY_BRACKET.items(), "\u{ff5d}", Some("\u{7d}")),
        ("QUOTATION_MARK", P::QUOTATION_MARK.items(), "\u{201d}", Some("\u{22}")),
        ("APOSTROPHE", P::APOSTROPHE.items(), "\u{2019}", Some("\u{27}")),
        ("YEN_SIGN", P::YEN_SIGN.items(), "\u{ffe5}", Some("\u{a5}")),
        ("TILDE", P::TILDE.items(), "\u{301c}", Some("\u{7e}")),
        ("KATAKANA_LETTER_WO", K::KATAKANA_LETTER_WO.items(), "\u{ff66}", Some("\u{30f2}")),
        ("KATAKANA_LETTER_SMALL_A", K::KATAKANA_LETTER_SMALL_A.items(), "\u{ff67}", Some("\u{30a1}")),
        ("KATAKANA_LETTER_SMALL_I", K::KATAKANA_LETTER_SMALL_I.items(), "\u{ff68}", Some("\u{30a3}")),
        ("KATAKANA_LETTER_SMALL_U", K::KATAKANA_LETTER_SMALL_U.items(), "\u{ff69}", Some("\u{30a5}")),
        ("KATAKANA_LETTER_SMALL_E", K::KATAKANA_LETTER_SMALL_E.items(), "\u{ff6a}", Some("\u{30a7}")),
        ("KATAKANA_LETTER_SMALL_O", K::KATAKANA_LETTER_SMALL_O.items(), "\u{ff6b}", Some("\u{30a9}")),
        ("KATAKANA_LETTER_SMALL_YA", K::KATAKANA_LETTER_SMALL_YA.items(), "\u{ff6c}", Some("\u{30e3}")),
        ("KATAKANA_LETTER_SMALL_YU", K::KATAKANA_LETTER_SMALL_YU.items(), "\u{ff6d}", Some("\u{30e5}")),
        ("KATAKANA_LETTER_SMALL_YO", K::KATAKANA_LETTER_SMALL_YO.items(), "\u{ff6e}", Some("\u{30e7}")),
        ("KATAKANA_LETTER_SMALL_TU", K::KATAKANA_LETTER_SMALL_TU.items(), "\u{ff6f}", Some("\u{30c3}")),
        ("KATAKANA_LETTER_A", K::KATAKANA_LETTER_A.items(), "\u{ff71}", Some("\u{30a2}")),
        ("KATAKANA_LETTER_I", K::KATAKANA_LETTER_I.items(), "\u{ff72}", Some("\u{30a4}")),
        ("KATAKANA_LETTER_U", K::KATAKANA_LETTER_U.items(), "\u{ff73}", Some("\u{30a6}")),
        ("KATAKANA_LETTER_E", K::KATAKANA_LETTER_E.items(), "\u{ff74}", Some("\u{30a8}")),
        ("KATAKANA_LETTER_O", K::KATAKANA_LETTER_O.items(), "\u{ff75}", Some("\u{30aa}")),
        ("KATAKANA_LETTER_KA", K::KATAKANA_LETTER_KA.items(), "\u{ff76}", Some("\u{30ab}")),
        ("KATAKANA_LETTER_KI", K::KATAKANA_LETTER_KI.items(), "\u{ff77}", Some("\u{30ad}")),
        ("KATAKANA_LETTER_KU", K::KATAKANA_LETTER_KU.items(), "\u{ff78}", Some("\u{30af}")),
        ("KATAKANA_LETTER_KE", K::KATAKANA_LETTER_KE.items(), "\u{ff79}", Some("\u{30b1}")),
        ("KATAKANA_LETTER_KO", K::KATAKANA_LETTER_KO.items(), "\u{ff7a}", Some("\u{30b3}")),
        ("KATAKANA_LETTER_SA", K::KATAKANA_LETTER_SA.items(), "\u{ff7b}", Some("\u{30b5}")),
        ("KATAKANA_LETTER_SI", K::KATAKANA_LETTER_SI.items(), "\u{ff7c}", Some("\u{30b7}")),
        ("KATAKANA_LETTER_SU", K::KATAKANA_LETTER_SU.items(), "\u{ff7d}", Some("\u{30b9}")),
        ("KATAKANA_LETTER_SE", K::KATAKANA_LETTER_SE.items(), "\u{ff7e}", Some("\u{30bb}")),
        ("KATAKANA_LETTER_SO", K::KATAKANA_LETTER_SO.items(), "\u{ff7f}", Some("\u{30bd}")),
        ("KATAKANA_LETTER_TA", K::KATAKANA_LETTER_TA.items(), "\u{ff80}", Some("\u{30bf}")),
        ("KATAKANA_LETTER_TI", K::KATAKANA_LETTER_TI.items(), "\u{ff81}", Some("\u{30c1}")),
        ("KATAKANA_LETTER_TU", K::KATAKANA_LETTER_TU.items(), "\u{ff82}", Some("\u{30c4}")),
        ("KATAKANA_LETTER_TE", K::KATAKANA_LETTER_TE.items(), "\u{ff83}", Some("\u{30c6}")),
        ("KATAKANA_LETTER_TO", K::KATAKANA_LETTER_TO.items(), "\u{ff84}", Some("\u{30c8}")),
        ("KATAKANA_LETTER_NA", K::KATAKANA_LETTER_NA.items(), "\u{ff85}", Some("\u{30ca}")),
        ("KATAKANA_LETTER_NI", K::KATAKANA_LETTER_NI.items(), "\u{ff86}", Some("\u{30cb}")),
        ("KATAKANA_LETTER_NU", K::KATAKANA_LETTER_NU.items(), "\u{ff87}", Some("\u{30cc}")),
        ("KATAKANA_LETTER_NE", K::KATAKANA_LETTER_NE.items(), "\u{ff88}", Some("\u{30cd}")),
        ("KATAKANA_LETTER_NO", K::KATAKANA_LETTER_NO.items(), "\u{ff89}", Some("\u{30ce}")),
        ("KATAKANA_LETTER_HA", K::KATAKANA_LETTER_HA.items(), "\u{ff8a}", Some("\u{30cf}")),
        ("KATAKANA_LETTER_HI", K::KATAKANA_LETTER_HI.items(), "\u{ff8b}", Some("\u{30d2}")),
        ("KATAKANA_LETTER_HU", K::KATAKANA_LETTER_HU.items(), "\u{ff8c}", Some("\u{30d5}")),
        ("KATAKANA_LETTER_HE", K::KATAKANA_LETTER_HE.items(), "\u{ff8d}", Some("\u{30d8}")),
        ("KATAKANA_LETTER_HO", K::KATAKANA_LETTER_HO.items(), "\u{ff8e}", Some("\u{30db}")),
        ("KATAKANA_LETTER_MA", K::KATAKANA_LETTER_MA.items(), "\u{ff8f}", Some("\u{30de}")),
        ("KATAKANA_LETTER_MI", K::KATAKANA_LETTER_MI.items(), "\u{ff90}", Some("\u{30df}")),
        ("KATAKANA_LETTER_MU", K::KATAKANA_LETTER_MU.items(), "\u{ff91}", Some("\u{30e0}")),
        ("KATAKANA_LETTER_ME", K::KATAKANA_LETTER_ME.items(), "\u{ff92}", Some("\u{30e1}")),
        ("KATAKANA_LETTER_MO", K::KATAKANA_LETTER_MO.items(), "\u{ff93}", Some("\u{30e2}")),
        ("KATAKANA_LETTER_YA", K::KATAKANA_LETTER_YA.items(), "\u{ff94}", Some("\u{30e4}")),
        ("KATAKANA_LETTER_YU", K::KATAKANA_LETTER_YU.items(), "\u{ff95}", Some("\u{30e6}")),
        ("KATAKANA_LETTER_YO", K::KATAKANA_LETTER_YO.items(), "\u{ff96}", Some("\u{30e8}")),
        ("KATAKANA_LETTER_RA", K::KATAKANA_LETTER_RA.items(), "\u{ff97}", Some("\u{30e9}")),
        ("KATAKANA_LETTER_RI", K::KATAKANA_LETTER_RI.items(), "\u{ff98}", Some("\u{30ea}")),
        ("KATAKANA_LETTER_RU", K::KATAKANA_LETTER_RU.items(), "\u{ff99}", Some("\u{30eb}")),
        ("KATAKANA_LETTER_RE", K::KATAKANA_LETTER_RE.items(), "\u{ff9a}", Some("\u{30ec}")),
        ("KATAKANA_LETTER_RO", K::KATAKANA_LETTER_RO.items(), "\u{ff9b}", Some("\u{30ed}")),
        ("KATAKANA_LETTER_WA", K::KATAKANA_LETTER_WA.items(), "\u{ff9c}", Some("\u{30ef}")),
        ("KATAKANA_LETTER_N", K::KATAKANA_LETTER_N.items(), "\u{ff9d}", Some("\u{30f3}")),
        ("IDEOGRAPHIC_COMMA", K::IDEOGRAPHIC_COMMA.items(), "\u{ff64}", Some("\u{3001}")),
        ("IDEOGRAPHIC_FULL_STOP", K::IDEOGRAPHIC_FULL_STOP.items(), "\u{ff61}", Some("\u{3002}")),
        ("KATAKANA_MIDDLE_DOT", K::KATAKANA_MIDDLE_DOT.items(), "\u{ff65}", Some("\u{30fb}")),
        ("LEFT_CORNER_BRACKET", K::LEFT_CORNER_BRACKET.items(), "\u{ff62}", Some("\u{300c}")),
        ("RIGHT_CORNER_BRACKET", K::RIGHT_CORNER_BRACKET.items(), "\u{ff63}", Some("\u{300d}")),
        ("IDEOGRAPHIC_SPACE", K::IDEOGRAPHIC_SPACE.items(), "\u{3000}", Some("\u{20}")),
        ("SQUARE_APAATO", C::SQUARE_APAATO.items(), "\u{3300}", None),
        ("SQUARE_ARUHUA", C::SQUARE_ARUHUA.items(), "\u{3301}", None),
        ("SQUARE_ANPEA", C::SQUARE_ANPEA.items(), "\u{3302}", None),
        ("SQUARE_AARU", C::SQUARE_AARU.items(), "\u{3303}", None),
        ("SQUARE_ININGU", C::SQUARE_ININGU.items(), "\u{3304}", None),
        ("SQUARE_INTI", C::SQUARE_INTI.items(), "\u{3305}", None),
        ("SQUARE_UON", C::SQUARE_UON.items(), "\u{3306}", None),
        ("SQUARE_ESUKUUDO", C::SQUARE_ESUKUUDO.items(), "\u{3307}", None),
        ("SQUARE_EEKAA", C::SQUARE_EEKAA.items(), "\u{3308}", None),
        ("SQUARE_ONSU", C::SQUARE_ONSU.items(), "\u{3309}", None),
        ("SQUARE_OOMU", C::SQUARE_OOMU.items(), "\u{330a}", None),
        ("SQUARE_KAIRI", C::SQUARE_KAIRI.items(), "\u{330b}", None),
        ("SQUARE_KARATTO", C::SQUARE_KARATTO.items(), "\u{330c}", None),
        ("SQUARE_KARORII", C::SQUARE_KARORII.items(), "\u{330d}", None),
        ("SQUARE_GARON", C::SQUARE_GARON.items(), "\u{330e}", None),
        ("SQUARE_GANMA", C::SQUARE_GANMA.items(), "\u{330f}", None),
        ("SQUARE_GIGA", C::SQUARE_GIGA.items(), "\u{3310}", None),
        ("SQUARE_GINII", C::SQUARE_GINII.items(), "\u{3311}", None),
        ("SQUARE_KYURII", C::SQUARE_KYURII.items(), "\u{3312}", None),
        ("SQUARE_GIRUDAA", C::SQUARE_GIRUDAA.items(), "\u{3313}", None),
        ("SQUARE_KIRO", C::SQUARE_KIRO.items(), "\u{3314}", None),
        ("SQUARE_KIROGURAMU", C::SQUARE_KIROGURAMU.items(), "\u{3315}", None),
        ("SQUARE_KIROMEETORU", C::SQUARE_KIROMEETORU.items(), "\u{3316}", None),
        ("SQUARE_KIROWATTO", C::SQUARE_KIROWATTO.items(), "\u{3317}", None),
        ("SQUARE_GURAMU", C::SQUARE_GURAMU.items(), "\u{3318}", None),
        ("SQUARE_GURAMUTON", C::SQUARE_GURAMUTON.items(), "\u{3319}", None),
        ("SQUARE_KURUZEIRO", C::SQUARE_KURUZEIRO.items(), "\u{331a}", None),
        ("SQUARE_KUROONE", C::SQUARE_KUROONE.items(), "\u{331b}", None),
        ("SQUARE_KEESU", C::SQUARE_KEESU.items(), "\u{331c}", None),
        ("SQUARE_KORUNA", C::SQUARE_KORUNA.items(), "\u{331d}", None),
        ("SQUARE_KOOPO", C::SQUARE_KOOPO.items(), "\u{331e}", None),
        ("SQUARE_SAIKURU", C::SQUARE_SAIKURU.items(), "\u{331f}", None),
        ("SQUARE_SANTIIMU", C::SQUARE_SANTIIMU.items(), "\u{3320}", None),
        ("SQUARE_SIRINGU", C::SQUARE_SIRINGU.items(), "\u{3321}", None),
        ("SQUARE_SENTI", C::SQUARE_SENTI.items(), "\u{3322}", None),
        ("SQUARE_SENTO", C::SQUARE_SENTO.items(), "\u{3323}", None),
        ("SQUARE_DAASU", C::SQUARE_DAASU.items(), "\u{3324}", None),
        ("SQUARE_DESI", C::SQUARE_DESI.items(), "\u{3325}", None),
        ("SQUARE_DORU", C::SQUARE_DORU.items(), "\u{3326}", None),
        ("SQUARE_TON", C::SQUARE_TON.items(), "\u{3327}", None),
        ("SQUARE_NANO", C::SQUARE_NANO.items(), "\u{3328}", None),
        ("SQUARE_NOTTO", C::SQUARE_NOTTO.items(), "\u{3329}", None),
        ("SQUARE_HAITU", C::SQUARE_HAITU.items(), "\u{332a}", None),
        ("SQUARE_PAASENTO", C::SQUARE_PAASENTO.items(), "\u{332b}", None),
        ("SQUARE_PAATU", C::SQUARE_PAATU.items(), "\u{332c}", None),
        ("SQUARE_BAARERU", C::SQUARE_BAARERU.items(), "\u{332d}", None),
        ("SQUARE_PIASUTORU", C::SQUARE_PIASUTORU.items(), "\u{332e}", None),
        ("SQUARE_PIKURU", C::SQUARE_PIKURU.items(), "\u{332f}", None),
        ("SQUARE_PIKO", C::SQUARE_PIKO.items(), "\u{3330}", None),
        ("SQUARE_BIRU", C::SQUARE_BIRU.items(), "\u{3331}", None),
        ("SQUARE_HUARADDO", C::SQUARE_HUARADDO.items(), "\u{3332}", None),
        ("SQUARE_HUIITO", C::SQUARE_HUIITO.items(), "\u{3333}", None),
        ("SQUARE_BUSSYERU", C::SQUARE_BUSSYERU.items(), "\u{3334}", None),
        ("SQUARE_HURAN", C::SQUARE_HURAN.items(), "\u{3335}", None),
        ("SQUARE_HEKUTAARU", C::SQUARE_HEKUTAARU.items(), "\u{3336}", None),
        ("SQUARE_PESO", C::SQUARE_PESO.items(), "\u{3337}", None),
        ("SQUARE_PENIHI", C::SQUARE_PENIHI.items(), "\u{3338}", None),
        ("SQUARE_HERUTU", C::SQUARE_HERUTU.items(), "\u{3339}", None),
        ("SQUARE_PENSU", C::SQUARE_PENSU.items(), "\u{333a}", None),
        ("SQUARE_PEEZI", C::SQUARE_PEEZI.items(), "\u{333b}", None),
        ("SQUARE_BEETA", C::SQUARE_BEETA.items(), "\u{333c}", None),
        ("SQUARE_POINTO", C::SQUARE_POINTO.items(), "\u{333d}", None),
        ("SQUARE_BORUTO", C::SQUARE_BORUTO.items(), "\u{333e}", None),
        ("SQUARE_HON", C::SQUARE_HON.items(), "\u{333f}", None),
        ("SQUARE_PONDO", C::SQUARE_PONDO.items(), "\u{3340}", None),
        ("SQUARE_HOORU", C::SQUARE_HOORU.items(), "\u{3341}", None),
        ("SQUARE_HOON", C::SQUARE_HOON.items(), "\u{3342}", None),
        ("SQUARE_MAIKURO", C::SQUARE_MAIKURO.items(), "\u{3343}", None),
        ("SQUARE_MAIRU", C::SQUARE_MAIRU.items(), "\u{3344}", None),
        ("SQUARE_MAHHA", C::SQUARE_MAHHA.items(), "\u{3345}", None),
        ("SQUARE_MARUKU", C::SQUARE_MARUKU.items(), "\u{3346}", None),
        ("SQUARE_MANSYON", C::SQUARE_MANSYON.items(), "\u{3347}", None),
        ("SQUARE_MIKURON", C::SQUARE_MIKURON.items(), "\u{3348}", None),
        ("SQUARE_MIRI", C::SQUARE_MIRI.items(), "\u{3349}", None),
        ("SQUARE_MIRIBAARU", C::SQUARE_MIRIBAARU.items(), "\u{334a}", None),
        ("SQUARE_MEGA", C::SQUARE_MEGA.items(), "\u{334b}", None),
        ("SQUARE_MEGATON", C::SQUARE_MEGATON.items(), "\u{334c}", None),
        ("SQUARE_MEETORU", C::SQUARE_MEETORU.items(), "\u{334d}", None),
        ("SQUARE_YAADO", C::SQUARE_YAADO.items(), "\u{334e}", None),
        ("SQUARE_YAARU", C::SQUARE_YAARU.items(), "\u{334f}", None),
        ("SQUARE_YUAN", C::SQUARE_YUAN.items(), "\u{3350}", None),
        ("SQUARE_RITTORU", C::SQUARE_RITTORU.items(), "\u{3351}", None),
        ("SQUARE_RIRA", C::SQUARE_RIRA.items(), "\u{3352}", None),
        ("SQUARE_RUPII", C::SQUARE_RUPII.items(), "\u{3353}", None),
        ("SQUARE_RUUBURU", C::SQUARE_RUUBURU.items(), "\u{3354}", None),
        ("SQUARE_REMU", C::SQUARE_REMU.items(), "\u{3355}", None),
        ("SQUARE_RENTOGEN", C::SQUARE_RENTOGEN.items(), "\u{3356}", None),
        ("SQUARE_WATTO", C::SQUARE_WATTO.items(), "\u{3357}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO.items(), "\u{3358}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE.items(), "\u{3359}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO.items(), "\u{335a}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE.items(), "\u{335b}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR.items(), "\u{335c}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE.items(), "\u{335d}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX.items(), "\u{335e}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN.items(), "\u{335f}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT.items(), "\u{3360}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE.items(), "\u{3361}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN.items(), "\u{3362}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN.items(), "\u{3363}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE.items(), "\u{3364}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN.items(), "\u{3365}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN.items(), "\u{3366}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN.items(), "\u{3367}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN.items(), "\u{3368}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN.items(), "\u{3369}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN.items(), "\u{336a}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN.items(), "\u{336b}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY.items(), "\u{336c}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE.items(), "\u{336d}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO.items(), "\u{336e}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE.items(), "\u{336f}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR.items(), "\u{3370}", None),
        ("SQUARE_HPA", C::SQUARE_HPA.items(), "\u{3371}", None),
        ("SQUARE_DA", C::SQUARE_DA.items(), "\u{3372}", None),
        ("SQUARE_AU", C::SQUARE_AU.items(), "\u{3373}", None),
        ("SQUARE_BAR", C::SQUARE_BAR.items(), "\u{3374}", None),
        ("SQUARE_OV", C::SQUARE_OV.items(), "\u{3375}", None),
        ("SQUARE_PC", C::SQUARE_PC.items(), "\u{3376}", None),
        ("SQUARE_DM", C::SQUARE_DM.items(), "\u{3377}", None),
        ("SQUARE_DM_SQUARED", C::SQUARE_DM_SQUARED.items(), "\u{3378}", None),
        ("SQUARE_DM_CUBED", C::SQUARE_DM_CUBED.items(), "\u{3379}", None),
        ("SQUARE_IU", C::SQUARE_IU.items(), "\u{337a}", None),
        ("SQUARE_ERA_NAME_HEISEI", C::SQUARE_ERA_NAME_HEISEI.items(), "\u{337b}", None),
        ("SQUARE_ERA_NAME_SYOUWA", C::SQUARE_ERA_NAME_SYOUWA.items(), "\u{337c}", None),
        ("SQUARE_ERA_NAME_TAISYOU", C::SQUARE_ERA_NAME_TAISYOU.items(), "\u{337d}", None),
        ("SQUARE_ERA_NAME_MEIZI", C::SQUARE_ERA_NAME_MEIZI.items(), "\u{337e}", None),
        ("SQUARE_CORPORATION", C::SQUARE_CORPORATION.items(), "\u{337f}", None),
        ("SQUARE_PA_AMPS", C::SQUARE_PA_AMPS.items(), "\u{3380}", None),
        ("SQUARE_NA", C::SQUARE_NA.items(), "\u{3381}", None),
        ("SQUARE_MU_A", C::SQUARE_MU_A.items(), "\u{3382}", None),
        ("SQUARE_MA", C::SQUARE_MA.items(), "\u{3383}", None),
        ("SQUARE_KA", C::SQUARE_KA.items(), "\u{3384}", None),
        ("SQUARE_KB", C::SQUARE_KB.items(), "\u{3385}", None),
        ("SQUARE_MB", C::SQUARE_MB.items(), "\u{3386}", None),
        ("SQUARE_GB", C::SQUARE_GB.items(), "\u{3387}", None),
        ("SQUARE_CAL", C::SQUARE_CAL.items(), "\u{3388}", None),
        ("SQUARE_KCAL", C::SQUARE_KCAL.items(), "\u{3389}", None),
        ("SQUARE_PF", C::SQUARE_PF.items(), "\u{338a}", None),
        ("SQUARE_NF", C::SQUARE_NF.items(), "\u{338b}", None),
        ("SQUARE_MU_F", C::SQUARE_MU_F.items(), "\u{338c}", None),
        ("SQUARE_MU_G", C::SQUARE_MU_G.items(), "\u{338d}", None),
        ("SQUARE_MG", C::SQUARE_MG.items(), "\u{338e}", None),
        ("SQUARE_KG", C::SQUARE_KG.items(), "\u{338f}", None),
        ("SQUARE_HZ", C::SQUARE_HZ.items(), "\u{3390}", None),
        ("SQUARE_KHZ", C::SQUARE_KHZ.items(), "\u{3391}", None),
        ("SQUARE_MHZ", C::SQUARE_MHZ.items(), "\u{3392}", None),
        ("SQUARE_GHZ", C::SQUARE_GHZ.items(), "\u{3393}", None),
        ("SQUARE_THZ", C::SQUARE_THZ.items(), "\u{3394}", None),
        ("SQUARE_MU_L", C::SQUARE_MU_L.items(), "\u{3395}", None),
        ("SQUARE_ML", C::SQUARE_ML.items(), "\u{3396}", None),
        ("SQUARE_DL", C::SQUARE_DL.items(), "\u{3397}", None),
        ("SQUARE_KL", C::SQUARE_KL.items(), "\u{3398}", None),
        ("SQUARE_FM", C::SQUARE_FM.items(), "\u{3399}", None),
        ("SQUARE_NM", C::SQUARE_NM.items(), "\u{339a}", None),
        ("SQUARE_MU_M", C::SQUARE_MU_M.items(), "\u{339b}", None),
        ("SQUARE_MM", C::SQUARE_MM.items(), "\u{339c}", None),
        ("SQUARE_CM", C::SQUARE_CM.items(), "\u{339d}", None),
        ("SQUARE_KM", C::SQUARE_KM.items(), "\u{339e}", None),
        ("SQUARE_MM_SQUARED", C::SQUARE_MM_SQUARED.items(), "\u{339f}", None),
        ("SQUARE_CM_SQUARED", C::SQUARE_CM_SQUARED.items(), "\u{33a0}", None),
        ("SQUARE_M_SQUARED", C::SQUARE_M_SQUARED.items(), "\u{33a1}", None),
        ("SQUARE_KM_SQUARED", C::SQUARE_KM_SQUARED.items(), "\u{33a2}", None),
        ("SQUARE_MM_CUBED", C::SQUARE_MM_CUBED.items(), "\u{33a3}", None),
        ("SQUARE_CM_CUBED", C::SQUARE_CM_CUBED.items(), "\u{33a4}", None),
        ("SQUARE_M_CUBED", C::SQUARE_M_CUBED.items(), "\u{33a5}", None),
        ("SQUARE_KM_CUBED", C::SQUARE_KM_CUBED.items(), "\u{33a6}", None),
        ("SQUARE_M_OVER_S", C::SQUARE_M_OVER_S.items(), "\u{33a7}", None),
        ("SQUARE_M_OVER_S_SQUARED", C::SQUARE_M_OVER_S_SQUARED.items(), "\u{33a8}", None),
        ("SQUARE_PA", C::SQUARE_PA.items(), "\u{33a9}", None),
        ("SQUARE_KPA", C::SQUARE_KPA.items(), "\u{33aa}", None),
        ("SQUARE_MPA", C::SQUARE_MPA.items(), "\u{33ab}", None),
        ("SQUARE_GPA", C::SQUARE_GPA.items(), "\u{33ac}", None),
        ("SQUARE_RAD", C::SQUARE_RAD.items(), "\u{33ad}", None),
        ("SQUARE_RAD_OVER_S", C::SQUARE_RAD_OVER_S.items(), "\u{33ae}", None),
        ("SQUARE_RAD_OVER_S_SQUARED", C::SQUARE_RAD_OVER_S_SQUARED.items(), "\u{33af}", None),
        ("SQUARE_PS", C::SQUARE_PS.items(), "\u{33b0}", None),
        ("SQUARE_NS", C::SQUARE_NS.items(), "\u{33b1}", None),
        ("SQUARE_MU_S", C::SQUARE_MU_S.items(), "\u{33b2}", None),
        ("SQUARE_MS", C::SQUARE_MS.items(), "\u{33b3}", None),
        ("SQUARE_PV", C::SQUARE_PV.items(), "\u{33b4}", None),
        ("SQUARE_NV", C::SQUARE_NV.items(), "\u{33b5}", None),
        ("SQUARE_MU_V", C::SQUARE_MU_V.items(), "\u{33b6}", None),
        ("SQUARE_MV", C::SQUARE_MV.items(), "\u{33b7}", None),
        ("SQUARE_KV", C::SQUARE_KV.items(), "\u{33b8}", None),
        ("SQUARE_MV_MEGA", C::SQUARE_MV_MEGA.items(), "\u{33b9}", None),
        ("SQUARE_PW", C::SQUARE_PW.items(), "\u{33ba}", None),
        ("SQUARE_NW", C::SQUARE_NW.items(), "\u{33bb}", None),
        ("SQUARE_MU_W", C::SQUARE_MU_W.items(), "\u{33bc}", None),
        ("SQUARE_MW", C::SQUARE_MW.items(), "\u{33bd}", None),
        ("SQUARE_KW", C::SQUARE_KW.items(), "\u{33be}", None),
        ("SQUARE_MW_MEGA", C::SQUARE_MW_MEGA.items(), "\u{33bf}", None),
        ("SQUARE_K_OHM", C::SQUARE_K_OHM.items(), "\u{33c0}", None),
        ("SQUARE_M_OHM", C::SQUARE_M_OHM.items(), "\u{33c1}", None),
        ("SQUARE_AM", C::SQUARE_AM.items(), "\u{33c2}", None),
        ("SQUARE_BQ", C::SQUARE_BQ.items(), "\u{33c3}", None),
        ("SQUARE_CC", C::SQUARE_CC.items(), "\u{33c4}", None),
        ("SQUARE_CD", C::SQUARE_CD.items(), "\u{33c5}", None),
        ("SQUARE_C_OVER_KG", C::SQUARE_C_OVER_KG.items(), "\u{33c6}", None),
        ("SQUARE_CO", C::SQUARE_CO.items(), "\u{33c7}", None),
        ("SQUARE_DB", C::SQUARE_DB.items(), "\u{33c8}", None),
        ("SQUARE_GY", C::SQUARE_GY.items(), "\u{33c9}", None),
        ("SQUARE_HA", C::SQUARE_HA.items(), "\u{33ca}", None),
        ("SQUARE_HP", C::SQUARE_HP.items(), "\u{33cb}", None),
        ("SQUARE_IN", C::SQUARE_IN.items(), "\u{33cc}", None),
        ("SQUARE_KK", C::SQUARE_KK.items(), "\u{33cd}", None),
        ("SQUARE_KM_CAPITAL", C::SQUARE_KM_CAPITAL.items(), "\u{33ce}", None),
        ("SQUARE_KT", C::SQUARE_KT.items(), "\u{33cf}", None),
        ("SQUARE_LM", C::SQUARE_LM.items(), "\u{33d0}", None),
        ("SQUARE_LN", C::SQUARE_LN.items(), "\u{33d1}", None),
        ("SQUARE_LOG", C::SQUARE_LOG.items(), "\u{33d2}", None),
        ("SQUARE_LX", C::SQUARE_LX.items(), "\u{33d3}", None),
        ("SQUARE_MB_SMALL", C::SQUARE_MB_SMALL.items(), "\u{33d4}", None),
        ("SQUARE_MIL", C::SQUARE_MIL.items(), "\u{33d5}", None),
        ("SQUARE_MOL", C::SQUARE_MOL.items(), "\u{33d6}", None),
        ("SQUARE_PH", C::SQUARE_PH.items(), "\u{33d7}", None),
        ("SQUARE_PM", C::SQUARE_PM.items(), "\u{33d8}", None),
        ("SQUARE_PPM", C::SQUARE_PPM.items(), "\u{33d9}", None),
        ("SQUARE_PR", C::SQUARE_PR.items(), "\u{33da}", None),
        ("SQUARE_SR", C::SQUARE_SR.items(), "\u{33db}", None),
        ("SQUARE_SV", C::SQUARE_SV.items(), "\u{33dc}", None),
        ("SQUARE_WB", C::SQUARE_WB.items(), "\u{33dd}", None),
        ("SQUARE_V_OVER_M", C::SQUARE_V_OVER_M.items(), "\u{33de}", None),
        ("SQUARE_A_OVER_M", C::SQUARE_A_OVER_M.items(), "\u{33df}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE.items(), "\u{33e0}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO.items(), "\u{33e1}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE.items(), "\u{33e2}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR.items(), "\u{33e3}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE.items(), "\u{33e4}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX.items(), "\u{33e5}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN.items(), "\u{33e6}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT.items(), "\u{33e7}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE.items(), "\u{33e8}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN.items(), "\u{33e9}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN.items(), "\u{33ea}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE.items(), "\u{33eb}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN.items(), "\u{33ec}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN.items(), "\u{33ed}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN.items(), "\u{33ee}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN.items(), "\u{33ef}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN.items(), "\u{33f0}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN.items(), "\u{33f1}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN.items(), "\u{33f2}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY.items(), "\u{33f3}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE.items(), "\u{33f4}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO.items(), "\u{33f5}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE.items(), "\u{33f6}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR.items(), "\u{33f7}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE.items(), "\u{33f8}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX.items(), "\u{33f9}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN.items(), "\u{33fa}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT.items(), "\u{33fb}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE.items(), "\u{33fc}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY.items(), "\u{33fd}", None),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE", C::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE.items(), "\u{33fe}", None),
        ("SQUARE_GAL", C::SQUARE_GAL.items(), "\u{33ff}", None),
    ]
}
