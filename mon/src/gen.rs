//! Workload generators: realistic, hostile and boundary-sized words, texts, names.

use crate::harvest::{self, Lits};
use crate::spec;
use crate::util::Rng;
use std::collections::BTreeSet;
use std::path::Path;

pub struct Gen {
    /// (code, words of the corpus, stop words)
    corpus: Vec<(&'static str, Vec<String>, Vec<String>)>,
    pub novel: Lits,
    pub base: Lits,
    novel_strs: Vec<String>,
    novel_chars: Vec<char>,
    pub novel_ints: Vec<u64>,
    base_strs: Vec<String>,
    base_chars: Vec<char>,
}

macro_rules! corp {
    ($($c:literal),+) => { &[$(($c, include_str!(concat!("../data/", $c, ".in.txt")))),+] };
}
static CORPORA: &[(&str, &str)] = corp!("en", "ar", "da", "de", "du", "es", "fi", "fr", "hu", "it", "ja", "ko", "no", "pt", "ro", "ru", "sv", "tr", "zh");

pub const BOUND: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 26, 27, 29, 30, 31, 32, 33, 34, 39, 40, 41, 42, 47, 48, 49, 50, 51,
    59, 60, 61, 63, 64, 65, 66, 71, 72, 73, 79, 80, 81, 95, 96, 97, 99, 100, 101, 119, 120, 121, 126, 127, 128, 129, 130, 149, 150, 151, 191, 192, 193, 199, 200, 201,
    223, 224, 225, 249, 250, 251, 253, 254, 255, 256, 257, 258,
];
pub const BIG: &[usize] = &[
    260, 299, 300, 301, 319, 320, 321, 383, 384, 385, 399, 400, 401, 499, 500, 501, 510, 511, 512, 513, 514, 639, 640, 641, 767, 768, 769, 999, 1000, 1001, 1022,
    1023, 1024, 1025, 1026, 1499, 1500, 1501, 1535, 1536, 1537, 1999, 2000, 2001, 2047, 2048, 2049,
];
pub const HUGE: &[usize] = &[4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537];

const EN_SUFFIX: &[&str] = &[
    "s", "ss", "es", "sses", "ies", "ied", "ed", "eed", "ing", "at", "ated", "ating", "bl", "bled", "bling", "iz", "ized", "izing", "y", "yy", "i", "ational", "tional", "enci",
    "anci", "izer", "bli", "abli", "alli", "entli", "eli", "ousli", "ization", "ation", "ator", "alism", "iveness", "fulness", "ousness", "aliti", "iviti", "biliti", "logi",
    "icate", "ative", "alize", "iciti", "ical", "ful", "ness", "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ion", "sion", "tion", "ou", "ism",
    "ate", "iti", "ous", "ive", "ize", "e", "le", "ll", "lle", "ality", "ivity", "bility", "ency", "ancy", "ably", "ally", "ently", "ely", "ously", "ology", "icity", "ying", "yed", "zz", "zzed",
    "lled", "ssing", "nned", "wing", "xed", "yes", "'s", "s's",
];
const EN_STEM: &[&str] = &[
    "", "a", "b", "e", "y", "ab", "ba", "be", "by", "ya", "yo", "oy", "st", "str", "tr", "tree", "rel", "relat", "condit", "ration", "val", "hesit", "digit", "conform", "radic", "differ",
    "vil", "analog", "vietnam", "predic", "oper", "feud", "decis", "hope", "callous", "formal", "sensit", "sens", "triplic", "form", "electr", "hop", "good", "reviv", "allow", "infer",
    "airlin", "gyroscop", "adjust", "defens", "irrit", "replac", "depend", "adopt", "commun", "activ", "angular", "homolog", "effect", "bowdler", "probat", "r", "ceas", "contr", "rol",
    "roll", "hiss", "fizz", "fail", "fil", "tann", "fall", "motor", "plaster", "bled", "sing", "caress", "pon", "ti", "cat", "fe", "agre", "happ", "sk", "yell", "syzyg", "gypsy", "rhythm",
    "cwm", "tsk", "zzz", "aaa", "eio", "ouu", "yyy", "ayb", "byb", "yby", "beyy", "sayy", "wxw", "boxx", "snow", "tray",
];
const PUNCT: &[&str] = &[
    ".", ",", "!", "?", ":", ";", "'", "\"", "(", ")", "[", "]", "{", "}", "<", ">", "/", "\\", "|", "@", "#", "$", "%", "^", "&", "*", "+", "=", "~", "`", "…", "“", "”", "‘", "’", "«",
    "»", "„", "–", "—", "―", "·", "•", "¡", "¿", "§", "©", "™", "€", "、", "。", "！", "？", "「", "」", "・", "،", "؟", "\u{200b}", "\u{200d}", "\u{ad}", "\u{301}", "\u{fe0f}", "_", "__", "‐", "‑", "−", "0", "9", "١",
    "²", "½", "😀", "🇩🇪", "٪", "\u{0}", "\u{7f}", "\u{1b}", "ª", "º", "ʰ", "ー",
];
const SEPS: &[&str] = &[
    " ", " ", " ", " ", " ", "  ", "\n", "\t", "\r\n", "-", " - ", "--", "\u{a0}", "\u{3000}", "\u{2028}", "\u{2029}", "\u{2003}", "\u{b}", "\u{c}", "\u{1680}", "\u{2000}", "\u{200a}",
    "\u{202f}", "\u{205f}", "\u{feff}", "\u{85}", "\u{1c}", "\u{1f}", " -", "- ", "\n\n\t ",
];
const SPECIAL: &[&str] = &[
    "İ", "İSTANBUL", "ISPARTA", "ıI", "ẞ", "STRAẞE", "ǅ", "Ǆ", "ΌΔΟΣ", "ΣΣ", "ΑΣ'Β", "ﬁ", "ﬂuß", "K", "Å", "Ω", "ŉ", "ǰ", "ΐ", "ᾳ", "ᾼ", "i̇", "I\u{307}", "J\u{301}", "é", "e\u{301}",
    "ﬃ", "ſ", "ſtop", "Ａ", "ａｂｃ", "１２３", "ⅷ", "Ⅷ", "Ⓐ", "ⓐ", "𝔘𝔫", "𐐀", "𐐨𐐀", "😀", "👩‍👩‍👧", "𠮷野家", "𝒳ing", "\u{10ffff}", "\u{fffd}", "\u{0}", "\u{200b}", "\u{200e}", "\u{202e}abc", "ʼn", "don't", "can't", "l'été",
    "o'clock", "rock'n'roll", "naïve", "façade", "coöperate", "Ĳssel", "ĳs", "ﷺ", "لأ", "آأإٱى", "مُحَمَّد", "ـــ", "كتـــاب", "שָׁלוֹם", "हिन्दी", "ไทย", "한국어", "ㅎㅏㄴ", "ｶﾀｶﾅ", "カタカナ", "ひらがな", "々", "〆切", "〇", "中国人民", "日本語",
    "ё", "Ё", "щи", "Іван", "ґ", "ѐ", "Ѣ", "ꙋ", "ѕ", "С", "cос", "a_b", "_", "__init__", "x86_64", "3.14", "1,000", "C++", "c#", "www.example.com", "a@b.co", "http://x.y/z?q=1", "sses", "ies", "ion", "eing", "aतed", "eed", "yyy",
    "tss", "ying", "__proto__", "constructor", "toString", "hasOwnProperty", "docs", "df", "tf", "root", "undefined", "null", "NaN", "true", "id", "length",
];

/// Ranges a random character is drawn from.
pub const BLOCKS: &[(u32, u32)] = &[
    (0x61, 0x7a), (0x41, 0x5a), (0x30, 0x39), (0x20, 0x7e), (0x00, 0x7f), (0xa0, 0xff), (0x100, 0x17f), (0x180, 0x24f), (0x250, 0x2af), (0x2b0, 0x2ff), (0x300, 0x36f), (0x370, 0x3ff),
    (0x400, 0x4ff), (0x500, 0x52f), (0x531, 0x589), (0x5d0, 0x5f4), (0x600, 0x6ff), (0x750, 0x77f), (0x900, 0x97f), (0xe00, 0xe7f), (0x10a0, 0x10ff), (0x1100, 0x11ff), (0x13a0, 0x13ff),
    (0x1c80, 0x1c8f), (0x1d00, 0x1dbf), (0x1e00, 0x1eff), (0x1f00, 0x1fff), (0x2000, 0x206f), (0x2070, 0x209f), (0x2100, 0x218f), (0x2460, 0x24ff), (0x2c00, 0x2c7f), (0x2de0, 0x2dff),
    (0x3000, 0x303f), (0x3040, 0x30ff), (0x3130, 0x318f), (0x3400, 0x34ff), (0x4e00, 0x9fff), (0xa640, 0xa69f), (0xa720, 0xa7ff), (0xab30, 0xab6f), (0xac00, 0xd7a3), (0xe000, 0xe0ff),
    (0xf900, 0xfaff), (0xfb00, 0xfb4f), (0xfb50, 0xfdff), (0xfe70, 0xfeff), (0xff00, 0xffef), (0xfff0, 0xffff), (0x10000, 0x1007f), (0x10400, 0x1044f), (0x10780, 0x107bf), (0x1d400, 0x1d4ff),
    (0x1df00, 0x1dfff), (0x1e900, 0x1e94b), (0x1f300, 0x1f6ff), (0x20000, 0x200ff), (0x2f800, 0x2f8ff), (0xe0000, 0xe007f), (0x10ff00, 0x10ffff), (0, 0xffff), (0, 0x10ffff),
];

fn script_blocks(code: &str) -> &'static [(u32, u32)] {
    match code {
        "ar" => &[(0x621, 0x64a), (0x64b, 0x65b), (0x622, 0x627), (0x640, 0x640), (0x600, 0x6ff), (0x649, 0x671)],
        "ru" => &[(0x430, 0x44f), (0x430, 0x44f), (0x410, 0x42f), (0x400, 0x4ff), (0x500, 0x52f), (0x1c80, 0x1c88), (0x2de0, 0x2dff), (0xa640, 0xa69f)],
        "ko" => &[(0xac00, 0xd7a3), (0x1100, 0x11ff), (0x3131, 0x318e), (0xa960, 0xa97c), (0xd7b0, 0xd7fb), (0xffa0, 0xffdc), (0x302e, 0x302f)],
        "zh" => &[(0x4e00, 0x9fff), (0x4e00, 0x51ff), (0x3400, 0x4dbf), (0x20000, 0x2a6df), (0x3007, 0x3007), (0xf900, 0xfaff)],
        "ja" => &[(0x3041, 0x3096), (0x30a1, 0x30fa), (0x4e00, 0x9fff), (0x3000, 0x303f), (0xff66, 0xff9f), (0x1b000, 0x1b0ff)],
        _ => &[(0x61, 0x7a), (0x61, 0x7a), (0x61, 0x7a), (0xdf, 0xff), (0x100, 0x17f), (0x41, 0x5a), (0x1e00, 0x1eff), (0x250, 0x2af), (0xc0, 0xde)],
    }
}

pub fn rand_char(r: &mut Rng, (a, b): (u32, u32)) -> char {
    loop {
        if let Some(c) = char::from_u32(r.range(a as usize, b as usize) as u32) {
            return c;
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct Opt {
    /// No characters outside the BMP.
    pub bmp: bool,
    /// Allow very long words/texts.
    pub big: bool,
    pub max_word: usize,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { bmp: false, big: true, max_word: 2100 }
    }
}

impl Gen {
    pub fn new(repo_src: &Path) -> Gen {
        let corpus = CORPORA
            .iter()
            .map(|(c, t)| {
                let mut w: BTreeSet<String> = BTreeSet::new();
                for x in t.split(|c: char| c.is_whitespace() || c == '-') {
                    let x = x.trim_matches(|c: char| !c.is_alphanumeric());
                    if !x.is_empty() {
                        w.insert(x.to_string());
                    }
                }
                if *c == "zh" || *c == "ja" {
                    // sub-strings of the running text serve as words
                    let mut extra = vec![];
                    for x in &w {
                        let ch: Vec<char> = x.chars().collect();
                        for i in 0..ch.len() {
                            for n in [1usize, 2, 3, 5] {
                                if i + n <= ch.len() {
                                    extra.push(ch[i..i + n].iter().collect::<String>());
                                }
                            }
                        }
                    }
                    w.extend(extra);
                }
                let st = spec::stops().get(*c).cloned().unwrap_or_default();
                (*c, w.into_iter().collect(), st.into_iter().filter(|s| !s.is_empty()).collect())
            })
            .collect();
        let base = harvest::parse(include_str!("../data/base_literals.txt"));
        let now = harvest::from_tree(repo_src);
        let novel = Lits {
            strs: now.strs.difference(&base.strs).cloned().collect(),
            chars: now.chars.difference(&base.chars).cloned().collect(),
            ints: now.ints.difference(&base.ints).cloned().collect(),
        };
        Gen {
            corpus,
            novel_strs: novel.strs.iter().cloned().collect(),
            novel_chars: novel.chars.iter().cloned().collect(),
            novel_ints: novel.ints.iter().cloned().filter(|x| *x <= 1 << 20).collect(),
            base_strs: base.strs.iter().filter(|s| s.len() <= 40).cloned().collect(),
            base_chars: base.chars.iter().cloned().collect(),
            novel,
            base,
        }
    }

    pub fn describe(&self) -> String {
        format!("dictionary: {} literals of the base tree, {} new ones", self.base.strs.len() + self.base.chars.len() + self.base.ints.len(), self.novel.strs.len() + self.novel.chars.len() + self.novel.ints.len())
    }

    fn lang(&self, code: &str) -> &(&'static str, Vec<String>, Vec<String>) {
        self.corpus.iter().find(|c| c.0 == code).unwrap_or(&self.corpus[0])
    }

    /// A size likely to sit on some boundary.
    pub fn size(&self, r: &mut Rng, max: usize) -> usize {
        for _ in 0..20 {
            let v = if !self.novel_ints.is_empty() && r.chance(1, 5) {
                (*r.pick(&self.novel_ints) as usize + r.below(3)).saturating_sub(1)
            } else {
                match r.below(20) {
                    0..=11 => *r.pick(BOUND),
                    12..=15 => r.below(33),
                    16..=17 => r.below(300),
                    18 => *r.pick(BIG),
                    _ => *r.pick(HUGE),
                }
            };
            if v <= max {
                return v;
            }
        }
        r.below(max.min(40) + 1)
    }

    pub fn corpus_word(&self, r: &mut Rng, code: &str) -> String {
        r.pick(&self.lang(code).1).clone()
    }

    /// A character of the language's script, some block, or a literal of the code.
    pub fn any_char(&self, r: &mut Rng, code: &str, o: Opt) -> char {
        loop {
            let c = if !self.novel_chars.is_empty() && r.chance(1, 12) {
                *r.pick(&self.novel_chars)
            } else {
                match r.below(10) {
                    0..=5 => {
                        let b = *r.pick(script_blocks(code));
                        rand_char(r, b)
                    }
                    6 => *r.pick(&self.base_chars),
                    _ => {
                        let b = *r.pick(BLOCKS);
                        rand_char(r, b)
                    }
                }
            };
            if !o.bmp || (c as u32) < 0x10000 {
                return c;
            }
        }
    }

    fn fix(&self, s: String, o: Opt) -> String {
        if o.bmp && s.chars().any(|c| c as u32 > 0xffff) {
            s.chars().filter(|c| (*c as u32) < 0x10000).collect()
        } else {
            s
        }
    }

    /// One word of some kind for `code` (may contain anything except, mostly, separators).
    pub fn word(&self, r: &mut Rng, code: &str, o: Opt) -> String {
        let l = self.lang(code);
        if !self.novel_strs.is_empty() && r.chance(1, 15) {
            let mut s = r.pick(&self.novel_strs).clone();
            match r.below(6) {
                0 => s = format!("{}{}", self.corpus_word(r, code), s),
                1 => s = format!("{}{}", s, self.corpus_word(r, code)),
                2 => s.push(self.any_char(r, code, o)),
                3 => s = s.to_uppercase(),
                _ => {}
            }
            return self.fix(s, o);
        }
        let w = match r.below(40) {
            0..=9 => self.corpus_word(r, code),
            10..=12 => {
                if l.2.is_empty() {
                    self.corpus_word(r, code)
                } else {
                    r.pick(&l.2).clone()
                }
            }
            13..=15 => {
                // recombine a prefix and a suffix
                let a: Vec<char> = self.corpus_word(r, code).chars().collect();
                let b: Vec<char> = self.corpus_word(r, code).chars().collect();
                let i = r.range(0, a.len());
                let j = r.below(b.len());
                a[..i].iter().chain(b[j..].iter()).collect()
            }
            16..=19 => {
                // mutate
                let src = if r.chance(1, 4) && !l.2.is_empty() { r.pick(&l.2).clone() } else { self.corpus_word(r, code) };
                let mut c: Vec<char> = src.chars().collect();
                for _ in 0..r.range(1, 2) {
                    let p = r.below(c.len() + 1);
                    match r.below(5) {
                        0 => c.insert(p, self.any_char(r, code, o)),
                        1 if p < c.len() => {
                            c.remove(p);
                        }
                        2 if p < c.len() => c[p] = self.any_char(r, code, o),
                        3 if p < c.len() => {
                            let x = c[p];
                            c.insert(p, x);
                        }
                        _ if p + 1 < c.len() => c.swap(p, p + 1),
                        _ => {}
                    }
                }
                c.into_iter().collect()
            }
            20..=25 if code == "en" => {
                let mut s = String::new();
                if r.chance(1, 6) {
                    s += *r.pick(&["un", "y", "é", "ж", "中", "z", "9", "_", "re"]);
                }
                s += *r.pick(EN_STEM);
                for _ in 0..r.weighted(&[1, 8, 4, 1]) {
                    s += *r.pick(EN_SUFFIX);
                }
                s
            }
            20..=22 => {
                // corpus word plus the tail of another: exercises suffix strippers
                let a = self.corpus_word(r, code);
                let b: Vec<char> = self.corpus_word(r, code).chars().collect();
                let n = r.range(0, b.len().min(5));
                format!("{}{}", a, b[b.len() - n..].iter().collect::<String>())
            }
            23..=25 => {
                let n = r.range(1, 12);
                let bl = script_blocks(code);
                (0..n)
                    .map(|_| {
                        let b = *r.pick(bl);
                        rand_char(r, b)
                    })
                    .collect()
            }
            26..=28 => {
                let n = r.range(1, 8);
                (0..n).map(|_| self.any_char(r, code, o)).collect()
            }
            29 => {
                let b = *r.pick(BLOCKS);
                let n = r.range(1, 6);
                (0..n).map(|_| rand_char(r, b)).collect()
            }
            30..=31 => r.pick(SPECIAL).to_string(),
            32 => {
                // two-letter alphabet words: doubled letters, vowels, y-runs
                let alpha = *r.pick(&["ay", "by", "aby", "ei", "stz", "lle", "abc", "yyi", "sei", "edins"]);
                let al: Vec<char> = alpha.chars().collect();
                let n = r.range(1, 10);
                (0..n).map(|_| *r.pick(&al)).collect()
            }
            33 => r.pick(&self.base_strs).clone(),
            34 => {
                let n = self.size(r, if o.big { o.max_word } else { 40 });
                let c = if r.chance(1, 3) { *r.pick(&['y', 'a', 's', 'e', 'l', 'é', 'я']) } else { self.any_char(r, code, o) };
                std::iter::repeat(c).take(n).collect()
            }
            35 => {
                // a long word of exact size in bytes or characters
                let n = self.size(r, if o.big { o.max_word } else { 60 });
                let mut s = String::new();
                let by_bytes = r.chance(1, 2);
                let mut guard = 0;
                while (if by_bytes { s.len() } else { s.chars().count() }) < n && guard < 5000 {
                    guard += 1;
                    s += &self.corpus_word(r, code);
                }
                if by_bytes {
                    let mut n = n.min(s.len());
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                } else {
                    s = s.chars().take(n).collect();
                }
                s
            }
            36 => {
                let n = r.range(1, 6);
                (0..n).map(|_| *r.pick(&['0', '1', '9', '_', 'a', 'z', '.', ','])).collect()
            }
            37 => {
                // words of another language
                let c = *r.pick(&["en", "ar", "de", "fr", "ru", "tr", "hu", "ko", "zh", "ja", "fi", "ro"]);
                self.corpus_word(r, c)
            }
            38 => {
                let a = self.corpus_word(r, code);
                let b = self.corpus_word(r, code);
                format!("{}{}{}", a, r.pick(PUNCT), b)
            }
            _ => {
                if l.2.is_empty() {
                    r.pick(SPECIAL).to_string()
                } else {
                    let s = r.pick(&l.2).clone();
                    format!("{}{}", s, self.any_char(r, code, o))
                }
            }
        };
        self.fix(w, o)
    }

    /// A word in some letter case, possibly wrapped in punctuation.
    pub fn decorated(&self, r: &mut Rng, code: &str, o: Opt) -> String {
        let mut w = self.word(r, code, o);
        match r.below(12) {
            0 => w = w.to_uppercase(),
            1 => {
                let mut c = w.chars();
                if let Some(f) = c.next() {
                    w = f.to_uppercase().chain(c).collect();
                }
            }
            2 => {
                w = w
                    .chars()
                    .flat_map(|c| {
                        let u: Vec<char> = if r.chance(1, 2) { c.to_uppercase().collect() } else { vec![c] };
                        u
                    })
                    .collect()
            }
            _ => {}
        }
        if r.chance(1, 4) {
            w = self.wrap(r, &w, o);
        }
        self.fix(w, o)
    }

    pub fn wrap(&self, r: &mut Rng, w: &str, o: Opt) -> String {
        let mut a = String::new();
        let mut b = String::new();
        for _ in 0..r.weighted(&[3, 5, 2, 1]) {
            a += *r.pick(PUNCT);
        }
        for _ in 0..r.weighted(&[2, 6, 2, 1]) {
            b += *r.pick(PUNCT);
        }
        self.fix(format!("{}{}{}", a, w, b), o)
    }

    pub fn punct(&self, r: &mut Rng) -> &'static str {
        r.pick(PUNCT)
    }

    pub fn sep(&self, r: &mut Rng) -> String {
        if r.chance(1, 3) {
            r.pick(SEPS).to_string()
        } else {
            " ".to_string()
        }
    }

    /// A text of about `n` words from a vocabulary that repeats words.
    pub fn text_n(&self, r: &mut Rng, code: &str, n: usize, o: Opt) -> String {
        let mut vocab: Vec<String> = vec![];
        let vs = match r.below(4) {
            0 => 1 + r.below(3),
            1 => 1 + n / 4,
            _ => n.max(1),
        };
        let mut out = String::new();
        if r.chance(1, 6) {
            out += &self.sep(r);
        }
        for i in 0..n {
            let w = if vocab.len() < vs {
                let c = if r.chance(1, 6) { r.pick(&self.corpus).0 } else { code };
                let w = self.decorated(r, c, o);
                vocab.push(w.clone());
                w
            } else {
                r.pick(&vocab).clone()
            };
            out += &w;
            if i + 1 < n || r.chance(1, 6) {
                if (code == "zh" || code == "ja") && r.chance(2, 3) {
                    if r.chance(1, 3) {
                        out += *r.pick(&["、", "。", "，", "！", "的", "は", "が", "を", "\n"]);
                    }
                } else {
                    out += &self.sep(r);
                }
            }
        }
        out
    }

    /// A text; mostly short, sometimes with many words or many repetitions.
    pub fn text(&self, r: &mut Rng, code: &str, o: Opt) -> String {
        match r.below(40) {
            0 => String::new(),
            1 => {
                let n = r.below(4);
                (0..n).map(|_| self.sep(r)).collect()
            }
            2 => {
                let n = r.below(10);
                (0..n).map(|_| self.any_char(r, code, o)).collect()
            }
            3 => {
                // any characters, separators included
                let n = r.below(60);
                (0..n)
                    .map(|_| if r.chance(1, 5) { r.pick(SEPS).chars().next().unwrap() } else { self.any_char(r, code, o) })
                    .collect()
            }
            4 => self.repeated(r, code, o),
            5..=12 => self.decorated(r, code, o),
            13..=29 => {
                let n = r.range(2, 10);
                self.text_n(r, code, n, o)
            }
            30..=37 => {
                let n = r.range(11, 60);
                self.text_n(r, code, n, o)
            }
            _ => {
                let n = if o.big { self.size(r, 600) } else { 80 };
                self.text_n(r, code, n, Opt { max_word: 60, ..o })
            }
        }
    }

    /// One word many times, with others sprinkled in.
    pub fn repeated(&self, r: &mut Rng, code: &str, o: Opt) -> String {
        let n = self.size(r, if o.big { 1100 } else { 70 });
        let w = if r.chance(2, 3) { self.corpus_word(r, code) } else { self.word(r, code, Opt { max_word: 20, ..o }) };
        let mut out = String::new();
        for _ in 0..n {
            out += &w;
            out.push(' ');
            if r.chance(1, 20) {
                out += &self.corpus_word(r, code);
                out.push('\n');
            }
        }
        self.fix(out, o)
    }

    /// A document reference, field name or other identifier.
    pub fn name(&self, r: &mut Rng, o: Opt) -> String {
        let s = match r.below(24) {
            0..=3 => format!("{}", r.below(40)),
            4..=5 => format!("doc_{}", r.below(30)),
            6 => r.pick(&["title", "body", "breadcrumbs", "id", "ID", "Id", " id", "id ", "url", "text"]).to_string(),
            7 => r.pick(SPECIAL).to_string(),
            8 => self.corpus_word(r, "en"),
            9 => {
                let c = r.pick(&self.corpus).0;
                self.corpus_word(r, c)
            }
            10 => format!("/path/to/{}.html#sec-{}", self.corpus_word(r, "en"), r.below(9)),
            11 => r.pick(&["", " ", "a", "A", "b", "ab", "ba", "aa", "0", "00", "01", "1", "-1", "1.0", "+1", "é", "e\u{301}", "\"", "\\", "\\\"", "\\u0000", "\u{0}", "\n", "\t", "/", "</script>", "\u{2028}", "\u{7f}", "\u{80}", "{}", "[]", ",", ":"]).to_string(),
            12 => r.pick(&["docs", "df", "tf", "root", "docInfo", "length", "save", "documentStore", "index", "fields", "ref", "version", "pipeline", "lang"]).to_string(),
            13 => {
                let n = r.range(1, 5);
                (0..n).map(|_| *r.pick(&['a', 'b', 'A', ' ', '"', '\\', '\u{1}', 'é', '\u{e9}', '中', '.'])).collect()
            }
            14 => {
                let n = self.size(r, 700);
                std::iter::repeat(*r.pick(&['x', 'é', '"', ' ', '/'])).take(n).collect()
            }
            15 => {
                let n = r.range(1, 6);
                (0..n).map(|_| self.any_char(r, "en", o)).collect()
            }
            16 if !self.novel_strs.is_empty() => r.pick(&self.novel_strs).clone(),
            17 => r.pick(&self.base_strs).clone(),
            _ => format!("{}{}", self.corpus_word(r, "en"), r.below(100)),
        };
        self.fix(s, o)
    }

    /// `n` distinct names.
    pub fn names(&self, r: &mut Rng, n: usize, o: Opt) -> Vec<String> {
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        while out.len() < n {
            let mut s = self.name(r, o);
            if !seen.insert(s.clone()) {
                s = format!("{}{}", s, out.len());
                if !seen.insert(s.clone()) {
                    continue;
                }
            }
            out.push(s);
        }
        out
    }

    /// Plain, cheap distinct names.
    pub fn plain_names(&self, n: usize, prefix: &str) -> Vec<String> {
        (0..n).map(|i| format!("{}{}", prefix, i)).collect()
    }

    pub fn any_code(&self, r: &mut Rng) -> &'static str {
        r.pick(&self.corpus).0
    }
}
