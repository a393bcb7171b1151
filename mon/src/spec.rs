//! What the built-in languages are documented to do, written down independently of the
//! sources under test: stage names, word characters, stop words, Snowball algorithms.

use elasticlunr::lang as el;
use elasticlunr::{Language, Pipeline};
use rust_stemmers::{Algorithm, Stemmer};
use std::collections::{BTreeMap, HashSet};
use std::sync::OnceLock;

pub type MakeLang = fn() -> Box<dyn Language>;

pub struct Spec {
    pub code: &'static str,
    pub name: &'static str,
    pub make: MakeLang,
    /// Regex character class of word characters; None: no trimmer.
    pub word: Option<&'static str>,
    pub algo: Option<fn() -> Stemmer>,
    pub stages: &'static [&'static str],
    /// Splits words at white space.
    pub spaced: bool,
}

macro_rules! snow {
    ($code:literal, $name:ident, $cls:expr, $algo:ident, $stages:expr) => {
        Spec {
            code: $code,
            name: stringify!($name),
            make: || Box::new(el::$name::new()),
            word: Some($cls),
            algo: Some(|| Stemmer::create(Algorithm::$algo)),
            stages: $stages,
            spaced: true,
        }
    };
}

pub static SPECS: &[Spec] = &[
    Spec { code: "en", name: "English", make: || Box::new(el::English::new()), word: Some("0-9A-Za-z_"), algo: None, stages: &["trimmer", "stopWordFilter", "stemmer"], spaced: true },
    Spec { code: "ar", name: "Arabic", make: || Box::new(el::Arabic::new()), word: None, algo: None, stages: &["stemmer-ar"], spaced: true },
    snow!("da", Danish, r"\p{Latin}", Danish, &["trimmer-da", "stopWordFilter-da", "stemmer-da"]),
    snow!("du", Dutch, r"\p{Latin}", Dutch, &["trimmer-du", "stopWordFilter-du", "stemmer-du"]),
    snow!("fi", Finnish, r"\p{Latin}", Finnish, &["trimmer-fi", "stopWordFilter-fi", "stemmer-fi"]),
    snow!("fr", French, r"\p{Latin}", French, &["trimmer-fr", "stopWordFilter-fr", "stemmer-fr"]),
    snow!("de", German, r"\p{Latin}", German, &["trimmer-de", "stopWordFilter-de", "stemmer-de"]),
    snow!("hu", Hungarian, r"\p{Latin}", Hungarian, &["trimmer-hu", "stopWordFilter-hu", "stemmer-hu"]),
    snow!("it", Italian, r"\p{Latin}", Italian, &["trimmer-it", "stopWordFilter-it", "stemmer-it"]),
    snow!("no", Norwegian, r"\p{Latin}", Norwegian, &["trimmer-no", "stopWordFilter-no", "stemmer-no"]),
    snow!("pt", Portuguese, r"\p{Latin}", Portuguese, &["trimmer-pt", "stopWordFilter-pt", "stemmer-pt"]),
    snow!("ro", Romanian, r"\p{Latin}", Romanian, &["trimmer-ro", "stopWordFilter-ro", "stemmer-ro"]),
    snow!("ru", Russian, r"\p{Cyrillic}", Russian, &["trimmer-ru", "stopWordFilter-ru", "stemmer-ru"]),
    snow!("es", Spanish, r"\p{Latin}", Spanish, &["trimmer-es", "stopWordFilter-es", "stemmer-es"]),
    snow!("sv", Swedish, r"\p{Latin}", Swedish, &["trimmer-sv", "stopWordFilter-sv", "stemmer-sv"]),
    snow!("tr", Turkish, r"\p{Latin}", Turkish, &["trimmer-tr", "stopWordFilter-tr", "stemmer-tr"]),
    Spec { code: "ko", name: "Korean", make: || Box::new(el::Korean::new()), word: Some(r"\p{Latin}\p{Hangul}"), algo: None, stages: &["trimmer-ko", "stopWordFilter-ko", "stemmer-ko"], spaced: true },
    #[cfg(feature = "cjk")]
    Spec { code: "zh", name: "Chinese", make: || Box::new(el::Chinese::new()), word: Some(r"\p{Unified_Ideograph}\p{Latin}"), algo: None, stages: &["trimmer-zh", "stopWordFilter-zh", "stemmer-zh"], spaced: false },
    #[cfg(feature = "cjk")]
    Spec { code: "ja", name: "Japanese", make: || Box::new(el::Japanese::new()), word: Some(r"0-9A-Za-z\p{Hiragana}\p{Katakana}\p{Unified_Ideograph}"), algo: None, stages: &["trimmer-ja", "stemmer-ja"], spaced: false },
];

pub fn spec(code: &str) -> &'static Spec {
    SPECS.iter().find(|s| s.code == code).unwrap_or_else(|| panic!("no spec for {}", code))
}

pub fn spaced() -> Vec<&'static Spec> {
    SPECS.iter().filter(|s| s.spaced).collect()
}

pub fn stops() -> &'static BTreeMap<String, Vec<String>> {
    static S: OnceLock<BTreeMap<String, Vec<String>>> = OnceLock::new();
    S.get_or_init(|| serde_json::from_str(include_str!("../data/stopwords.json")).unwrap())
}

/// The reference implementation of the stages of one language.
pub struct Golden {
    #[allow(dead_code)]
    pub spec: &'static Spec,
    one: Option<regex::Regex>,
    ascii: Option<bool>,
    pub stop: HashSet<String>,
    stemmer: Option<Stemmer>,
}

impl Golden {
    pub fn new(code: &str) -> Golden {
        let spec = spec(code);
        Golden {
            spec,
            one: spec.word.map(|w| regex::Regex::new(&format!("^[{}]$", w)).unwrap()),
            ascii: if code == "en" { Some(true) } else { None },
            stop: stops().get(code).map(|v| v.iter().cloned().collect()).unwrap_or_default(),
            stemmer: spec.algo.map(|f| f()),
        }
    }
    pub fn is_word(&self, c: char) -> bool {
        if self.ascii.is_some() {
            return c.is_ascii_alphanumeric() || c == '_';
        }
        match &self.one {
            None => true,
            Some(r) => r.is_match(c.encode_utf8(&mut [0; 4])),
        }
    }
    pub fn trim<'a>(&self, t: &'a str) -> &'a str {
        let a = t.char_indices().find(|(_, c)| self.is_word(*c)).map(|(i, _)| i);
        let Some(a) = a else { return "" };
        let b = t.char_indices().rev().find(|(_, c)| self.is_word(*c)).map(|(i, c)| i + c.len_utf8()).unwrap();
        &t[a..b]
    }
    pub fn is_stop(&self, t: &str) -> bool {
        self.stop.contains(t)
    }
    /// Snowball, or identity. English and Arabic are decided elsewhere (node oracles).
    pub fn stem(&self, t: &str) -> String {
        match &self.stemmer {
            Some(s) => s.stem(t).into_owned(),
            None => t.to_string(),
        }
    }
    /// None: dropped.
    pub fn term(&self, raw: &str) -> Option<String> {
        let t = self.trim(raw);
        if t.is_empty() || self.is_stop(t) {
            return None;
        }
        let s = self.stem(t);
        if s.is_empty() {
            None
        } else {
            Some(s)
        }
    }
}

pub fn is_sep(c: char) -> bool {
    // White_Space property, U+FEFF and hyphen-minus, written out.
    matches!(c,
        '\u{9}'..='\u{d}' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}'
        | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}' | '\u{feff}' | '-')
}

pub fn is_white(c: char) -> bool {
    is_sep(c) && c != '-' && c != '\u{feff}'
}

/// The reference white-space tokenizer.
pub fn ref_tokenize(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in text.chars() {
        if is_sep(c) {
            if !cur.is_empty() {
                out.push(cur.to_lowercase());
                cur.clear();
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur.to_lowercase());
    }
    out
}

/// The pipeline applied by the monitor's own loop, stage by stage.
pub fn ref_run(p: &Pipeline, tokens: Vec<String>) -> Vec<String> {
    let mut out = vec![];
    for t in tokens {
        let mut cur = t;
        let mut alive = true;
        for f in p.queue.iter() {
            match f.filter(cur) {
                Some(n) => cur = n,
                None => {
                    alive = false;
                    cur = String::new();
                    break;
                }
            }
        }
        if alive {
            out.push(cur);
        }
    }
    out
}

/// What the documents' texts turn into: the language's tokenizer, then ref_run.
pub fn ref_process(l: &dyn Language, p: &Pipeline, text: &str) -> Vec<String> {
    ref_run(p, l.tokenize(text))
}
