//! C24: looks at the language registry of one feature configuration.
//! regcheck SEED RANDOM_STRINGS. Prints counters; "VIOL ..." and exit 1 when the registry is wrong.

use elasticlunr::lang::{from_code, from_name, languages};
use elasticlunr::Language;
use std::collections::{BTreeMap, BTreeSet};

struct L {
    name: &'static str,
    code: &'static str,
    on: bool,
}

fn table() -> Vec<L> {
    macro_rules! t { ($(($n:expr, $c:tt)),* $(,)?) => { vec![L { name: "English", code: "en", on: true }, $(L { name: $n, code: $c, on: cfg!(feature = $c) }),*] } }
    t![
        ("Arabic", "ar"), ("Chinese", "zh"), ("Danish", "da"), ("Dutch", "du"), ("Finnish", "fi"), ("French", "fr"),
        ("German", "de"), ("Hungarian", "hu"), ("Italian", "it"), ("Japanese", "ja"), ("Korean", "ko"), ("Norwegian", "no"),
        ("Portuguese", "pt"), ("Romanian", "ro"), ("Russian", "ru"), ("Spanish", "es"), ("Swedish", "sv"), ("Turkish", "tr"),
    ]
}

fn fail(m: String) -> ! {
    println!("VIOL {}", m);
    std::process::exit(1)
}

fn cases(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    (0..1u32 << c.len())
        .map(|m| c.iter().enumerate().map(|(i, x)| if m >> i & 1 == 1 { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect())
        .collect()
}

/// What a language does, as far as it tells languages apart.
fn face(l: &dyn Language) -> (String, String, Vec<String>, Vec<String>) {
    let text = "running Häuser's nationale; 'слова' كتابها Größe-árvíztűrő 行きます 我们 공부 the der og och";
    let p = l.make_pipeline();
    let names = p.queue.iter().map(|f| f.name()).collect();
    let out = p.run(l.tokenize(text));
    (l.name(), l.code(), names, out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut x: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1) ^ 0x9e3779b97f4a7c15;
    let nrand: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(20000);
    let mut rnd = move |n: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x.wrapping_mul(0x2545f4914f6cdd1d) >> 33) as usize % n
    };
    let tab = table();
    let on: Vec<&L> = tab.iter().filter(|l| l.on).collect();

    // the list
    let list = languages();
    let mut listed: BTreeMap<(String, String), usize> = BTreeMap::new();
    for l in &list {
        *listed.entry((l.name(), l.code())).or_insert(0) += 1;
    }
    for ((n, c), k) in &listed {
        if *k != 1 {
            fail(format!("{:?}/{:?} is listed {} times", n, c, k));
        }
        if !on.iter().any(|l| l.name == n && l.code == c) {
            fail(format!("{:?}/{:?} is listed, but is not an enabled language with that documented name and code", n, c));
        }
    }
    for l in &on {
        if !listed.contains_key(&(l.name.to_string(), l.code.to_string())) {
            fail(format!("{} ({}) is enabled but not listed", l.name, l.code));
        }
    }

    // looking up what is there
    let mut hits = 0u64;
    let heavy = |c: &str| c == "zh" || c == "ja"; // building an instance loads a dictionary
    for l in &list {
        let f = face(l.as_ref());
        let (n, c) = (l.name(), l.code());
        match from_name(&n) {
            None => fail(format!("from_name({:?}) finds nothing", n)),
            Some(m) => {
                if face(m.as_ref()) != f {
                    fail(format!("from_name({:?}) returns another language: {:?}, listed {:?}", n, face(m.as_ref()), f));
                }
            }
        }
        hits += 1;
        for v in cases(&c) {
            match from_code(&v) {
                None => fail(format!("from_code({:?}) finds nothing", v)),
                Some(m) => {
                    if (m.name(), m.code()) != (n.clone(), c.clone()) || !heavy(&c) && face(m.as_ref()) != f {
                        fail(format!("from_code({:?}) returns another language: {:?}, listed {:?}", v, face(m.as_ref()), f));
                    }
                }
            }
            hits += 1;
        }
    }

    // looking up what is not
    let names: BTreeSet<&str> = on.iter().map(|l| l.name).collect();
    let codes: BTreeSet<&str> = on.iter().map(|l| l.code).collect();
    let mut misses = 0u64;
    let mut seen = BTreeSet::new();
    let mut absent = |s: &str| {
        if !seen.insert(s.to_string()) {
            return;
        }
        if !names.contains(s) {
            if let Some(l) = from_name(s) {
                fail(format!("from_name({:?}) returns {} ({})", s, l.name(), l.code()));
            }
            misses += 1;
        }
        if !codes.contains(s.to_ascii_lowercase().as_str()) {
            if let Some(l) = from_code(s) {
                fail(format!("from_code({:?}) returns {} ({})", s, l.name(), l.code()));
            }
            misses += 1;
        }
    };
    absent("");
    let abc: Vec<char> = ('a'..='z').collect();
    for a in &abc {
        for v in cases(&a.to_string()) {
            absent(&v);
        }
        for b in &abc {
            for v in cases(&format!("{}{}", a, b)) {
                absent(&v);
            }
            for c in &abc {
                absent(&format!("{}{}{}", a, b, c));
            }
        }
    }
    // every pair of a lower-case letter and some other BMP letter that case mapping or folding
    // relates to ASCII, and every printable ASCII pair
    let folds = ['\u{130}', '\u{131}', '\u{17f}', '\u{212a}', '\u{212b}', '\u{df}', '\u{1e9e}', '\u{ff41}', '\u{ff21}', '\u{fb01}', '\u{fb00}', '\u{440}', '\u{430}', '\u{435}', '\u{456}'];
    for a in ' '..='~' {
        for b in ' '..='~' {
            absent(&format!("{}{}", a, b));
        }
        for f in folds {
            for v in [format!("{}{}", a, f), format!("{}{}", f, a)] {
                absent(&v);
            }
        }
    }
    let fw = |s: &str| -> String { s.chars().map(|c| char::from_u32(c as u32 + 0xfee0).unwrap()).collect() };
    let deco = |s: &str| -> Vec<String> {
        let mut v = vec![s.to_string(), s.to_lowercase(), s.to_uppercase(), fw(s), s.chars().rev().collect()];
        for t in [" ", "\u{0}", "\n", "\t", "-", "_", ".", "\u{feff}", "\u{301}", "x", "s", "-US", "_DE", ".utf8", "; q=1", "\u{a0}"] {
            v.push(format!("{}{}", s, t));
            v.push(format!("{}{}", t, s));
            v.push(format!("{}{}{}", t, s, t));
        }
        let c: Vec<char> = s.chars().collect();
        for i in 0..c.len() {
            v.push(c[..i].iter().collect());
            v.push(c[i..].iter().collect());
            let mut d = c.clone();
            d.remove(i);
            v.push(d.iter().collect());
            let mut d = c.clone();
            d[i] = if d[i].is_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() };
            v.push(d.iter().collect());
            let mut d = c.clone();
            d.insert(i, c[i]);
            v.push(d.iter().collect());
            for (a, b) in [('k', '\u{212a}'), ('i', '\u{130}'), ('i', '\u{131}'), ('s', '\u{17f}'), ('a', '\u{430}'), ('e', '\u{435}')] {
                if c[i].to_ascii_lowercase() == a {
                    let mut d = c.clone();
                    d[i] = b;
                    v.push(d.iter().collect());
                }
            }
        }
        v
    };
    for l in &tab {
        for s in [l.name, l.code] {
            for v in deco(s) {
                absent(&v);
                for w in deco(&v) {
                    absent(&w);
                }
            }
        }
        absent(&format!("{}{}", l.code, l.name));
        absent(&format!("{} ({})", l.name, l.code));
    }
    for s in [
        "nl", "nb", "nn", "jp", "cn", "kr", "gr", "el", "he", "hi", "uk", "pl", "cs", "sk", "zh-CN", "zh_TW", "pt-br", "pt-BR", "en-GB", "en_US", "eng", "deu", "ger", "fra", "jpn", "zho", "kor",
        "Deutsch", "français", "Français", "español", "Español", "Nederlands", "Svenska", "русский", "日本語", "中文", "한국어", "العربية", "Türkçe", "Nynorsk", "Bokmål", "Bokmal", "Mandarin", "Castilian",
        "Flemish", "Slovene", "Thai", "Vietnamese", "Hindi", "Greek", "Polish", "Czech", "Hebrew", "Tamil", "Catalan", "Persian", "Armenian", "Sanskrit", "Lang", "Language", "None", "null", "undefined",
        "default", "auto", "C", "POSIX", "en,de", "English,German", "English German", "*", "xx", "und",
    ] {
        absent(s);
    }
    let long = "en".repeat(1 << 20);
    absent(&long);
    for _ in 0..nrand {
        let n = rnd(7);
        let s: String = (0..n)
            .map(|_| match rnd(4) {
                0 => (b'a' + rnd(26) as u8) as char,
                1 => (b'A' + rnd(26) as u8) as char,
                2 => (rnd(128) as u8) as char,
                _ => char::from_u32(rnd(0x3000) as u32).unwrap_or('x'),
            })
            .collect();
        absent(&s);
    }
    println!("OK enabled={} listed={} hits={} misses={} strings={}", on.len(), list.len(), hits, misses, seen.len());
}
