//! Checks on languages: C12 C13 C14 C15 C16 C17 C19 C20.

use crate::check;
use crate::gen::{self, Gen, Opt};
use crate::run::*;
use crate::spec::{self, is_sep, is_white, ref_run, ref_tokenize, Golden, Spec};
use crate::util::{hash_str, Rng};
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::{Index, Language, Pipeline};
#[cfg(feature = "cjk")]
use std::cell::RefCell;
use std::collections::HashMap;

const STACK: usize = 256 << 20;

fn short(s: &str) -> String {
    if s.len() <= 400 {
        return format!("{:?}", s);
    }
    let mut n = 400;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{:?}…({} bytes)", &s[..n], s.len())
}

fn list(v: &[String]) -> String {
    let mut s = format!("{:?}", &v[..v.len().min(60)]);
    if v.len() > 60 {
        s += &format!("…({} tokens)", v.len());
    }
    s
}

fn diff(a: &[String], b: &[String]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let lo = n.saturating_sub(2);
    format!("first difference at token {}: {} / {}", n, list(&a[lo.min(a.len())..(n + 3).min(a.len())]), list(&b[lo.min(b.len())..(n + 3).min(b.len())]))
}

/// One language object of the library with a pipeline and the reference for it, kept for
/// the whole thread (so state that leaks from one text to the next has an effect).
pub struct Inst {
    pub lang: Box<dyn Language>,
    pub pipe: Pipeline,
    pub gold: Golden,
}
pub struct Insts {
    all: HashMap<&'static str, Inst>,
}
impl Insts {
    pub fn new() -> Insts {
        Insts { all: HashMap::new() }
    }
    pub fn get(&mut self, s: &'static Spec) -> &Inst {
        self.all.entry(s.code).or_insert_with(|| {
            let lang = (s.make)();
            let pipe = lang.make_pipeline();
            Inst { lang, pipe, gold: Golden::new(s.code) }
        })
    }
}

fn stage_by<'a>(p: &'a Pipeline, prefix: &str) -> Option<&'a dyn elasticlunr::pipeline::PipelineFn> {
    p.queue.iter().find(|f| f.name().starts_with(prefix)).map(|f| &**f)
}

fn pick_spec(r: &mut Rng, f: impl Fn(&Spec) -> bool) -> &'static Spec {
    let v: Vec<&'static Spec> = spec::SPECS.iter().filter(|s| f(s)).collect();
    *r.pick(&v)
}

// ---------------------------------------------------------------- C13

pub fn c13(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 4_000_000 } else { 150_000 }, STACK, |_| Insts::new(), |is, r, idx, st| {
        let sp = pick_spec(r, |_| true);
        let inst = is.get(sp);
        let text = if idx < 30 && sp.spaced {
            // very long ones
            let ws: Vec<String> = (0..200).map(|_| if r.chance(1, 3) { g.decorated(r, sp.code, Opt { max_word: 40, ..Opt::default() }) } else { g.corpus_word(r, sp.code) }).collect();
            let n = g.size(r, 300_000).max(*r.pick(&[65_537usize, 100_003, 131_075, 262_147]));
            (0..n).map(|_| format!("{}{}", r.pick(&ws), r.pick(&[" ", "-", "\n", ", ", " - "]))).collect()
        } else {
            g.text(r, sp.code, Opt::default())
        };
        let toks = inst.pipe.run(inst.lang.tokenize(&text));
        let go = || -> R {
            for t in &toks {
                check!(!t.is_empty(), "{}: an empty token is emitted", sp.name);
                check!(!t.chars().any(is_white), "{}: the token {} contains white space", sp.name, short(t));
                if sp.spaced {
                    check!(!t.contains('-'), "{}: the token {} contains a hyphen", sp.name, short(t));
                    let low = t.to_lowercase();
                    check!(low == *t, "{}: the token {} is not in lower case", sp.name, short(t));
                    let low2: String = t.chars().flat_map(|c| c.to_lowercase()).collect();
                    check!(low2 == *t || low == *t, "{}: the token {} is not in lower case", sp.name, short(t));
                }
            }
            Ok(())
        };
        st.count("tokens_judged", toks.len() as u64);
        st.count(&format!("texts_{}", sp.code), 1);
        st.eval(hash_str(&text) ^ hash_str(sp.code), !toks.is_empty());
        st.sample(|| format!("{}: {:?} -> {:?}", sp.code, text, toks));
        go().ctx("text", || text.chars().take(20_000).collect()).ctx("tokens", || list(&toks[..toks.len().min(2000)]))
    })
}

// ---------------------------------------------------------------- C14

pub fn c14(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 8_000_000 } else { 300_000 }, STACK, |_| Insts::new(), |is, r, idx, st| {
        let sp = pick_spec(r, |s| s.spaced);
        let inst = is.get(sp);
        let text = if idx < 0x110 {
            // every character of the BMP and beyond, between letters, in blocks
            let mut s = String::new();
            for c in idx as u32 * 0x1000..(idx as u32 + 1) * 0x1000 {
                if let Some(c) = char::from_u32(c) {
                    s.push('a');
                    s.push(c);
                    s.push('B');
                    s.push(' ');
                }
            }
            s
        } else if idx < 0x120 {
            let n = if idx % 2 == 0 { 200_000 } else { 70_000 };
            let sep = g.sep(r);
            (0..n).map(|i| if i % 3 == 0 { g.corpus_word(r, sp.code) } else if i % 3 == 1 { "x".into() } else { sep.clone() }).collect()
        } else {
            g.text(r, sp.code, Opt::default())
        };
        let b = g.text(r, sp.code, Opt { big: false, ..Opt::default() });
        let sep = loop {
            let s = g.sep(r);
            if s.chars().all(is_sep) {
                break s;
            }
        };
        let go = |st: &mut Stats| -> R {
            let want = ref_tokenize(&text);
            let got = inst.lang.tokenize(&text);
            check!(got == want, "{}: tokenizing gives other words than splitting at separators; {}", sp.name, diff(&got, &want));
            let got2 = elasticlunr::lang::tokenize_whitespace(&text);
            check!(got2 == want, "tokenize_whitespace gives other words than splitting at separators; {}", diff(&got2, &want));
            let joined = format!("{}{}{}", text, sep, b);
            let mut both = got;
            both.extend(inst.lang.tokenize(&b));
            let j = inst.lang.tokenize(&joined);
            check!(j == both, "{}: the tokens of two joined texts are not those of one followed by the other; {}", sp.name, diff(&j, &both));
            st.count("words_compared", want.len() as u64 + j.len() as u64);
            st.max("words", want.len() as u64);
            st.eval(hash_str(&joined) ^ hash_str(sp.code), want.len() > 1);
            Ok(())
        };
        let v = go(st);
        st.sample(|| format!("{}: {:?}", sp.code, text));
        v.ctx("text", || text.clone()).ctx("second", || b.clone()).ctx("separator", || format!("{:?}", sep))
    })
}

// ---------------------------------------------------------------- C15

/// Characters that are not word characters of the language and do not split words.
fn junk(gold: &Golden, g: &Gen, r: &mut Rng) -> String {
    let n = r.weighted(&[3, 6, 3, 1, 1]);
    let n = if r.chance(1, 60) { g.size(r, 300) } else { n };
    let mut s = String::new();
    let mut guard = 0;
    while s.chars().count() < n && guard < 4000 {
        guard += 1;
        let c = if r.chance(1, 2) {
            g.punct(r).chars().next().unwrap()
        } else {
            let b = *r.pick(gen::BLOCKS);
            gen::rand_char(r, b)
        };
        if !gold.is_word(c) && !is_sep(c) && !c.to_lowercase().any(|d| gold.is_word(d)) {
            s.push(c);
        }
    }
    s
}

pub fn c15(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 6_000_000 } else { 200_000 }, STACK, |_| Insts::new(), |is, r, idx, st| {
        let sp = pick_spec(r, |s| s.word.is_some());
        let inst = is.get(sp);
        let Some(tr) = stage_by(&inst.pipe, "trimmer") else { return viol(format!("{} has no trimmer", sp.name)) };
        let go = |r: &mut Rng, st: &mut Stats| -> R {
            let judge = |t: &str| -> R {
                let want = inst.gold.trim(t);
                let got = tr.filter(t.to_string());
                let ok = match &got {
                    None => want.is_empty(),
                    Some(x) => x == want,
                };
                check!(ok, "{}: trimming {} gives {:?}, expected {}", sp.name, short(t), got, short(want));
                Ok(())
            };
            if idx < 0x110 {
                // every character on its own and at both ends of a word, in some language
                for s in spec::SPECS.iter().filter(|s| s.word.is_some() && (idx as usize + s.code.len() + s.name.len()) % 3 == 0 || s.code == sp.code) {
                    let _ = s;
                }
                let core = inst_core(sp);
                for c in idx as u32 * 0x1000..(idx as u32 + 1) * 0x1000 {
                    if let Some(c) = char::from_u32(c) {
                        judge(&format!("{}{}{}", c, core, c))?;
                        judge(&c.to_string())?;
                        judge(&format!("{}{}{}", core, c, core))?;
                        st.count("single_characters_judged", 1);
                    }
                }
                st.eval(idx ^ hash_str(sp.code), true);
                return Ok(());
            }
            let w = g.word(r, sp.code, Opt::default());
            let a = junk(&inst.gold, g, r);
            let b = junk(&inst.gold, g, r);
            let t = format!("{}{}{}", a, w, b);
            judge(&t)?;
            judge(&w)?;
            st.count("tokens_judged", 2);
            // wrapping does not change what is indexed
            if sp.spaced && !w.chars().any(is_sep) && w.chars().any(|c| inst.gold.is_word(c)) {
                let plain = inst.pipe.run(inst.lang.tokenize(&w));
                let wrapped = inst.pipe.run(inst.lang.tokenize(&t));
                // the sigma rule of Unicode lower-casing looks at neighbours
                if !w.contains('Σ') {
                    check!(plain == wrapped, "{}: {} is indexed under {:?}, but wrapped as {} under {:?}", sp.name, short(&w), plain, short(&t), wrapped);
                    st.count("wrapped_words_compared", 1);
                }
            }
            st.eval(hash_str(&t) ^ hash_str(sp.code), !a.is_empty() || !b.is_empty());
            st.sample(|| format!("{}: {:?}", sp.code, t));
            Ok(())
        };
        go(r, st)
    })
}

fn inst_core(sp: &Spec) -> &'static str {
    match sp.code {
        "ru" => "слово",
        "ko" => "한국",
        "zh" => "中国",
        "ja" => "日本",
        _ => "word",
    }
}

// ---------------------------------------------------------------- C16

fn casings(r: &mut Rng, w: &str) -> String {
    match r.below(4) {
        0 => w.to_uppercase(),
        1 => {
            let mut c = w.chars();
            match c.next() {
                Some(f) => f.to_uppercase().chain(c).collect(),
                None => String::new(),
            }
        }
        2 => w.chars().flat_map(|c| if r.chance(1, 2) { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] }).collect(),
        _ => w.to_string(),
    }
}

pub fn c16(cfg: &Cfg, g: &Gen) -> Outcome {
    let specs: Vec<&'static Spec> = spec::SPECS.iter().filter(|s| spec::stops().contains_key(s.code)).collect();
    // all (language, stop word) pairs
    let pairs: Vec<(usize, String)> = specs.iter().enumerate().flat_map(|(i, s)| spec::stops()[s.code].iter().filter(|w| !w.is_empty()).map(move |w| (i, w.clone()))).collect();
    let np = pairs.len() as u64;
    run(cfg, np + if cfg.thorough { 6_000_000 } else { 250_000 }, STACK, |_| Insts::new(), |is, r, idx, st| {
        if idx < np {
            // every stop word
            let (i, w) = &pairs[idx as usize];
            let sp = specs[*i];
            let inst = is.get(sp);
            let Some(sf) = stage_by(&inst.pipe, "stopWordFilter") else { return viol(format!("{} has no stop word filter", sp.name)) };
            check!(sf.filter(w.clone()).is_none(), "{}: the stop word {:?} passes the stop word filter", sp.name, w);
            st.count("stop_words_at_the_filter", 1);
            let mut extra = vec![w.clone()];
            for _ in 0..12 {
                let a = junk(&inst.gold, g, r);
                let b = junk(&inst.gold, g, r);
                extra.push(format!("{}{}{}", a, casings(r, w), b));
            }
            for t in extra {
                // the list contains entries no token can ever be equal to (inner separators, foreign script)
                let toks = ref_tokenize(&t);
                if sp.spaced && (toks.len() != 1 || inst.gold.trim(&toks[0]) != w) {
                    continue;
                }
                let toks = if sp.spaced { inst.lang.tokenize(&t) } else { vec![t.clone()] };
                let out = inst.pipe.run(toks);
                check!(out.is_empty(), "{}: the stop word {:?}, written {}, yields the term(s) {:?}", sp.name, w, short(&t), out);
                st.count("stop_words_in_texts", 1);
                st.eval(hash_str(&t) ^ hash_str(sp.code), true);
            }
            return Ok(());
        }
        let sp = *r.pick(&specs);
        let inst = is.get(sp);
        let near = if r.chance(2, 3) {
            // close to a stop word
            let s: Vec<char> = r.pick(&spec::stops()[sp.code]).chars().collect();
            let mut s = s;
            match r.below(8) {
                0 => {
                    s.pop();
                }
                1 => s.push(g.any_char(r, sp.code, Opt::default())),
                2 => s.insert(0, g.any_char(r, sp.code, Opt::default())),
                3 if !s.is_empty() => {
                    let p = r.below(s.len());
                    s[p] = g.any_char(r, sp.code, Opt::default());
                }
                4 if s.len() > 1 => {
                    let p = r.below(s.len() - 1);
                    s.swap(p, p + 1);
                }
                5 => {
                    let other = *r.pick(&specs);
                    s = r.pick(&spec::stops()[other.code]).chars().collect();
                }
                6 => {
                    let t: Vec<char> = r.pick(&spec::stops()[sp.code]).chars().collect();
                    s.extend(t);
                }
                _ => {
                    let t = g.word(r, sp.code, Opt::default());
                    s.extend(t.chars());
                }
            }
            s.into_iter().collect::<String>()
        } else {
            g.word(r, sp.code, Opt::default())
        };
        let word: String = near.chars().filter(|c| !is_sep(*c)).collect();
        let raw = if sp.spaced { word.to_lowercase() } else { word.clone() };
        let t = inst.gold.trim(&raw).to_string();
        let Some(sf) = stage_by(&inst.pipe, "stopWordFilter") else { return viol(format!("{} has no stop word filter", sp.name)) };
        let go = |st: &mut Stats| -> R {
            if t.is_empty() {
                return Ok(());
            }
            let dropped = sf.filter(t.clone());
            if inst.gold.is_stop(&t) {
                check!(dropped.is_none(), "{}: the stop word {} passes the filter", sp.name, short(&t));
                return Ok(());
            }
            check!(dropped.as_deref() == Some(&t[..]), "{}: {} is no stop word, but the filter gives {:?}", sp.name, short(&t), dropped);
            if inst.gold.stem(&t).is_empty() {
                return Ok(());
            }
            let toks = if sp.spaced { inst.lang.tokenize(&word) } else { vec![word.clone()] };
            let out = inst.pipe.run(toks);
            check!(out.len() == 1, "{}: the word {} is no stop word, but yields {:?}", sp.name, short(&word), out);
            st.count("other_words_judged", 1);
            Ok(())
        };
        let v = go(st);
        st.eval(hash_str(&word) ^ hash_str(sp.code), !t.is_empty());
        st.sample(|| format!("{}: {:?}", sp.code, word));
        v.ctx("word", || word.clone())
    })
}

// ---------------------------------------------------------------- C17

pub fn c17(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 4_000_000 } else { 160_000 }, STACK, |_| Insts::new(), |is, r, idx, st| {
        let sp = pick_spec(r, |s| s.algo.is_some() || s.code == "ko");
        let inst = is.get(sp);
        let text = if idx < 60 {
            let n = *r.pick(gen::BIG);
            let w = g.corpus_word(r, sp.code);
            format!("{}{} {}", w.repeat(n / w.len().max(1) + 1), g.corpus_word(r, sp.code), "x".repeat(n) + &w)
        } else {
            g.text(r, sp.code, Opt::default())
        };
        let raw = inst.lang.tokenize(&text);
        let want: Vec<String> = raw.iter().filter_map(|t| inst.gold.term(t)).collect();
        let go = || -> R {
            let got = inst.pipe.run(raw.clone());
            check!(got == want, "{}: terms differ from Snowball applied to the trimmed non-stop words; {}", sp.name, diff(&got, &want));
            let got = ref_run(&inst.pipe, raw.clone());
            check!(got == want, "{}: the stages in order give other terms than Snowball applied to the trimmed non-stop words; {}", sp.name, diff(&got, &want));
            Ok(())
        };
        st.count("words_compared", raw.len() as u64);
        st.count("terms_compared", want.len() as u64);
        st.count("words_changed_by_the_stemmer", raw.iter().filter(|t| { let x = inst.gold.trim(t); !x.is_empty() && inst.gold.term(t).map_or(false, |y| y != x) }).count() as u64);
        st.count(&format!("texts_{}", sp.code), 1);
        st.eval(hash_str(&text) ^ hash_str(sp.code), !want.is_empty());
        st.sample(|| format!("{}: {:?} -> {:?}", sp.code, text, want));
        go().ctx("text", || text.clone()).ctx("language", || sp.code.into())
    })
}

// ---------------------------------------------------------------- C19 / C20

#[cfg(feature = "cjk")]
mod cjk {
    use super::*;

    fn cjk_text(g: &Gen, r: &mut Rng, code: &'static str, idx: u64) -> String {
        let o = Opt::default();
        match r.below(8) {
            _ if idx < 12 => {
                let n = *r.pick(&[300usize, 1000, 3000, 255, 256, 257, 4096, 65536 / 8]);
                (0..n).map(|_| g.corpus_word(r, code)).collect()
            }
            0 => {
                // running text of the corpus, cut somewhere
                let n = r.range(1, 40);
                (0..n).map(|_| g.corpus_word(r, code)).collect()
            }
            1 => {
                let n = r.range(1, 30);
                (0..n).map(|_| g.any_char(r, code, o)).collect()
            }
            2 => {
                let n = r.range(1, 12);
                (0..n)
                    .map(|_| match r.below(4) {
                        0 => g.corpus_word(r, "en"),
                        1 => g.punct(r).to_string(),
                        _ => g.corpus_word(r, code),
                    })
                    .collect::<Vec<_>>()
                    .join(if r.chance(1, 2) { "" } else { " " })
            }
            3 => {
                let w = g.corpus_word(r, code);
                let n = g.size(r, 300);
                w.repeat(n)
            }
            _ => g.text(r, code, Opt { max_word: 300, ..o }),
        }
    }

    thread_local! {
        static JIEBA: RefCell<Option<jieba_rs::Jieba>> = const { RefCell::new(None) };
    }

    fn substrings_in_order(text: &str, toks: &[String]) -> R {
        for t in toks {
            check!(text.contains(t.as_str()), "the term {} is not a substring of the text", short(t));
        }
        Ok(())
    }

    pub fn c19(cfg: &Cfg, g: &Gen) -> Outcome {
        run(cfg, if cfg.thorough { 1_500_000 } else { 60_000 }, STACK, |_| (Insts::new(), jieba_rs::Jieba::new()), |(is, jieba), r, idx, st| {
            let sp = spec::spec("zh");
            let inst = is.get(sp);
            let text = cjk_text(g, r, "zh", idx);
            let seg: Vec<String> = jieba.cut_for_search(&text, false).into_iter().map(|s| s.to_string()).collect();
            let want: Vec<String> = seg.iter().filter_map(|s| inst.gold.term(s)).collect();
            let raw = inst.lang.tokenize(&text);
            let got = inst.pipe.run(raw.clone());
            let go = || -> R {
                check!(got == want, "Chinese terms differ from the trimmed search-mode segments; {}", diff(&got, &want));
                substrings_in_order(&text, &got)
            };
            st.count("segments", seg.len() as u64);
            st.count("terms_compared", want.len() as u64);
            st.count("stop_words_seen", seg.iter().filter(|s| inst.gold.is_stop(inst.gold.trim(s))).count() as u64);
            st.eval(hash_str(&text), want.len() > 1);
            st.sample(|| format!("{:?} -> {:?}", text, want));
            go().ctx("text", || text.clone())
        })
    }

    pub fn c20(cfg: &Cfg, g: &Gen) -> Outcome {
        use lindera::tokenizer::{Tokenizer, TokenizerConfig};
        use lindera_core::viterbi::Mode;
        let conf = || TokenizerConfig { mode: Mode::Decompose(Default::default()), ..Default::default() };
        run(
            cfg,
            if cfg.thorough { 800_000 } else { 30_000 },
            STACK,
            |_| (Insts::new(), Tokenizer::with_config(conf()).unwrap(), elasticlunr::lang::Japanese::default(), elasticlunr::lang::Japanese::with_config(conf()), elasticlunr::lang::Japanese::new()),
            |(is, lin, dflt, withc, new), r, idx, st| {
                let sp = spec::spec("ja");
                let inst = is.get(sp);
                let text = cjk_text(g, r, "ja", idx);
                let seg: Vec<(String, String)> = lin.tokenize(&text).unwrap().into_iter().map(|t| (t.text.to_string(), t.detail.first().cloned().unwrap_or_default())).collect();
                let keep: Vec<String> = seg.iter().filter(|(_, d)| !["助詞", "助動詞", "記号", "UNK"].contains(&d.as_str())).map(|x| x.0.clone()).collect();
                let want: Vec<String> = keep.iter().filter_map(|s| inst.gold.term(s)).collect();
                let mut hs = 0;
                let mut go = || -> R {
                    let insts: [(&str, &dyn Language); 4] = [("kept", &*inst.lang), ("default", dflt), ("with_config", withc), ("new", new)];
                    for (n, l) in insts {
                        let got = l.make_pipeline().run(l.tokenize(&text));
                        check!(got == want, "Japanese ({} instance): terms differ from the trimmed content words; {}", n, diff(&got, &want));
                        hs += 1;
                    }
                    let got = inst.pipe.run(inst.lang.tokenize(&text));
                    check!(got == want, "Japanese: terms differ from the trimmed content words; {}", diff(&got, &want));
                    substrings_in_order(&text, &got)
                };
                let v = go();
                st.count("instances_compared", hs);
                st.count("morphemes", seg.len() as u64);
                st.count("morphemes_filtered", (seg.len() - keep.len()) as u64);
                st.count("terms_compared", want.len() as u64);
                st.eval(hash_str(&text), want.len() > 1);
                st.sample(|| format!("{:?} -> {:?}", text, want));
                v.ctx("text", || text.clone())
            },
        )
    }
}
#[cfg(feature = "cjk")]
pub use cjk::{c19, c20};

// ---------------------------------------------------------------- C12

pub const LONG: usize = 3000;

/// Everything a text can be given to. Returns work done.
fn everything(is: &mut Insts, sp: &'static Spec, text: &str, g: &Gen, r: &mut Rng) -> u64 {
    let inst = is.get(sp);
    let mut n = 0;
    let toks = inst.lang.tokenize(text);
    n += toks.len() as u64;
    let out = inst.pipe.run(toks);
    // single stages, given raw text and tokens as they are
    for f in inst.pipe.queue.iter() {
        let _ = f.name();
        let _ = f.filter(text.to_string());
        for t in out.iter().take(5) {
            let _ = f.filter(t.clone());
        }
        let mut half: String = text.chars().take(text.chars().count() / 2).collect();
        let _ = f.filter(half.clone());
        half.pop();
        let _ = f.filter(half);
        n += 4;
    }
    let _ = inst.pipe.run(vec![text.to_string(), String::new()]);
    let o = Opt::default();
    // The trie is recursive; tokens beyond LONG characters are a known finding, checked apart.
    let fits = out.iter().all(|t| t.chars().count() <= LONG);
    let fit: String = text.chars().take(LONG).collect();
    // an index with an arbitrary reference and field name; the language is moved into it
    if fits && r.chance(1, 3) && (sp.spaced || r.chance(1, 40)) {
        let (f1, f2) = (g.name(r, o), g.name(r, o));
        let f2 = if f1 == f2 { format!("{}2", f2) } else { f2 };
        let mut ix = Index::with_language((sp.make)(), &[&f1, &f2]);
        let d = g.name(r, o);
        ix.add_doc(&d, &[text, &d]);
        ix.add_doc(&d, &[text, text]);
        // the reference is repeated with every token, and indentation is quadratic in the depth
        if out.len() * text.len() < 5_000_000 {
            ix.add_doc(text, &[text, ""]);
        }
        n += ix.to_json().len() as u64;
        if out.iter().map(|t| t.len().pow(2)).sum::<usize>() < 2_000_000 && text.len() < 50_000 {
            n += ix.to_json_pretty().len() as u64;
        }
        n += ix.get_fields().len() as u64;
    }
    let mut inv = InvertedIndex::new();
    let refs = [g.name(r, o), text.to_string()];
    for t in out.iter().filter(|t| t.chars().count() <= LONG).take(50).chain([&fit]) {
        for d in &refs {
            inv.add_token(d, t, 1.0);
        }
        let _ = inv.has_token(t);
        let _ = inv.get_docs(t);
        let _ = inv.get_term_frequency(&refs[0], t);
        let _ = inv.get_doc_frequency(t);
        n += 1;
    }
    for t in out.iter().take(50) {
        let q: String = t.chars().rev().collect();
        for x in [t.as_str(), &q, "", "x"] {
            inv.remove_token(&refs[0], x);
            inv.remove_token("absent", x);
            let _ = inv.has_token(x);
            let _ = inv.get_docs(x);
        }
    }
    n += serde_json::to_string(&inv).unwrap().len() as u64;
    let mut ds = elasticlunr::document_store::DocumentStore::new(true);
    ds.remove_doc(text);
    ds.add_field_length(text, text, usize::MAX);
    let _ = ds.get_field_length(text, "");
    ds.add_doc(text, Default::default());
    let _ = (ds.get_doc(text), ds.has_doc(""), ds.len());
    ds.remove_doc(text);
    ds.remove_doc(text);
    n += serde_json::to_string(&ds).unwrap().len() as u64;
    let _ = elasticlunr::lang::from_name(if text == "Chinese" || text == "Japanese" { "" } else { text });
    let lower = text.to_ascii_lowercase();
    let _ = elasticlunr::lang::from_code(if lower == "zh" || lower == "ja" { "" } else { text });
    let _ = serde_json::from_str::<elasticlunr::config::SearchOptions>(text).is_ok();
    n
}

pub fn c12(cfg: &Cfg, g: &Gen) -> Outcome {
    // 8 MB: the stack a main thread normally has
    run(cfg, if cfg.thorough { 6_000_000 } else { 260_000 }, 8 << 20, |_| Insts::new(), |is, r, idx, st| {
        let sp = if r.chance(1, 4) { spec::spec("en") } else { pick_spec(r, |s| s.spaced || r_chance(idx)) };
        let o = Opt { max_word: 2100, ..Opt::default() };
        let text = match idx {
            0..=199 => {
                // long runs of one character: the recursive and quadratic parts
                let c = *r.pick(&['y', 'Y', 'a', 's', 'e', 'l', 'я', 'é', '中', '😀', 'İ', 'ß', '\u{301}', 'ـ', 'آ', '가', 'ー', '-', '.', '\'']);
                let n = *r.pick(&[100usize, 255, 256, 257, 1000, 1023, 1024, 1025, 2000, 3000]);
                let mut s: String = std::iter::repeat(c).take(n).collect();
                if r.chance(1, 2) {
                    s.insert(0, 'a');
                }
                if r.chance(1, 2) {
                    s += *r.pick(&["ing", "ed", "s", "ies", "sses", "eed", "e", "ll", "ational", "ion", "y"]);
                }
                s
            }
            200..=399 => {
                // every suffix of the English stemmer alone, doubled, after one odd character
                let w = g.word(r, "en", o);
                let x = g.any_char(r, "en", o);
                format!("{} {}{} {}{} {}", w, x, w, w, x, w.to_uppercase())
            }
            400..=415 => {
                // a large text
                let n = 40_000;
                g.text_n(r, sp.code, n, Opt { max_word: 60, big: false, ..o })
            }
            416..=700 => {
                // every character of a block inside and at the ends of words
                let mut s = String::new();
                let b = (idx - 416) as u32 * 0x1000;
                for c in b..b + 0x1000 {
                    if let Some(c) = char::from_u32(c) {
                        s.push(c);
                        s.push_str(&format!("ab{}ing {}{} {}ed {}", c, c, c, c, c));
                        s.push(' ');
                    }
                }
                s
            }
            _ => g.text(r, sp.code, o),
        };
        // short words: all of length <= 3 over an adversarial alphabet come up quickly
        let text = if idx > 800 && r.chance(1, 6) {
            let al = ['a', 'e', 'i', 'y', 's', 'd', 'n', 'g', 'l', 'z', 'é', 'ت', '中', '😀', '_', '1', '\u{301}', '\''];
            let n = r.range(1, 30);
            let mut s = String::new();
            for _ in 0..n {
                let k = r.range(1, 6);
                for _ in 0..k {
                    s.push(*r.pick(&al));
                }
                s += *r.pick(&["", "", "ing", "ed", "eed", "s", "ies", "ion", "sses", "e", "y", "ll", "ate", "ness"]);
                s.push(' ');
            }
            s
        } else {
            text
        };
        let res = guarded(|| {
            let mut n = 0;
            if idx == 800 {
                // very many documents
                let mut inv = InvertedIndex::new();
                let mut ds = elasticlunr::document_store::DocumentStore::new(true);
                for i in 0..70_000 {
                    let d = i.to_string();
                    inv.add_token(&d, "common", i as f64);
                    ds.add_doc(&d, Default::default());
                    ds.add_field_length(&d, "f", i);
                }
                for i in 0..70_000 {
                    let d = i.to_string();
                    if i % 100 == 0 {
                        n += inv.get_docs("common").map_or(0, |d| d.len() as u64) + inv.get_doc_frequency("common") as u64;
                    }
                    inv.remove_token(&d, "common");
                    ds.remove_doc(&d);
                    ds.remove_doc(&d);
                }
                n += serde_json::to_string(&inv).unwrap().len() as u64 + ds.len() as u64;
            }
            n + everything(is, sp, &text, g, r)
        });
        st.count(&format!("texts_{}", sp.code), 1);
        st.max("text_bytes", text.len() as u64);
        st.eval(hash_str(&text) ^ hash_str(sp.code), !text.is_empty());
        st.sample(|| format!("{}: {:?}", sp.code, text));
        match res {
            Caught::Ok(n) => {
                st.count("results_produced", n);
                Ok(())
            }
            Caught::Panic(at, m) => {
                if at.starts_with("src/") {
                    eprintln!("HARNESS-ERROR: monitor panicked at {}: {}", at, m);
                    std::process::exit(2);
                }
                viol(format!("{}: panicked at {}: {}", sp.name, at, m)).ctx("text", || text.clone())
            }
        }
    })
}

fn r_chance(x: u64) -> bool {
    crate::util::mix(x) % 3 == 0
}

/// One very long token, in its own process (a stack overflow cannot be caught).
pub fn long_token(n: usize, ch: &str) {
    let t = ch.repeat(n / ch.len().max(1) + 1);
    let th = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ix = Index::new(&["body"]);
            ix.add_doc("1", &[&t]);
            println!("json {}", ix.to_json().len());
            drop(ix);
            println!("done");
        })
        .unwrap();
    let ok = th.join().is_ok();
    std::process::exit(if ok { 0 } else { 1 });
}

/// A Japanese text of `n` words without a sentence end.
#[cfg(feature = "cjk")]
pub fn long_sentence(n: usize, w: &str) {
    let t = w.repeat(n);
    let l = elasticlunr::lang::Japanese::new();
    let p = l.make_pipeline();
    println!("terms {}", p.run(l.tokenize(&t)).len());
    std::process::exit(0);
}
