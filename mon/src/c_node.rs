//! Checks against JavaScript: C10 C11 C18.

use crate::check;
use crate::gen::{Gen, Opt};
use crate::node::Node;
use crate::run::*;
use crate::scen::{self, Lang, SOpt};
use crate::spec;
use crate::util::{hash_str, Rng};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};

const STACK: usize = 512 << 20;

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

// ---------------------------------------------------------------- C11

fn odd_chars(node: &mut Node) -> HashSet<char> {
    // characters whose lower case the two platforms' Unicode tables disagree about
    let all: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
    let pairs: Vec<(String, String)> = all.iter().filter(|c| c.is_alphabetic() || c.to_lowercase().to_string() != c.to_string()).map(|c| (c.to_string(), c.to_string().to_lowercase())).collect();
    let v = node.ask(&json!({ "lower": pairs }).to_string());
    v["lower"].as_array().map(|a| a.iter().filter_map(|s| s.as_str().and_then(|s| s.chars().next())).collect()).unwrap_or_default()
}

const SUFFIXES: [&str; 66] = [
    "s", "es", "ies", "sses", "ss", "eed", "ed", "ing", "at", "bl", "iz", "ated", "bling", "ized", "y", "ational", "tional", "enci", "anci", "izer", "bli", "alli", "entli", "eli", "ousli", "ization", "ation", "ator",
    "alism", "iveness", "fulness", "ousness", "aliti", "iviti", "biliti", "logi", "icate", "ative", "alize", "iciti", "ical", "ful", "ness", "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent",
    "sion", "tion", "ion", "ou", "ism", "ate", "iti", "ous", "ive", "ize", "e", "ll",
];

fn any(r: &mut Rng, a: u32, b: u32) -> char {
    loop {
        if let Some(c) = char::from_u32(r.range(a as usize, b as usize) as u32) {
            return c;
        }
    }
}

pub fn c11(cfg: &Cfg, g: &Gen) -> Outcome {
    run(
        cfg,
        if cfg.thorough { 150_000 } else { 9_000 },
        STACK,
        |_| {
            let mut n = Node::new(&cfg.oracle_dir, "c11", &cfg.repo);
            let odd = odd_chars(&mut n);
            let l = (spec::spec("en").make)();
            let p = l.make_pipeline();
            (n, odd, l, p)
        },
        |(node, odd, lang, pipe), r, idx, st| {
            st.max("characters_with_differing_platform_tables", odd.len() as u64);
            let clean = |s: String| -> String { s.chars().filter(|c| *c != '\u{85}' && !odd.contains(c)).collect() };
            if idx % 5 == 4 {
                return whole(cfg, node, &clean, r, g, st);
            }
            let o = Opt::default();
            let mut texts: Vec<String> = vec![];
            if idx == 0 {
                texts.push("A\u{3a3}\u{feff}\u{3a3} a\u{3a3}\u{feff}b 1\u{3a3}\u{feff}2 \u{391}\u{3a3}\u{feff}\u{392}".into());
            }
            if idx < 40 {
                // every suffix against every stem shape
                let mut s = String::new();
                for _ in 0..1500 {
                    s += &g.word(r, "en", o);
                    s.push(' ');
                }
                texts.push(clean(s));
            } else {
                for _ in 0..20 {
                    let code = if r.chance(5, 6) { "en" } else { g.any_code(r) };
                    texts.push(clean(g.text(r, code, o)));
                }
                if r.chance(1, 3) {
                    // every shape of stem, with characters of every encoded length, before every suffix
                    let odd = [any(r, 0x80, 0x7ff), any(r, 0x800, 0xffff), any(r, 0x10000, 0x1ffff)];
                    let mut s = String::new();
                    for _ in 0..150 {
                        let n = r.range(1, 5);
                        for _ in 0..n {
                            let c = match r.below(6) {
                                0 | 1 => *r.pick(&['a', 'e', 'i', 'o', 'u', 'y']),
                                2 | 3 => *r.pick(&['b', 't', 'l', 's', 'z', 'w', 'x', 'n', '\'', '3']),
                                _ => *r.pick(&odd),
                            };
                            s.push(c);
                            if r.chance(1, 4) {
                                s.push(c);
                            }
                        }
                        for _ in 0..r.range(0, 2) {
                            s += *r.pick(&SUFFIXES);
                        }
                        s.push(' ');
                    }
                    texts.push(clean(s));
                }
                if r.chance(1, 2) {
                    // many short words over a small alphabet
                    let al: Vec<char> = r.pick(&["aeyst", "lsezi", "abyin", "yseid", "eaélt", "tionsae", "gnied", "aeiouy", "bcdwxy"]).chars().collect();
                    let mut s = String::new();
                    for _ in 0..200 {
                        let n = r.range(1, 8);
                        for _ in 0..n {
                            s.push(*r.pick(&al));
                        }
                        s += *r.pick(&["", "", "s", "ed", "ing", "ly", "ies", "eed", "e", "y", "ational", "ion", "ness", "ll"]);
                        s.push(' ');
                    }
                    texts.push(s);
                }
            }
            let v = node.ask(&json!({ "texts": texts }).to_string());
            let want: Vec<Vec<String>> = serde_json::from_value(v["tokens"].clone()).map_err(|e| e.to_string()).ctx("oracle", || "reply".into())?;
            for (t, w) in texts.iter().zip(&want) {
                let got = pipe.run(lang.tokenize(t));
                st.count("tokens_compared", w.len() as u64);
                st.eval(hash_str(t), !w.is_empty());
                if got != *w {
                    let n = got.iter().zip(w).take_while(|(a, b)| a == b).count();
                    return viol(format!("token {} is {:?}, elasticlunr.js computes {:?}", n, got.get(n), w.get(n))).ctx("text", || t.clone());
                }
            }
            st.count("texts_compared", texts.len() as u64);
            st.sample(|| format!("{:?} -> {:?}", texts[0], want[0]));
            Ok(())
        },
    )
}

fn whole(_cfg: &Cfg, node: &mut Node, clean: &dyn Fn(String) -> String, r: &mut Rng, g: &Gen, st: &mut Stats) -> R {
    let o = SOpt { code: Some("en"), custom_tok: false, ref_collision: false, partial: false, max_docs: 40, text: Opt { bmp: true, big: true, max_word: 400 }, ..SOpt::default() };
    let mut s = scen::gen(g, r, &o);
    for (_, v) in s.docs.iter_mut() {
        for x in v.iter_mut() {
            *x = clean(std::mem::take(x)).chars().filter(|c| *c != '\u{feff}').collect();
        }
    }
    let js = s.build().to_json();
    let q = json!({ "spec": { "fields": s.fields, "ref": s.rf(), "save": s.saved(), "docs": s.docs }, "json": js });
    let v = node.ask(&q.to_string());
    st.count("whole_indexes_compared", 1);
    st.count("whole_index_documents", s.docs.len() as u64);
    st.eval(hash_str(&js), !s.docs.is_empty());
    if let Some(d) = v["diff"].as_str() {
        return viol(format!("the index differs from the one elasticlunr.js builds: {}", d)).ctx("scenario", || s.describe());
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

pub fn c10(cfg: &Cfg, g: &Gen) -> Outcome {
    let o = SOpt { max_docs: 60, text: Opt { max_word: 400, ..Opt::default() }, ..SOpt::default() };
    let known = cfg.known.contains("astral-terms");
    run(cfg, if cfg.thorough { 120_000 } else { 7_000 }, STACK, |_| Node::new(&cfg.oracle_dir, "c10", &cfg.repo), |node, r, idx, st| {
        let mut s = scen::gen(g, r, &o);
        match idx {
            0 => {
                // the documented limitation, always looked at
                s = scen::Scen { lang: Lang::Built("de"), fields: vec!["body".into()], toks: vec![None], ref_field: None, save: None, docs: vec![("1".into(), vec!["a𝒳 word".into()])] };
            }
            1..=5 => {
                // more documents with shared words: frequencies matter for the scores
                s.fields = vec!["title".into(), "body".into()];
                s.toks = vec![None, None];
                s.ref_field = None;
                s.lang = Lang::Built("en");
                s.docs = (0..[50, 300, 256, 257, 1000][idx as usize - 1])
                    .map(|i| (format!("{}", i), vec![g.text_n(r, "en", 2, Opt { bmp: true, big: false, max_word: 30 }), (0..1 + i % 40).map(|k| if k % 3 == 0 { "shared ".to_string() } else { format!("{} ", g.corpus_word(r, "en")) }).collect()]))
                    .collect();
            }
            _ => {
                // very frequent words
                // (only where words are split: elsewhere they would be one deep token)
                if (idx < 20 || r.chance(1, 80)) && matches!(s.lang, Lang::Built(_)) && s.toks.iter().all(|t| t.is_none()) && !s.docs.is_empty() && !s.fields.is_empty() {
                    let n = r.range(1, 3);
                    for _ in 0..n {
                        let w = if r.chance(1, 2) { "wave".to_string() } else { g.corpus_word(r, s.lang.code()) };
                        let c = *r.pick(&[100usize, 255, 256, 1000, 1023, 4095, 4096, 9999, 10000, 10001, 16384, 32768, 40000, 65535, 65536, 70001]);
                        let (d, f) = (r.below(s.docs.len()), r.below(s.fields.len()));
                        if let Some(v) = s.docs[d].1.get_mut(f) {
                            v.push_str(&format!(" {}", w).repeat(c + r.range(0, 2)));
                        }
                        st.count("very_frequent_words", 1);
                    }
                }
            }
        }
        let l = s.lang.make();
        let p = l.make_pipeline();
        let rf = s.rf();
        let mut toks: BTreeMap<String, BTreeMap<String, Vec<String>>> = BTreeMap::new();
        for (d, vals) in &s.docs {
            let e = toks.entry(d.clone()).or_default();
            for (i, v) in vals.iter().enumerate() {
                if s.fields[i] != rf {
                    e.insert(s.fields[i].clone(), s.tokens(&*l, &p, i, v));
                }
            }
        }
        let nq = if s.fields.len() > 10 { 1 } else { 4 };
        let mut queries = vec![];
        for _ in 0..nq {
            let n = r.range(1, 3);
            let terms: Vec<serde_json::Value> = (0..n)
                .map(|_| {
                    if r.chance(5, 6) {
                        json!(r.below(1 << 30))
                    } else {
                        let w: String = g.word(r, s.lang.code(), Opt { bmp: true, big: false, max_word: 20 });
                        let k = r.range(1, 3);
                        json!(w.chars().take(k).collect::<String>())
                    }
                })
                .collect();
            queries.push(json!({ "terms": terms, "op": if r.chance(1, 2) { "OR" } else { "AND" }, "expand": r.chance(1, 3) }));
        }
        let ix = s.build();
        let js = if r.chance(1, 5) && s.shallow() { ix.to_json_pretty() } else { ix.to_json() };
        let code = match &s.lang {
            Lang::Built(c) => Some(*c),
            Lang::Test(_) => None,
        };
        let q = json!({ "json": js, "code": code, "fields": s.fields, "ref": rf, "tokens": toks, "queries": queries, "known": known });
        let v = node.ask(&q.to_string());
        for k in ["terms", "searches", "hits"] {
            st.count(&format!("{}_compared", k), v[k].as_u64().unwrap_or(0));
        }
        st.eval(s.hash(), v["terms"].as_u64().unwrap_or(0) > 0);
        st.max("documents", s.docs.len() as u64);
        st.sample(|| s.describe());
        if let Some(d) = v["diff"].as_str() {
            return viol(format!("for elasticlunr.js: {}", d)).ctx("scenario", || s.describe());
        }
        if v["known"].as_u64().unwrap_or(0) > 0 {
            st.known("astral-terms", format!("{} ({})", v["knownEx"].as_str().unwrap_or(""), short(&s.describe())));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C18

const ALEFS: [char; 5] = ['\u{622}', '\u{623}', '\u{625}', '\u{671}', '\u{649}'];

pub fn c18(cfg: &Cfg, g: &Gen) -> Outcome {
    run(
        cfg,
        if cfg.thorough { 200_000 } else { 12_000 },
        STACK,
        |_| {
            let l = (spec::spec("ar").make)();
            let p = l.make_pipeline();
            (Node::new(&cfg.oracle_dir, "c18", &cfg.repo), l, p)
        },
        |(node, lang, pipe), r, idx, st| {
            let mut texts: Vec<String> = vec![];
            if idx == 0 {
                texts.push("آأإٱى والإأ مُحَمَّدٌ كتـــاب".into());
            }
            if idx >= 1 && idx < 0x11 {
                let mut s = String::new();
                for c in (idx as u32 - 1) * 0x1000..idx as u32 * 0x1000 {
                    if let Some(c) = char::from_u32(c) {
                        s.push_str(&format!("ب{}ت {}{} ", c, c, c));
                    }
                }
                texts.push(s);
            }
            for _ in 0..20 {
                let code = if r.chance(5, 6) { "ar" } else { g.any_code(r) };
                let mut t = g.text(r, code, Opt::default());
                if r.chance(1, 2) {
                    // sprinkle marks, elongation and at most one alef per word
                    let mut alef = false;
                    let mut out = String::new();
                    for c in t.chars() {
                        if spec::is_sep(c) {
                            alef = false;
                        }
                        if ALEFS.contains(&c) {
                            alef = true;
                        }
                        out.push(c);
                        if r.chance(1, 6) {
                            out.push(char::from_u32(r.range(0x64b, 0x65b) as u32).unwrap());
                        }
                        if r.chance(1, 12) {
                            out.push('\u{640}');
                        }
                        if !alef && r.chance(1, 12) {
                            out.push(*r.pick(&ALEFS));
                            alef = true;
                        }
                    }
                    t = out;
                }
                texts.push(t);
            }
            for t in &texts {
                let raw = spec::ref_tokenize(t);
                let v = node.ask(&json!({ "tokens": raw }).to_string());
                let stems: Vec<String> = serde_json::from_value(v["stems"].clone()).map_err(|e| e.to_string()).ctx("oracle", || "reply".into())?;
                let mut want: Vec<String> = stems.iter().filter(|s| !s.is_empty()).cloned().collect();
                let got = pipe.run(lang.tokenize(t));
                st.count("words_compared", raw.len() as u64);
                st.count("words_changed", raw.iter().zip(&stems).filter(|(a, b)| a != b).count() as u64);
                st.eval(hash_str(t), raw.iter().zip(&stems).any(|(a, b)| a != b));
                if got != want && cfg.known.contains("later-alefs") {
                    // known: of several variants of alef in one word, only the first is replaced
                    let mut used = None;
                    want = raw
                        .iter()
                        .zip(&stems)
                        .map(|(a, b)| {
                            if a.chars().filter(|c| ALEFS.contains(c)).count() < 2 {
                                return b.clone();
                            }
                            used = Some(a.clone());
                            let mut first = true;
                            a.chars()
                                .filter(|c| *c != '\u{640}' && !('\u{64b}'..='\u{65b}').contains(c))
                                .map(|c| {
                                    if ALEFS.contains(&c) && std::mem::take(&mut first) {
                                        '\u{627}'
                                    } else {
                                        c
                                    }
                                })
                                .collect()
                        })
                        .filter(|s| !s.is_empty())
                        .collect();
                    if got == want {
                        st.known("later-alefs", format!("word {:?}", used));
                        continue;
                    }
                }
                if got != want {
                    let n = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    return viol(format!("term {} is {:?}, the bundled JavaScript computes {:?}", n, got.get(n), want.get(n))).ctx("text", || t.clone());
                }
            }
            st.sample(|| texts[0].clone());
            check!(!texts.is_empty(), "no text");
            Ok(())
        },
    )
}
