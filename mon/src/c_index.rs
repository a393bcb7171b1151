//! Checks over the emitted index: C01 C02 C04 C05 C06 C07 C08 C09 C22 C23.

use crate::check;
use crate::gen::{self, Gen, Opt};
use crate::json::{self, J};
use crate::run::*;
use crate::scen::{self, Lang, Parsed, SOpt, Scen, Tok};
use crate::util::{hash_str, mix, Rng};
use elasticlunr::pipeline::PipelineFn;
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const STACK: usize = 512 << 20;

fn short(s: &str) -> String {
    if s.len() <= 300 {
        return format!("{:?}", s);
    }
    let mut n = 300;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{:?}…({} bytes)", &s[..n], s.len())
}

fn parsed(js: &str) -> Result<Parsed, Viol> {
    scen::read(js).ctx("json", || short(js))
}

/// Scale scenarios, tried before the random ones.
fn big(g: &Gen, r: &mut Rng, idx: u64, thorough: bool) -> Option<Scen> {
    let base = |fields: usize| Scen {
        lang: Lang::Built("en"),
        fields: g.plain_names(fields, "f"),
        toks: vec![None; fields],
        ref_field: None,
        save: None,
        docs: vec![],
    };
    let rep = |w: &str, n: usize| -> String { format!("{} ", w).repeat(n) };
    Some(match idx {
        0 => {
            // document counts beyond 16 bits
            let mut s = base(2);
            s.save = Some(false);
            for i in 0..65_700 {
                s.docs.push((format!("{}", i), vec![if i % 2 == 0 { "common word".into() } else { "common".into() }, if i % 700 == 0 { "rare".to_string() } else { String::new() }]));
            }
            s
        }
        1 => {
            // repetition counts around powers of two, one document each
            let mut s = base(2);
            for (k, n) in [254usize, 255, 256, 257, 511, 512, 513, 32767, 32768, 65534, 65535, 65536, 65537, 70001].iter().enumerate() {
                s.docs.push((format!("d{}", k), vec![rep("apple", *n) + &rep("pear", n / 3), rep("plum", 3)]));
            }
            s
        }
        2 => {
            // many fields
            let mut s = base(700);
            for d in 0..4 {
                s.docs.push((format!("d{}", d), (0..700).map(|f| format!("w{} common {}", f, if (f + d) % 2 == 0 { "alpha" } else { "beta beta" })).collect()));
            }
            s
        }
        3 => {
            // many distinct terms in one document
            let mut s = base(1);
            let mut t = String::new();
            for i in 0..70_000 {
                t += &format!("{} ", mix(i) % 1_000_000_007);
            }
            s.docs.push(("d".into(), vec![t]));
            s
        }
        4 => {
            // long words sharing prefixes
            let mut s = base(1);
            s.lang = Lang::Test(scen::TestLang { name: "Test".into(), sep: ' ', lower: false, stages: vec![] });
            for (k, n) in gen::BIG.iter().chain(&[255, 256, 257, 4095, 4096, 4097, 9999]).enumerate() {
                let w: String = "abcdefghij".chars().cycle().take(*n).collect();
                s.docs.push((format!("d{}", k), vec![format!("{} {}x é{}", w, w, &w[..w.len() / 2])]));
            }
            s
        }
        5 => {
            // a text beyond a megabyte
            let mut s = base(1);
            let mut t = String::new();
            while t.len() < (if thorough { 40 << 20 } else { 3 << 20 }) {
                t += &g.corpus_word(r, "en");
                t.push(' ');
            }
            s.docs.push(("d".into(), vec![t]));
            s
        }
        6 => {
            let mut s = base(3);
            for i in 0..1300 {
                s.docs.push((format!("doc {}", i), (0..3).map(|f| format!("{} {} shared{} {}", g.corpus_word(r, "en"), g.corpus_word(r, "de"), (i * 7 + f) % 5, "x".repeat(i % 300))).collect()));
            }
            s
        }
        9 => {
            // many different beginnings, and many different second characters
            let mut s = base(1);
            s.lang = Lang::Test(scen::TestLang { name: "Test".into(), sep: ' ', lower: false, stages: vec![] });
            let all: Vec<char> = (0x21..0xffffu32).filter_map(char::from_u32).filter(|c| c.is_alphanumeric()).collect();
            s.docs.push(("d".into(), vec![all.iter().map(|c| format!("{} ", c)).collect()]));
            s.docs.push(("e".into(), vec![all.iter().map(|c| format!("x{}y ", c)).collect()]));
            s
        }
        7 if !g.novel_ints.is_empty() => {
            // counts around integers that newly appear in the sources
            let mut s = base(1);
            let mut k = 0;
            for &n in g.novel_ints.iter().filter(|n| **n <= 100_000).take(12) {
                for d in 0..3u64 {
                    let c = (n + d).saturating_sub(1) as usize;
                    s.docs.push((format!("d{}", k), vec![rep("apple", c) + "pear"]));
                    k += 1;
                }
            }
            s
        }
        8 if !g.novel_ints.is_empty() => {
            let mut s = base(1);
            s.save = Some(false);
            let n = g.novel_ints.iter().filter(|n| **n <= 100_000).max().copied().unwrap_or(10) + 3;
            for i in 0..n {
                s.docs.push((format!("{}", i), vec!["common".into()]));
            }
            s
        }
        _ => return None,
    })
}

fn scenario(g: &Gen, r: &mut Rng, idx: u64, thorough: bool, o: &SOpt) -> Scen {
    match big(g, r, idx, thorough) {
        Some(s) => s,
        None => scen::gen(g, r, o),
    }
}

fn note(st: &mut Stats, s: &Scen, p: &Parsed) {
    let postings: usize = p.post.values().flat_map(|f| f.values()).map(|(d, _)| d.len()).sum();
    st.count("documents_added", s.docs.len() as u64);
    st.count("fields", s.fields.len() as u64);
    st.count("postings_compared", postings as u64);
    st.count(&format!("lang_{}", match &s.lang { Lang::Built(c) => c, Lang::Test(_) => "custom" }), 1);
    st.max("documents", s.docs.len() as u64);
    st.max("fields", s.fields.len() as u64);
    st.eval(s.hash(), postings > 0);
    st.sample(|| s.describe());
}

// ---------------------------------------------------------------- C01 / C02

pub fn c01_c02(cfg: &Cfg, g: &Gen, weights: bool) -> Outcome {
    let o = SOpt::default();
    run(cfg, if cfg.thorough { 200_000 } else { 9_000 }, STACK, |_| (), |_, r, idx, st| {
        let s = scenario(g, r, idx, cfg.thorough, &o);
        let js = s.build().to_json();
        let m = s.model();
        let mut go = || -> R {
            let p = parsed(&js)?;
            for (f, terms) in &m.post {
                let Some(got) = p.post.get(f) else {
                    check!(terms.is_empty(), "field {} has no inverted index", short(f));
                    continue;
                };
                for (t, ds) in terms {
                    let e = got.get(t);
                    for (d, n) in ds {
                        let tf = e.and_then(|e| e.0.get(d));
                        match tf {
                            None => return viol(format!("lost: document {} is not listed under term {} of field {}, though its text yields the term {} time(s)", short(d), short(t), short(f), n)),
                            Some(tf) => {
                                if weights {
                                    let want = (*n as f64).sqrt();
                                    check!(*tf == want, "weight of term {} for document {} in field {} is {:?}, expected sqrt({}) = {:?}", short(t), short(d), short(f), tf, n, want);
                                    st.max("count_of_one_term", *n);
                                }
                            }
                        }
                    }
                    if weights {
                        let df = e.map_or(0, |e| e.1);
                        check!(df == ds.len() as i64, "document frequency of term {} in field {} is {}, but {} document(s) contain it", short(t), short(f), df, ds.len());
                        st.max("document_frequency", ds.len() as u64);
                    }
                }
                for (t, (ds, df)) in got {
                    let want = terms.get(t);
                    for d in ds.keys() {
                        check!(want.map_or(false, |w| w.contains_key(d)), "invented: document {} is listed under term {} of field {}, which its text does not yield", short(d), short(t), short(f));
                    }
                    if weights {
                        check!(*df == ds.len() as i64, "document frequency of term {} in field {} is {}, but {} document(s) are listed", short(t), short(f), df, ds.len());
                    }
                }
            }
            for (f, got) in &p.post {
                check!(m.post.contains_key(f) || got.values().all(|e| e.0.is_empty()), "the index has postings for {}, which is not a field", short(f));
            }
            note(st, &s, &p);
            Ok(())
        };
        go().ctx("scenario", || s.describe())
    })
}

// ---------------------------------------------------------------- C04

fn stored(s: &Scen, d: &[String]) -> BTreeMap<String, String> {
    // later fields win over the reference only when they bear its name
    let mut m = BTreeMap::new();
    for (i, v) in d.iter().enumerate() {
        m.insert(s.fields[i].clone(), v.clone());
    }
    m
}

pub fn c04(cfg: &Cfg, g: &Gen) -> Outcome {
    let o = SOpt { text: Opt { max_word: 2100, ..Opt::default() }, ..SOpt::default() };
    run(cfg, if cfg.thorough { 200_000 } else { 9_000 }, STACK, |_| (), |_, r, idx, st| {
        let mut s = scenario(g, r, idx, cfg.thorough, &o);
        if idx > 10 && r.chance(1, 2) && !s.docs.is_empty() {
            // raw texts: control characters, line ends, surrounding white space, long
            let k = r.below(s.docs.len());
            let (l, shape) = (s.lang.make(), s.clone());
            for (i, v) in s.docs[k].1.iter_mut().enumerate() {
                let n = r.below(30);
                *v = match r.below(5) {
                    0 => format!("  {}\r\n", v),
                    1 => (0..n).map(|_| *r.pick(&['\u{0}', '\u{1}', '\n', '\r', '\t', '"', '\\', '/', '\u{7f}', '\u{85}', '\u{2028}', '\u{fffe}', '\u{ffff}', '\u{10ffff}', '\u{feff}', ' ', 'a', '\u{b}', '\u{1f}', '<', '&'])).collect(),
                    2 => v.repeat(r.range(1, 4)),
                    3 => {
                        let k = g.size(r, 70_000);
                        let unit = *r.pick(&["x", "é", "\n", " ", "\\"]);
                        // no single word longer than 1000
                        (0..k).map(|i| if i % 1000 == 999 { " " } else { unit }).collect::<String>()
                    }
                    _ => v.clone(),
                };
                // a language or tokenizer that makes few words of it: no deeper than 2000 or so
                if shape.depth2(&*l, i, v) > 20_000_000 {
                    *v = v.chars().take(2000).collect();
                }
            }
        }
        let ix = s.build();
        let js = if r.chance(1, 4) && s.shallow() { ix.to_json_pretty() } else { ix.to_json() };
        let mut go = || -> R {
            let p = parsed(&js)?;
            check!(p.save == s.saved(), "the save flag is {}, expected {}", p.save, s.saved());
            let rf = s.rf();
            let mut seen = BTreeSet::new();
            for (r, vals) in &s.docs {
                seen.insert(r.clone());
                let Some(d) = p.docs.get(r) else { return viol(format!("document {} is not registered in the document store", short(r))) };
                if !s.saved() {
                    check!(d.is_empty(), "saving is off, but document {} is stored with {:?}", short(r), d.iter().next());
                    continue;
                }
                let want = stored(&s, vals);
                for (f, v) in &want {
                    match d.get(f) {
                        None => return viol(format!("document {}: field {} was not stored", short(r), short(f))),
                        Some(x) => {
                            // a field bearing the reference field's name keeps the value it was given
                            check!(x == v, "document {}: field {} stored as {}, was {}", short(r), short(f), short(x), short(v));
                        }
                    }
                }
                if !want.contains_key(&rf) {
                    match d.get(&rf) {
                        None => return viol(format!("document {} does not hold its reference under {}", short(r), short(&rf))),
                        Some(x) => check!(x == r, "document {} holds the reference {} under {}", short(r), short(x), short(&rf)),
                    }
                }
                for k in d.keys() {
                    check!(*k == rf || want.contains_key(k), "document {} has a value for {}, which was not provided", short(r), short(k));
                }
                st.count("values_compared", want.len() as u64);
                st.count("bytes_compared", want.values().map(|v| v.len() as u64).sum());
            }
            for k in p.docs.keys() {
                check!(seen.contains(k), "document {} was never added", short(k));
            }
            if !s.saved() {
                st.count("scenarios_saving_off", 1);
            }
            note(st, &s, &p);
            Ok(())
        };
        go().ctx("scenario", || s.describe())
    })
}

// ---------------------------------------------------------------- C06 (index half)

pub fn c06(cfg: &Cfg, g: &Gen) -> Outcome {
    let o = SOpt { text: Opt { max_word: 120, ..Opt::default() }, ..SOpt::default() };
    run(cfg, if cfg.thorough { 250_000 } else { 14_000 }, STACK, |_| (), |_, r, idx, st| {
        if idx > 10 && idx % 2 == 0 {
            return crate::c_store::doc_store_case(r, g, st, true);
        }
        let s = scenario(g, r, idx, cfg.thorough, &o);
        let js = s.build().to_json();
        let m = s.model();
        let mut go = || -> R {
            let p = parsed(&js)?;
            let none = BTreeMap::new();
            for (d, _) in &s.docs {
                let want = m.lens.get(d).unwrap_or(&none);
                let e = BTreeMap::new();
                let got = p.info.get(d).unwrap_or(&e);
                for (f, n) in want {
                    match got.get(f) {
                        None => return viol(format!("no length recorded for document {} field {} (expected {})", short(d), short(f), n)),
                        Some(x) => check!(*x == *n as i64, "length of document {} field {} recorded as {}, but the text yields {} token(s)", short(d), short(f), x, n),
                    }
                    st.count("lengths_compared", 1);
                    st.max("length", *n);
                }
                for f in got.keys() {
                    check!(want.contains_key(f), "a length ({}) is recorded for document {} field {}, which was not provided or is the reference", got[f], short(d), short(f));
                }
            }
            for (d, x) in &p.info {
                check!(x.is_empty() || m.lens.contains_key(d), "lengths are recorded for document {}, which has none", short(d));
            }
            note(st, &s, &p);
            Ok(())
        };
        go().ctx("scenario", || s.describe())
    })
}

// ---------------------------------------------------------------- C05

pub fn c05(cfg: &Cfg, g: &Gen) -> Outcome {
    let o = SOpt { repeats: true, text: Opt { max_word: 40, big: false, ..Opt::default() }, ..SOpt::default() };
    run(cfg, if cfg.thorough { 400_000 } else { 20_000 }, STACK, |_| (), |_, r, idx, st| {
        if idx > 10 && idx % 2 == 0 {
            return crate::c_store::doc_store_case(r, g, st, false);
        }
        let s = scenario(g, r, idx, cfg.thorough, &o);
        let mut ix = s.empty();
        let mut seen = BTreeSet::new();
        let many = s.docs.len() > 40;
        let go = |ix: &mut Index, seen: &mut BTreeSet<String>, st: &mut Stats| -> R {
            for (k, (d, v)) in s.docs.iter().enumerate() {
                ix.add_doc(d, v);
                seen.insert(d.clone());
                if many && k + 1 < s.docs.len() {
                    continue;
                }
                let js = ix.to_json();
                let p = parsed(&js)?;
                check!(p.length == seen.len() as i64, "after {} addition(s) the published document count is {}, but {} document(s) were added", k + 1, p.length, seen.len());
                check!(p.docs.len() == seen.len() && p.docs.keys().all(|x| seen.contains(x)), "after {} addition(s) the emitted documents are {:?}, expected {:?}", k + 1, p.docs.keys().take(20).collect::<Vec<_>>(), seen.iter().take(20).collect::<Vec<_>>());
                st.count("index_states_checked", 1);
                if seen.len() < k + 1 {
                    st.count("index_states_after_a_repeated_reference", 1);
                }
            }
            Ok(())
        };
        let v = go(&mut ix, &mut seen, st);
        st.eval(s.hash(), s.docs.len() > 1);
        st.max("documents", s.docs.len() as u64);
        st.sample(|| s.describe());
        v.ctx("scenario", || s.describe())
    })
}

// ---------------------------------------------------------------- C07

pub fn c07(cfg: &Cfg, g: &Gen) -> Outcome {
    let o = SOpt { text: Opt { max_word: 60, ..Opt::default() }, max_docs: 70, ..SOpt::default() };
    run(cfg, if cfg.thorough { 150_000 } else { 9_000 }, STACK, |_| (), |_, r, idx, st| {
        let mut s = if idx % 4 == 3 { scen::gen(g, r, &SOpt { repeats: true, ..o }) } else { scen::gen(g, r, &o) };
        if s.docs.is_empty() {
            s.docs.push(("d".into(), s.fields.iter().map(|_| g.text(r, s.lang.code(), o.text)).collect()));
        }
        // a history: every entry is an addition
        let mut hist: Vec<(String, Vec<String>)> = s.docs.clone();
        let extra = if r.chance(1, 12) { g.size(r, 300) } else { r.range(1, 6) };
        for _ in 0..extra {
            let (rf, vals) = r.pick(&s.docs).clone();
            let mut v = vals;
            match r.below(6) {
                0 => {}
                1 => v = (0..s.fields.len()).map(|_| g.text(r, s.lang.code(), Opt { big: false, ..o.text })).collect(),
                2 => {
                    if !v.is_empty() {
                        let k = r.below(v.len());
                        v[k] = format!("{} {}", v[k], g.decorated(r, s.lang.code(), Opt { big: false, ..o.text }));
                    }
                }
                3 => v.reverse(),
                4 => {
                    let n = r.below(v.len() + 1);
                    v.truncate(n);
                }
                _ => v = r.pick(&s.docs).1.clone(),
            }
            v.truncate(s.fields.len());
            hist.push((rf, v));
        }
        let go = |st: &mut Stats| -> R {
            let mut ix = s.empty();
            let l = s.lang.make();
            let p = l.make_pipeline();
            let rf = s.rf();
            let mut latest: BTreeMap<String, Vec<String>> = BTreeMap::new();
            // (field, term, doc) -> (count, is from the latest addition that gave the field and that is the latest addition)
            let mut must: BTreeMap<(usize, String, String), u64> = BTreeMap::new();
            let mut may: BTreeMap<(usize, String, String), BTreeSet<u64>> = BTreeMap::new();
            let mut lens: BTreeMap<(String, usize), i64> = BTreeMap::new();
            let mut last_js = String::new();
            for (k, (d, vals)) in hist.iter().enumerate() {
                let same = latest.get(d) == Some(vals);
                let before = if same { Some(ix.to_json()) } else { None };
                ix.add_doc(d, vals);
                if let Some(b) = before {
                    let a = ix.to_json();
                    check!(a == b, "adding {} again with identical content changed the index (step {}): {}", short(d), k, first_diff(&b, &a));
                    st.count("identical_readds", 1);
                } else if latest.contains_key(d) {
                    st.count("differing_readds", 1);
                }
                latest.insert(d.clone(), vals.clone());
                for (f, t, x) in must.keys().filter(|x| x.2 == *d).cloned().collect::<Vec<_>>() {
                    let n = must.remove(&(f, t.clone(), x.clone())).unwrap();
                    may.entry((f, t, x)).or_default().insert(n);
                }
                for (f, v) in vals.iter().enumerate() {
                    if s.fields[f] == rf {
                        continue;
                    }
                    let toks = s.tokens(&*l, &p, f, v);
                    lens.insert((d.clone(), f), toks.len() as i64);
                    for t in toks {
                        *must.entry((f, t, d.clone())).or_insert(0) += 1;
                    }
                }
                if hist.len() > 30 && k + 1 < hist.len() && !r_chance(k as u64 ^ idx) {
                    continue;
                }
                last_js = ix.to_json();
                let q = parsed(&last_js)?;
                check!(q.length == latest.len() as i64, "document count is {} after {} addition(s) of {} distinct document(s)", q.length, k + 1, latest.len());
                for (d, vals) in &latest {
                    let got = q.docs.get(d);
                    check!(got.is_some(), "document {} vanished", short(d));
                    let mut want = BTreeMap::new();
                    if s.saved() {
                        want = stored(&s, vals);
                        want.entry(rf.clone()).or_insert(d.clone());
                    }
                    let got = got.unwrap();
                    for f in want.keys().chain(got.keys()) {
                        check!(got.get(f) == want.get(f), "document {} has stored text {:?} for {}, its last addition gives {:?}", short(d), got.get(f).map(|x| short(x)), short(f), want.get(f).map(|x| short(x)));
                    }
                    st.count("stored_documents_compared", 1);
                }
                for ((d, f), n) in &lens {
                    let name = &s.fields[*f];
                    let e = q.info.get(d).and_then(|i| i.get(name)).copied();
                    check!(e == Some(*n), "document {} has length {:?} for field {}, the last addition that gave the field gives {}", short(d), e, short(name), n);
                    st.count("lengths_compared", 1);
                }
                for ((f, t, d), n) in &must {
                    let tf = q.post.get(&s.fields[*f]).and_then(|p| p.get(t)).and_then(|e| e.0.get(d));
                    let want = (*n as f64).sqrt();
                    check!(tf == Some(&want), "after step {} the weight of term {} for document {} in field {} is {:?}, expected {:?} from its current text", k, short(t), short(d), short(&s.fields[*f]), tf, want);
                    st.count("weights_compared", 1);
                }
                for (fi, f) in s.fields.iter().enumerate() {
                    let Some(terms) = q.post.get(f) else { continue };
                    for (t, (ds, df)) in terms {
                        check!(*df == ds.len() as i64, "document frequency of term {} in field {} is {} with {} document(s) listed, after re-adding", short(t), short(f), df, ds.len());
                        for (d, tf) in ds {
                            let key = (fi, t.clone(), d.clone());
                            if must.contains_key(&key) {
                                continue;
                            }
                            let stale = may.get(&key).map_or(false, |c| c.iter().any(|n| (*n as f64).sqrt() == *tf));
                            check!(stale, "document {} is listed under term {} of field {} with weight {}, which none of its versions gives", short(d), short(t), short(f), tf);
                        }
                    }
                }
                st.count("states_checked", 1);
            }
            st.eval(hash_str(&last_js), hist.len() > latest.len());
            st.max("history", hist.len() as u64);
            st.sample(|| format!("{} history={:?}", s.describe(), hist));
            Ok(())
        };
        go(st).ctx("scenario", || s.describe()).ctx("history", || format!("{:?}", hist))
    })
}

fn r_chance(x: u64) -> bool {
    mix(x) % 9 == 0
}

fn first_diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut lo = n.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        let mut hi = (n + 60).min(s.len());
        while !s.is_char_boundary(hi) {
            hi -= 1;
        }
        s[lo..hi].to_string()
    };
    format!("first difference at byte {}: …{}… / …{}…", n, cut(a), cut(b))
}

// ---------------------------------------------------------------- C08

pub fn c08(cfg: &Cfg, g: &Gen) -> Outcome {
    let o = SOpt { text: Opt { max_word: 60, ..Opt::default() }, max_docs: 130, ..SOpt::default() };
    run(cfg, if cfg.thorough { 120_000 } else { 8_000 }, STACK, |_| (), |_, r, idx, st| {
        let mut s = scen::gen(g, r, &o);
        if idx < 5 {
            // neighbours of many documents
            s.fields = vec!["a".into(), "b".into()];
            s.toks = vec![None, None];
            s.ref_field = None;
            s.lang = Lang::Built("en");
            if idx == 3 {
                // many beginnings
                s.lang = Lang::Test(scen::TestLang { name: "Test".into(), sep: ' ', lower: false, stages: vec![] });
                s.docs = (0..4).map(|i| (format!("{}", i), (0..2).map(|f| (0x4e00u32..0x9fff).filter(|c| c % (2 + i) == f).filter_map(char::from_u32).map(|c| format!("{} ", c)).collect()).collect())).collect();
            } else if idx == 4 {
                s.docs = (0..9000).map(|i| (format!("{}", i), vec![format!("n{} common", i % 97), if i % 3 == 0 { "x y".into() } else { String::new() }])).collect();
            } else {
            s.docs = (0..[300, 1000, 260][idx as usize]).map(|i| (format!("{}", i), vec![format!("{} {} shared", g.corpus_word(r, "en"), g.corpus_word(r, "en")), g.text_n(r, "en", 3, Opt { big: false, ..o.text })])).collect();
            }
        }
        let go = |r: &mut Rng, st: &mut Stats| -> R {
            let js = s.build().to_json();
            let p = parsed(&js)?;
            let mut perm = s.clone();
            let np = if s.docs.len() > 40 { 2 } else { 3 };
            for k in 0..np {
                if k == 0 {
                    perm.docs.reverse();
                } else {
                    r.shuffle(&mut perm.docs);
                }
                let js2 = perm.build().to_json();
                check!(js2 == js, "the order of additions changed the index: {} (second order: {:?})", first_diff(&js, &js2), perm.docs.iter().map(|d| &d.0).take(60).collect::<Vec<_>>());
                st.count("permutations", 1);
            }
            // union of the one-document indexes
            let mut post: BTreeMap<String, BTreeMap<String, (BTreeMap<String, f64>, i64)>> = BTreeMap::new();
            let mut info: BTreeMap<String, BTreeMap<String, i64>> = BTreeMap::new();
            for d in &s.docs {
                let one = Scen { docs: vec![d.clone()], ..s.clone_config() };
                let js1 = one.build().to_json();
                let q = parsed(&js1)?;
                for (f, terms) in q.post {
                    let e = post.entry(f).or_default();
                    for (t, (ds, df)) in terms {
                        let x = e.entry(t).or_default();
                        x.1 += df;
                        x.0.extend(ds);
                    }
                }
                for (d, m) in q.info {
                    info.entry(d).or_default().extend(m);
                }
                st.count("one_document_indexes", 1);
            }
            for f in &s.fields {
                let e = BTreeMap::new();
                let a = p.post.get(f).unwrap_or(&e);
                let b = post.get(f).unwrap_or(&e);
                if a != b {
                    for t in a.keys().chain(b.keys()) {
                        check!(a.get(t) == b.get(t), "field {} term {}: the joint index has {:?}, the documents on their own give {:?}", short(f), short(t), a.get(t), b.get(t));
                    }
                }
            }
            for d in s.docs.iter().map(|d| &d.0) {
                let e = BTreeMap::new();
                check!(p.info.get(d).unwrap_or(&e) == info.get(d).unwrap_or(&e), "lengths of document {}: {:?} in the joint index, {:?} on its own", short(d), p.info.get(d), info.get(d));
            }
            note(st, &s, &p);
            Ok(())
        };
        go(r, st).ctx("scenario", || s.describe())
    })
}

impl Scen {
    pub fn clone_config(&self) -> Scen {
        Scen { lang: self.lang.clone(), fields: self.fields.clone(), toks: self.toks.clone(), ref_field: self.ref_field.clone(), save: self.save, docs: vec![] }
    }
}

// ---------------------------------------------------------------- C09

fn keys_are(j: &J, want: &[&str], what: &str) -> R {
    let o = j.obj().ctx("at", || what.to_string())?;
    let got: BTreeSet<&str> = o.keys().map(|s| s.as_str()).collect();
    let want: BTreeSet<&str> = want.iter().copied().collect();
    check!(got == want, "{} has keys {:?}, expected {:?}", what, got, want);
    Ok(())
}

pub fn shape(j: &J, fields: &[String], rf: &str, save: bool, lang: &str, stages: &[String], refs: &BTreeSet<String>) -> R {
    let e = |r: Result<(), String>| r.ctx("at", String::new);
    keys_are(j, &["fields", "pipeline", "ref", "version", "index", "documentStore", "lang"], "the index")?;
    let got = j.get("fields").and_then(|a| a.arr().cloned()).ctx("at", || "fields".into())?;
    let want: Vec<J> = fields.iter().map(|f| J::Str(f.clone())).collect();
    check!(got == want, "\"fields\" is {:?}, expected {:?}", got, fields);
    let got = j.get("pipeline").and_then(|a| a.arr().cloned()).ctx("at", || "pipeline".into())?;
    let want: Vec<J> = stages.iter().map(|f| J::Str(f.clone())).collect();
    check!(got == want, "\"pipeline\" is {:?}, expected {:?}", got, stages);
    for (k, v) in [("ref", rf), ("version", "0.9.5"), ("lang", lang)] {
        check!(j.get(k).ok() == Some(&J::Str(v.to_string())), "\"{}\" is {:?}, expected {:?}", k, j.get(k), v);
    }
    let ix = j.get("index").and_then(|a| a.obj()).ctx("at", || "index".into())?;
    let got: BTreeSet<&String> = ix.keys().collect();
    let want: BTreeSet<&String> = fields.iter().collect();
    check!(got == want, "\"index\" has entries for {:?}, expected {:?}", got, want);
    for (f, t) in ix {
        // flatten() checks every node
        let p = json::flatten(t).ctx("field", || f.clone())?;
        for (term, (docs, df)) in &p {
            for (d, tf) in docs {
                check!(refs.contains(d), "term {} of field {} lists {}, which is not a document", short(term), short(f), short(d));
                check!(tf.is_finite() && *tf >= 0.0, "weight {} of term {}", tf, short(term));
            }
            check!(*df >= 0, "negative document frequency {} of term {}", df, short(term));
        }
    }
    let ds = j.get("documentStore").ctx("at", String::new)?;
    keys_are(ds, &["save", "docs", "docInfo", "length"], "documentStore")?;
    check!(ds.get("save").ok() == Some(&J::Bool(save)), "\"save\" is {:?}", ds.get("save"));
    e(ds.get("length").and_then(|l| l.int()).map(|_| ()))?;
    check!(ds.get("length").and_then(|l| l.int()) == Ok(refs.len() as i64), "\"length\" is {:?} with {} document(s)", ds.get("length"), refs.len());
    let docs = ds.get("docs").and_then(|d| d.obj()).ctx("at", || "docs".into())?;
    let got: BTreeSet<String> = docs.keys().cloned().collect();
    check!(got == *refs, "\"docs\" holds {:?}, expected {:?}", got, refs);
    for (d, v) in docs {
        let o = v.obj().ctx("document", || d.clone())?;
        for (k, x) in o {
            check!(matches!(x, J::Str(_)), "document {} has a non-string value for {}", short(d), short(k));
        }
    }
    let info = ds.get("docInfo").and_then(|d| d.obj()).ctx("at", || "docInfo".into())?;
    for (d, v) in info {
        check!(refs.contains(d), "\"docInfo\" has {}, which is not a document", short(d));
        for (f, n) in v.obj().ctx("docInfo of", || d.clone())? {
            check!(fields.contains(f), "\"docInfo\" of {} has a length for {}, which is not a field", short(d), short(f));
            check!(n.int().map_or(false, |n| n >= 0), "\"docInfo\" of {} has length {:?} for {}", short(d), n, short(f));
        }
    }
    Ok(())
}

pub fn c09(cfg: &Cfg, g: &Gen) -> Outcome {
    let o = SOpt { repeats: true, text: Opt { max_word: 300, ..Opt::default() }, ..SOpt::default() };
    run(cfg, if cfg.thorough { 150_000 } else { 8_000 }, STACK, |_| (), |_, r, idx, st| {
        let s = if idx == 0 || idx == 4 || idx == 5 { scen::gen(g, r, &o) } else { scenario(g, r, idx, cfg.thorough, &o) };
        let ix = s.build();
        let (a, b) = (ix.to_json(), ix.to_json_pretty());
        let stages: Vec<String> = match &s.lang {
            Lang::Built(c) => crate::spec::spec(c).stages.iter().map(|s| s.to_string()).collect(),
            Lang::Test(t) => t.stages.iter().map(|s| s.0.clone()).collect(),
        };
        let lname = match &s.lang {
            Lang::Built(c) => crate::spec::spec(c).name.to_string(),
            Lang::Test(t) => t.name.clone(),
        };
        let mut go = || -> R {
            let ja = json::parse(&a).ctx("to_json", || short(&a))?;
            let jb = json::parse(&b).ctx("to_json_pretty", || short(&b))?;
            check!(ja == jb, "to_json and to_json_pretty denote different values");
            let refs: BTreeSet<String> = s.docs.iter().map(|d| d.0.clone()).collect();
            shape(&ja, &s.fields, &s.rf(), s.saved(), &lname, &stages, &refs)?;
            let again = serde_json::to_string(&ix).map_err(|e| e.to_string()).ctx("at", || "serde_json::to_string".into())?;
            let jc = json::parse(&again).ctx("serialize", || short(&again))?;
            check!(jc == ja, "serializing the index directly gives another value than to_json");
            let p = scen::read(&a).ctx("to_json", || short(&a))?;
            // complete: every term of every document's last version is there
            let l = s.lang.make();
            let pipe = l.make_pipeline();
            let rf = s.rf();
            let mut seen = BTreeSet::new();
            for (d, vals) in s.docs.iter().rev() {
                if !seen.insert(d) {
                    continue;
                }
                for (f, v) in vals.iter().enumerate() {
                    if s.fields[f] == rf {
                        continue;
                    }
                    for t in s.tokens(&*l, &pipe, f, v) {
                        let there = p.post.get(&s.fields[f]).and_then(|x| x.get(&t)).map_or(false, |x| x.0.contains_key(d));
                        check!(there || t.is_empty(), "the trie of field {} lacks document {} under term {}", short(&s.fields[f]), short(d), short(&t));
                    }
                }
            }
            st.count("json_bytes", (a.len() + b.len()) as u64);
            note(st, &s, &p);
            Ok(())
        };
        go().ctx("scenario", || s.describe())
    })
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// the language's tokenizer saw this text
    Lang(String),
    /// the tokenizer of this field saw this text
    Field(usize, String),
}
type Log = Rc<RefCell<Vec<Ev>>>;

struct LogLang {
    log: Log,
    stages: usize,
}
struct Mark(usize);
impl PipelineFn for Mark {
    fn name(&self) -> String {
        format!("mark{}", self.0)
    }
    fn filter(&self, t: String) -> Option<String> {
        if t.contains("drop") && self.0 == 0 {
            return None;
        }
        Some(format!("{}/{}", t, self.0))
    }
}
fn lang_tokens(text: &str) -> Vec<String> {
    // several tokens, identifying tokenizer and text
    let h = hash_str(text);
    let n = h % 4;
    (0..n).map(|k| if k == 2 { format!("Ldrop{:x}", h & 0xffff) } else { format!("L{:x}.{}", h & 0xff_ffff, k.min(1)) }).collect()
}
fn field_tokens(f: usize, text: &str) -> Vec<String> {
    let h = hash_str(text);
    let n = h % 5;
    (0..n).map(|k| if k == 3 {
        format!("Fdrop{}", f)
    } else if k == 1 && h & 0x700 == 0 {
        // what a custom tokenizer may emit and the usual ones never do
        match h >> 11 & 7 {
            0 => format!("F{}-{:x} -", f, h & 0xff),
            1 => String::new(),
            2 => format!(" F{}\tß ", f),
            3 => "\u{feff}F\u{a0}".into(),
            4 => text.chars().take(60).collect(),
            5 => format!("{}", f),
            6 => format!("F{}", "é".repeat(200)),
            _ => "-".into(),
        }
    } else { format!("F{}:{:x}.{}", f, h & 0xff_ffff, k / 2) }).collect()
}
impl Language for LogLang {
    fn name(&self) -> String {
        "Log".into()
    }
    fn code(&self) -> String {
        "lo".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        self.log.borrow_mut().push(Ev::Lang(text.to_string()));
        lang_tokens(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline { queue: (0..self.stages).map(|i| Box::new(Mark(i)) as Box<dyn PipelineFn>).collect() }
    }
}

pub fn c22(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 300_000 } else { 20_000 }, STACK, |_| (), |_, r, idx, st| {
        let o = Opt { max_word: 60, ..Opt::default() };
        let nf = if idx < 8 { [257usize, 513, 600, 1025, 1100, 2049, 4097, 5000][idx as usize] } else if r.chance(1, 6) { g.size(r, 300).max(1) } else { r.range(1, 7) };
        let plain = nf > 300 || r.chance(1, 2);
        let fields = if plain { g.plain_names(nf, "f") } else { g.names(r, nf, o) };
        let builtin = r.chance(1, 3);
        let code = if builtin { r.pick(&crate::spec::spaced()).code } else { "en" };
        let custom: Vec<bool> = match r.below(4) {
            0 => vec![false; nf],
            1 => vec![true; nf],
            _ => (0..nf).map(|_| r.chance(1, 2)).collect(),
        };
        // the reference field: a field, close to a field's name, or something else
        let (rf, explicit) = match r.below(6) {
            0 | 1 => (r.pick(&fields).clone(), true),
            2 => (format!("{} ", r.pick(&fields)), true),
            3 => (r.pick(&fields).to_uppercase(), true),
            4 => ("id".to_string(), false),
            _ => (g.name(r, o), true),
        };
        let stages = r.below(4);
        let log: Log = Rc::new(RefCell::new(vec![]));
        let mk: Box<dyn Language> = if builtin { (crate::spec::spec(code).make)() } else { Box::new(LogLang { log: log.clone(), stages }) };
        let mut b = IndexBuilder::with_language(mk);
        if explicit && r.chance(1, 2) {
            b = b.set_ref(&rf);
        }
        for (i, f) in fields.iter().enumerate() {
            if custom[i] {
                let l = log.clone();
                b = b.add_field_with_tokenizer(
                    f,
                    Box::new(move |s| {
                        l.borrow_mut().push(Ev::Field(i, s.to_string()));
                        field_tokens(i, s)
                    }),
                );
            } else if r.chance(1, 2) {
                b = b.add_field(f);
            } else {
                b = b.add_fields(&[f]);
            }
        }
        if explicit {
            b = b.set_ref(&rf);
        }
        let mut ix = b.build();
        let refl = (crate::spec::spec(code).make)();
        let refp: Pipeline = if builtin { refl.make_pipeline() } else { LogLang { log: Rc::new(RefCell::new(vec![])), stages }.make_pipeline() };
        let nd = if nf > 20 { r.range(1, 3) } else { r.range(1, 6) };
        let mut docs = vec![];
        for d in 0..nd {
            let vals: Vec<String> = (0..nf)
                .map(|i| {
                    let core = match r.below(6) {
                        0 => g.text(r, code, Opt { big: false, ..o }),
                        1 => format!("  {} \n", g.word(r, code, o)),
                        2 => String::new(),
                        3 => g.word(r, code, o).to_uppercase(),
                        _ => g.text_n(r, code, 3, Opt { big: false, ..o }),
                    };
                    if fields[i] == rf {
                        // recognizable: no tokenizer may ever see this text
                        format!("refvalue\u{1}{}\u{1}{}", d, core)
                    } else {
                        core
                    }
                })
                .collect();
            docs.push((format!("doc{}", d), vals));
        }
        let describe = || format!("builtin={:?} custom={:?} fields={:?} ref={:?} stages={} docs={:?}", if builtin { Some(code) } else { None }, custom, fields, rf, stages, docs);
        let go = |ix: &mut Index, st: &mut Stats| -> R {
            let mut want: BTreeMap<usize, BTreeMap<String, BTreeMap<String, u64>>> = BTreeMap::new();
            for (d, vals) in &docs {
                log.borrow_mut().clear();
                ix.add_doc(d, vals);
                let evs = log.borrow().clone();
                st.count("tokenizer_calls_logged", evs.len() as u64);
                for e in &evs {
                    match e {
                        Ev::Lang(t) => {
                            check!(!t.contains("refvalue\u{1}"), "the reference field's value was tokenized by the language");
                            check!(vals.iter().enumerate().any(|(i, v)| !custom[i] && v == t), "the language's tokenizer was given {}, which is not the text of a field without custom tokenizer", short(t));
                        }
                        Ev::Field(i, t) => {
                            check!(!t.contains("refvalue\u{1}"), "the reference field's value was tokenized by its custom tokenizer");
                            check!(vals[*i] == *t, "the tokenizer of field {} was given {}, the text is {}", short(&fields[*i]), short(t), short(&vals[*i]));
                        }
                    }
                }
                for (i, v) in vals.iter().enumerate() {
                    if fields[i] == rf {
                        continue;
                    }
                    let raw = if custom[i] {
                        field_tokens(i, v)
                    } else if builtin {
                        refl.tokenize(v)
                    } else {
                        lang_tokens(v)
                    };
                    for t in crate::spec::ref_run(&refp, raw) {
                        if t.is_empty() {
                            continue;
                        }
                        *want.entry(i).or_default().entry(t).or_default().entry(d.clone()).or_insert(0) += 1;
                    }
                }
            }
            let js = ix.to_json();
            let p = parsed(&js)?;
            for (i, f) in fields.iter().enumerate() {
                let e = BTreeMap::new();
                let w = want.get(&i).unwrap_or(&e);
                let pe = BTreeMap::new();
                let got = p.post.get(f).unwrap_or(&pe);
                let a: BTreeSet<&String> = w.keys().collect();
                let b: BTreeSet<&String> = got.iter().filter(|x| !x.1 .0.is_empty()).map(|x| x.0).collect();
                if a != b {
                    return viol(format!(
                        "field {} ({} tokenizer{}) has terms {:?}, its tokenizer and the pipeline give {:?}",
                        short(f),
                        if custom[i] { "custom" } else { "language" },
                        if *f == rf { ", reference field" } else { "" },
                        b.difference(&a).take(5).collect::<Vec<_>>(),
                        a.difference(&b).take(5).collect::<Vec<_>>()
                    ));
                }
                for (t, ds) in w {
                    let g: BTreeSet<&String> = got[t].0.keys().collect();
                    check!(g == ds.keys().collect(), "field {} term {} lists {:?}, expected {:?}", short(f), short(t), g, ds.keys());
                }
                if *f == rf {
                    st.count("reference_named_fields", 1);
                    for (d, vals) in &docs {
                        check!(p.docs.get(d).and_then(|x| x.get(f)) == Some(&vals[i]), "the field named like the reference is stored as {:?}", p.docs.get(d).and_then(|x| x.get(f)));
                        check!(p.info.get(d).map_or(true, |x| !x.contains_key(f)), "a length is recorded for the reference field");
                    }
                }
            }
            st.eval(hash_str(&js), custom.iter().any(|x| *x));
            st.max("fields", nf as u64);
            st.count("fields_with_custom_tokenizer", custom.iter().filter(|x| **x).count() as u64);
            Ok(())
        };
        let v = go(&mut ix, st);
        st.sample(&describe);
        v.ctx("scenario", describe)
    })
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone)]
enum Op {
    Field(String),
    FieldTok(String, Tok),
    Fields(Vec<String>),
    Ref(String),
    Save(bool),
}

pub fn c23(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 600_000 } else { 40_000 }, STACK, |_| (), |_, r, idx, st| {
        let o = Opt { max_word: 40, ..Opt::default() };
        let big = idx < 12;
        let cap = if r.chance(1, 10) { 140 } else { 9 };
        let total = if big { [255usize, 256, 257, 300, 512, 1000, 65, 33, 2000, 128, 129, 64][idx as usize] } else { g.size(r, cap) };
        // names that are close to each other
        let mut pool: Vec<String> = match r.below(4) {
            0 => ["a", "A", " a", "a ", "a\u{0}", "", "á", "a\u{301}", "\u{e1}", "aa", "ａ", "𝒶", "\n", "а", "id", "ID"].iter().map(|s| s.to_string()).collect(),
            1 => g.plain_names(total + 2, "f"),
            _ => g.names(r, total + 2, o),
        };
        if r.chance(1, 4) {
            let w = g.corpus_word(r, "en");
            pool.extend([w.clone(), w.to_uppercase(), format!("{} ", w), format!("{}s", w)]);
        }
        let with_dups = r.chance(1, 2);
        let mut seq: Vec<String> = vec![];
        let distinct: Vec<String> = {
            let s: BTreeSet<String> = pool.iter().cloned().collect();
            let mut v: Vec<String> = s.into_iter().collect();
            r.shuffle(&mut v);
            v
        };
        for i in 0..total.min(distinct.len()) {
            seq.push(distinct[i].clone());
        }
        if with_dups && !seq.is_empty() {
            let k = r.below(seq.len());
            let at = r.below(seq.len() + 1);
            let x = seq[k].clone();
            seq.insert(at, x);
        }
        let mut ops = vec![];
        let mut i = 0;
        while i < seq.len() {
            match r.below(4) {
                0 => {
                    let n = (1 + r.below(4)).min(seq.len() - i);
                    ops.push(Op::Fields(seq[i..i + n].to_vec()));
                    i += n;
                }
                1 => {
                    ops.push(Op::FieldTok(seq[i].clone(), *r.pick(scen::TOKS)));
                    i += 1;
                }
                _ => {
                    ops.push(Op::Field(seq[i].clone()));
                    i += 1;
                }
            }
            if r.chance(1, 6) {
                ops.push(Op::Ref(if r.chance(1, 3) { r.pick(&pool).clone() } else { g.name(r, o) }));
            }
            if r.chance(1, 6) {
                ops.push(Op::Save(r.chance(1, 2)));
            }
            if r.chance(1, 30) {
                ops.push(Op::Fields(vec![]));
            }
        }
        let ctor = r.below(6);
        let code = if r.chance(1, 2) { "en" } else { r.pick(&crate::spec::spaced()).code };
        let l = || (crate::spec::spec(code).make)();
        let only_fields = ctor >= 4;
        let (mut rf, mut save) = ("id".to_string(), true);
        let apply = |ops: &[Op]| -> Index {
            match ctor {
                4 => return Index::new(&seq),
                5 => return Index::with_language(l(), seq.clone()),
                _ => {}
            }
            let mut b = match ctor {
                0 => IndexBuilder::new(),
                1 => IndexBuilder::default(),
                _ => IndexBuilder::with_language(l()),
            };
            for op in ops {
                b = match op {
                    Op::Field(f) => b.add_field(f),
                    Op::FieldTok(f, k) => b.add_field_with_tokenizer(f, scen::tokenizer_fn(*k)),
                    Op::Fields(f) => b.add_fields(f),
                    Op::Ref(x) => b.set_ref(x),
                    Op::Save(x) => b.save_docs(*x),
                };
            }
            b.build()
        };
        if !only_fields {
            for op in &ops {
                match op {
                    Op::Ref(x) => rf = x.clone(),
                    Op::Save(x) => save = *x,
                    _ => {}
                }
            }
        }
        let lname = if ctor < 2 || ctor == 4 { "English" } else { crate::spec::spec(code).name };
        let dup = seq.iter().collect::<BTreeSet<_>>().len() != seq.len();
        let describe = || format!("constructor={} lang={} ops={:?} seq={:?}", ctor, code, ops, seq);
        let go = |st: &mut Stats| -> R {
            let ix = match guarded(|| apply(&ops)) {
                Caught::Ok(ix) => {
                    check!(!dup, "two fields with the same name were accepted");
                    ix
                }
                Caught::Panic(at, m) => {
                    check!(dup, "building panicked at {} ({}), but all field names differ", at, m);
                    st.count("duplicates_rejected", 1);
                    st.eval(hash_str(&describe()), true);
                    return Ok(());
                }
            };
            check!(ix.get_fields() == &seq[..], "get_fields() is {:?}, fields were added as {:?}", ix.get_fields(), seq);
            let mut ix = ix;
            // values are matched in order: a unique word per field
            let vals: Vec<String> = (0..seq.len()).map(|i| format!("uniq{}z", i)).collect();
            let l2: Box<dyn Language> = if lname == "English" { (crate::spec::spec("en").make)() } else { l() };
            let p2 = l2.make_pipeline();
            ix.add_doc("the ref", &vals);
            let js = ix.to_json();
            let p = parsed(&js)?;
            check!(p.fields == seq, "\"fields\" is {:?}, fields were added as {:?}", p.fields, seq);
            check!(p.j.get("ref").ok() == Some(&J::Str(rf.clone())), "\"ref\" is {:?}, last set to {:?}", p.j.get("ref"), rf);
            check!(p.save == save, "\"save\" is {}, last set to {}", p.save, save);
            check!(p.j.get("lang").ok() == Some(&J::Str(lname.to_string())), "\"lang\" is {:?}, expected {:?}", p.j.get("lang"), lname);
            let keys: BTreeSet<&String> = p.post.keys().collect();
            check!(keys == seq.iter().collect(), "\"index\" has entries {:?} for fields {:?}", keys, seq);
            let mut toks: BTreeMap<&String, Tok> = BTreeMap::new();
            if !only_fields {
                for op in &ops {
                    if let Op::FieldTok(f, k) = op {
                        toks.insert(f, *k);
                    }
                }
            }
            for (i, f) in seq.iter().enumerate() {
                if *f == rf {
                    continue;
                }
                let raw = match toks.get(f) {
                    Some(k) => scen::tokenize(*k, &vals[i]),
                    None => l2.tokenize(&vals[i]),
                };
                let want: BTreeSet<String> = crate::spec::ref_run(&p2, raw).into_iter().collect();
                let got: BTreeSet<String> = p.post[f].iter().filter(|e| !e.1 .0.is_empty()).map(|e| e.0.clone()).collect();
                check!(want == got, "the value given for field number {} ({}) was indexed as {:?}, expected {:?}", i, short(f), got, want);
                if save {
                    let v = p.docs.get("the ref").and_then(|d| d.get(f));
                    check!(v == Some(&vals[i]), "the value given for field number {} ({}) was stored as {:?}", i, short(f), v);
                }
            }
            st.eval(hash_str(&describe()), seq.len() > 1);
            st.count("accepted", 1);
            st.max("fields", seq.len() as u64);
            Ok(())
        };
        let v = go(st);
        st.sample(&describe);
        v.ctx("scenario", describe)
    })
}
