//! Checks on the two stores used directly: C03, the store halves of C05/C06, C27.

use crate::check;
use crate::gen::{Gen, Opt};
use crate::json;
use crate::run::*;
use crate::util::{hash_bytes, hash_str, Rng};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
pub enum Op {
    Add(String, String, f64),
    Remove(String, String),
}

/// Tokens over a small alphabet, so that they are prefixes of each other, plus odd ones.
fn tokens(g: &Gen, r: &mut Rng, n: usize) -> Vec<String> {
    let alpha: &[char] = *r.pick(&[&['a', 'b'][..], &['a', 'b', 'é'][..], &['😀', 'a'][..], &['a', 'A', '\u{0}', '"'][..], &['中', '国', '文'][..], &['é', 'è', 'ê', 'e', '\u{301}'][..]]);
    let mut s = BTreeSet::new();
    let o = Opt { max_word: 300, ..Opt::default() };
    let mut guard = 0;
    while s.len() < n && guard < n * 20 {
        guard += 1;
        let t = match r.below(12) {
            0 => {
                let c = g.any_code(r);
                g.word(r, c, o)
            }
            1 => {
                let k = g.size(r, 300);
                std::iter::repeat(*r.pick(alpha)).take(k).collect()
            }
            2 => r.pick(&["docs", "df", "tf", "root", "d", "do", "doc", "docsx", "__proto__", "\u{10ffff}"]).to_string(),
            3 if !s.is_empty() => {
                let v: Vec<&String> = s.iter().collect();
                let b: &String = v[r.below(v.len())];
                let k = r.range(1, 3);
                let mut x = b.clone();
                for _ in 0..k {
                    x.push(*r.pick(alpha));
                }
                x
            }
            4 if !s.is_empty() => {
                let v: Vec<&String> = s.iter().collect();
                let b: Vec<char> = v[r.below(v.len())].chars().collect();
                let k = r.below(b.len() + 1);
                b[..k].iter().collect()
            }
            _ => {
                let k = r.range(1, 5);
                (0..k).map(|_| *r.pick(alpha)).collect()
            }
        };
        if !t.is_empty() {
            s.insert(t);
        }
    }
    let mut v: Vec<String> = s.into_iter().collect();
    r.shuffle(&mut v);
    v
}

type Map = BTreeMap<String, BTreeMap<String, f64>>;

#[derive(Default)]
pub struct InvModel {
    pub map: Map,
    /// every prefix of every token ever added
    pub known: BTreeSet<String>,
}

fn prefixes(t: &str) -> impl Iterator<Item = &str> {
    t.char_indices().map(move |(i, c)| &t[..i + c.len_utf8()])
}

impl InvModel {
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Add(d, t, w) => {
                self.map.entry(t.clone()).or_default().insert(d.clone(), *w);
                // prefixes of a token whose own longest prefix is known are known too
                if !self.known.contains(t) {
                    for p in prefixes(t) {
                        self.known.insert(p.to_string());
                    }
                }
            }
            Op::Remove(d, t) => {
                if let Some(m) = self.map.get_mut(t) {
                    m.remove(d);
                }
            }
        }
    }
    fn judge(&self, ix: &InvertedIndex, t: &str, refs: &[String]) -> R {
        if t.is_empty() {
            // the empty token is never a term, but a prefix of every one
            check!(self.known.is_empty() || ix.has_token(""), "has_token(\"\") is false, though tokens were added");
            check!(ix.get_docs("").map_or(true, |d| d.is_empty()), "get_docs(\"\") lists documents");
            check!(ix.get_doc_frequency("") == 0 && ix.get_term_frequency("d", "") == 0.0, "the empty token has a document or term frequency");
            return Ok(());
        }
        let e = BTreeMap::new();
        let want = self.map.get(t).unwrap_or(&e);
        let known = self.known.contains(t);
        check!(ix.has_token(t) == known, "has_token({:?}) is {}, but the token is{} a prefix of a token ever added", t, ix.has_token(t), if known { "" } else { " not" });
        let got = ix.get_docs(t);
        match &got {
            None => check!(want.is_empty() && !known, "get_docs({:?}) is None, expected {:?}", t, want),
            Some(g) => {
                check!(known, "get_docs({:?}) is {:?} for an unknown token", t, g);
                check!(g.len() == want.len() && g.iter().zip(want).all(|(a, b)| a.0 == b.0 && same(*a.1, *b.1)), "get_docs({:?}) is {:?}, expected {:?}", t, g, want);
            }
        }
        check!(ix.get_doc_frequency(t) == want.len() as i64, "get_doc_frequency({:?}) is {}, but {} document(s) hold the token", t, ix.get_doc_frequency(t), want.len());
        for r in refs {
            let w = want.get(r).copied().unwrap_or(0.0);
            let x = ix.get_term_frequency(r, t);
            check!(same(x, w), "get_term_frequency({:?}, {:?}) is {:?}, expected {:?}", r, t, x, w);
        }
        Ok(())
    }
}

/// The same double; one NaN is like another.
pub fn same(a: f64, b: f64) -> bool {
    a == b || a.is_nan() && b.is_nan()
}

fn weight(r: &mut Rng) -> f64 {
    *r.pick(&[1.0, 1.0, 2.0f64.sqrt(), 3.0f64.sqrt(), 0.0, 0.5, 1e-300, 1e300, 255.0, 256.0, 12345.678, -1.0, f64::MIN_POSITIVE, f64::MAX])
}

pub fn history(g: &Gen, r: &mut Rng, len: usize) -> (Vec<Op>, Vec<String>, Vec<String>) {
    let nt = r.range(1, 14);
    let toks = tokens(g, r, nt);
    let mut toks = toks;
    if r.chance(1, 20) {
        // a token with many extensions
        let b = r.pick(&toks).clone();
        let n = g.size(r, 200).max(5);
        toks.extend((0..n as u32).filter_map(|i| char::from_u32(if n % 2 == 0 { 0x61 + i } else { 0x3041 + i })).map(|c| format!("{}{}", b, c)));
        toks.extend((0..n / 2).map(|_| b.clone()));
    }
    let nr = if r.chance(1, 8) { g.size(r, 300).max(1) } else { r.range(1, 5) };
    let refs = if r.chance(1, 2) { g.plain_names(nr, "d") } else { g.names(r, nr, Opt { max_word: 60, ..Opt::default() }) };
    let padd = r.range(3, 8);
    let mut ops = vec![];
    if toks.len() > 20 {
        ops.extend(toks.iter().map(|t| Op::Add(refs[0].clone(), t.clone(), weight(r))));
    }
    for _ in 0..len {
        let t = r.pick(&toks).clone();
        let d = r.pick(&refs).clone();
        if r.below(10) < padd {
            ops.push(Op::Add(d, t, weight(r)));
        } else if r.chance(1, 8) {
            // something never added
            let mut t = t;
            match r.below(3) {
                0 => t.push('q'),
                1 => {
                    t.pop();
                }
                _ => t = format!("q{}", t),
            }
            ops.push(Op::Remove(d, t));
        } else {
            ops.push(Op::Remove(d, t));
        }
    }
    (ops, toks, refs)
}

pub fn c03(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 1_000_000 } else { 60_000 }, 512 << 20, |_| (), |_, r, idx, st| {
        if idx < 4 {
            return c03_scale(idx, g, r, st);
        }
        let len = if r.chance(1, 25) { g.size(r, 2000) } else { r.range(1, 60) };
        let (mut ops, toks, refs) = history(g, r, len);
        // weights that are no numbers in JSON
        let special = idx % 16 == 7;
        if special {
            for op in ops.iter_mut() {
                if let (Op::Add(_, _, w), 0) = (op, r.below(4)) {
                    *w = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]);
                }
            }
        }
        let mut ix = InvertedIndex::new();
        let mut m = InvModel { map: Map::new(), known: BTreeSet::new() };
        // tokens asked about: all used, their prefixes, extensions and neighbours
        let mut ask: BTreeSet<String> = toks.iter().cloned().collect();
        for t in &toks {
            if t.len() < 40 {
                ask.extend(prefixes(t).map(|s| s.to_string()));
            }
            ask.insert(format!("{}a", t));
            ask.insert(format!("{}\u{0}", t));
            ask.insert(t.to_uppercase());
        }
        ask.insert(String::new());
        let ask: Vec<String> = ask.into_iter().collect();
        let few: Vec<String> = if refs.len() > 8 { refs.iter().take(4).cloned().chain(["absent".to_string()]).collect() } else { refs.iter().cloned().chain(["absent".to_string()]).collect() };
        let go = |ix: &mut InvertedIndex, m: &mut InvModel, st: &mut Stats, r: &mut Rng| -> R {
            for (k, op) in ops.iter().enumerate() {
                match op {
                    Op::Add(d, t, w) => ix.add_token(d, t, *w),
                    Op::Remove(d, t) => ix.remove_token(d, t),
                }
                let op2 = match op {
                    Op::Remove(_, t) if t.is_empty() => {
                        continue;
                    }
                    o => o,
                };
                m.apply(op2);
                if r.chance(1, 40) {
                    // the empty token is not a term; adding or removing it affects nothing else
                    ix.add_token("d", "", 1.0);
                    ix.remove_token("d", "");
                }
                let (d, t) = match op {
                    Op::Add(d, t, _) | Op::Remove(d, t) => (d, t),
                };
                m.judge(ix, t, &[d.clone()]).ctx("after step", || format!("{}: {:?}", k, op))?;
                if ops.len() <= 60 && r.chance(1, 5) || k + 1 == ops.len() {
                    for a in &ask {
                        m.judge(ix, a, &few).ctx("after step", || format!("{}: {:?}", k, op))?;
                        st.count("queries_compared", 1 + few.len() as u64);
                    }
                    st.count("states_compared_in_full", 1);
                }
                st.count(if matches!(op, Op::Add(..)) { "adds" } else { "removes" }, 1);
            }
            // the emitted trie denotes the same map
            let js = serde_json::to_string(&*ix).map_err(|e| e.to_string()).ctx("at", || "serialize".into())?;
            if !special && m.map.keys().all(|t| t.chars().count() < 2000) {
                let j = json::parse(&js).ctx("json", || js.clone())?;
                let p = json::flatten(&j).ctx("json", || js.clone())?;
                let want: BTreeMap<&String, (&BTreeMap<String, f64>, i64)> = m.map.iter().filter(|e| !e.1.is_empty()).map(|(t, d)| (t, (d, d.len() as i64))).collect();
                let got: BTreeMap<&String, (&BTreeMap<String, f64>, i64)> = p.iter().map(|(t, d)| (t, (&d.0, d.1))).collect();
                check!(got == want, "the serialized trie denotes {:?}, expected {:?}", got, want);
            }
            st.eval(hash_str(&js), ops.iter().any(|o| matches!(o, Op::Remove(..))));
            Ok(())
        };
        let v = go(&mut ix, &mut m, st, r);
        st.sample(|| format!("{:?}", ops));
        st.max("history", ops.len() as u64);
        v.ctx("history", || format!("{:?}", ops))
    })
}

fn c03_scale(idx: u64, g: &Gen, r: &mut Rng, st: &mut Stats) -> R {
    let mut ix = InvertedIndex::new();
    let mut m = InvModel { map: Map::new(), known: BTreeSet::new() };
    let mut ops = vec![];
    match idx {
        0 => {
            for i in 0..66_000 {
                ops.push(Op::Add(format!("{}", i), "common".into(), 1.0));
            }
            for i in (0..66_000).step_by(7) {
                ops.push(Op::Remove(format!("{}", i), "common".into()));
            }
        }
        1 => {
            for n in [255usize, 256, 257, 1000, 4096, 10_000, 30_000] {
                let t: String = "ab".chars().cycle().take(n).collect();
                ops.push(Op::Add("d".into(), t.clone(), 1.0));
                ops.push(Op::Add("e".into(), t.clone(), 2.0));
                ops.push(Op::Remove("d".into(), t));
            }
        }
        2 => {
            // a node with many children
            for i in 0..3000u32 {
                if let Some(c) = char::from_u32(0x4e00 + i) {
                    ops.push(Op::Add(format!("d{}", i % 5), c.to_string(), i as f64));
                }
            }
            for i in (0..3000u32).step_by(3) {
                ops.push(Op::Remove(format!("d{}", i % 5), char::from_u32(0x4e00 + i).unwrap().to_string()));
            }
        }
        _ => {
            // repeated add/remove of the same pairs
            let t = g.corpus_word(r, "en");
            for i in 0..40_000 {
                let d = format!("d{}", i % 3);
                ops.push(if (i / 3) % 2 == 0 { Op::Add(d, t.clone(), i as f64) } else { Op::Remove(d, t.clone()) });
                if i % 97 == 0 {
                    ops.push(Op::Remove("never".into(), t.clone()));
                }
            }
        }
    }
    for op in &ops {
        match op {
            Op::Add(d, t, w) => ix.add_token(d, t, *w),
            Op::Remove(d, t) => ix.remove_token(d, t),
        }
        // long tokens: record only the token itself and a few prefixes as known
        match op {
            Op::Add(_, t, _) if t.len() > 400 => {
                m.known.insert(t.clone());
                if let Op::Add(d, t, w) = op {
                    m.map.entry(t.clone()).or_default().insert(d.clone(), *w);
                }
            }
            _ => m.apply(op),
        }
    }
    let toks: Vec<String> = m.map.keys().cloned().collect();
    for t in &toks {
        let refs: Vec<String> = m.map[t].keys().take(50).cloned().chain(["0", "7", "d0", "d1", "d2", "never"].iter().map(|s| s.to_string())).collect();
        m.judge(&ix, t, &refs).ctx("scale scenario", || idx.to_string())?;
        st.count("queries_compared", refs.len() as u64);
    }
    st.eval(idx, true);
    st.count("scale_scenarios", 1);
    st.max("history", ops.len() as u64);
    Ok(())
}

#[derive(Debug, Clone)]
enum DOp {
    Add(String, BTreeMap<String, String>),
    Remove(String),
    Len(String, String, usize),
}

/// A history of a document store. `lengths`: judge field lengths (C06), else counts (C05).
pub fn doc_store_case(r: &mut Rng, g: &Gen, st: &mut Stats, lengths: bool) -> R {
    let o = Opt { max_word: 40, ..Opt::default() };
    let nr = if r.chance(1, 10) { g.size(r, 300).max(1) } else { r.range(1, 5) };
    let refs = if r.chance(1, 2) { g.plain_names(nr, "d") } else { g.names(r, nr, o) };
    let nf = r.range(1, 4);
    let fields = g.names(r, nf, o);
    let save = r.chance(1, 2);
    let len = if r.chance(1, 20) { g.size(r, 1500) } else { r.range(1, 50) };
    let padd = r.range(2, 7);
    let mut ops = vec![];
    for _ in 0..len {
        let d = r.pick(&refs).clone();
        ops.push(match r.below(10) {
            x if x < padd => {
                let n = r.below(3);
                DOp::Add(d, (0..n).map(|_| (r.pick(&fields).clone(), g.word(r, "en", o))).collect())
            }
            x if x < 8 => DOp::Len(d, r.pick(&fields).clone(), *r.pick(&[0usize, 1, 2, 255, 256, 65535, 65536, 1 << 32, usize::MAX >> 11])),
            _ => DOp::Remove(if r.chance(1, 10) { "absent".into() } else { d }),
        });
    }
    let mut ds = DocumentStore::new(save);
    let mut held: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    let mut lens: BTreeMap<(String, String), usize> = BTreeMap::new();
    let few: Vec<String> = refs.iter().take(6).cloned().chain(["absent".to_string(), String::new()]).collect();
    let mut go = |ds: &mut DocumentStore, st: &mut Stats| -> R {
        check!(ds.len() == 0 && ds.is_empty() && ds.is_stored() == save, "a new store has {} documents, is_stored {}", ds.len(), ds.is_stored());
        for (k, op) in ops.iter().enumerate() {
            match op {
                DOp::Add(d, m) => {
                    ds.add_doc(d, m.clone());
                    held.insert(d.clone(), if save { m.clone() } else { BTreeMap::new() });
                }
                DOp::Remove(d) => {
                    ds.remove_doc(d);
                    if held.remove(d).is_none() && lens.keys().any(|x| x.0 == *d) {
                        st.count("store_removals_of_lengths_without_document", 1);
                    }
                    lens.retain(|x, _| x.0 != *d);
                }
                DOp::Len(d, f, n) => {
                    ds.add_field_length(d, f, *n);
                    lens.insert((d.clone(), f.clone()), *n);
                }
            }
            let last = match op {
                DOp::Add(d, _) | DOp::Remove(d) | DOp::Len(d, _, _) => d.clone(),
            };
            if lengths {
                for d in few.iter().chain([&last]) {
                    for f in &fields {
                        let got = ds.get_field_length(d, f);
                        if !held.contains_key(d) {
                            check!(got == 0, "after step {} the length of field {:?} of {:?}, which is not held, is {}", k, f, d, got);
                        } else {
                            let want = lens.get(&(d.clone(), f.clone())).copied().unwrap_or(0);
                            check!(got == want, "after step {} ({:?}) the length of field {:?} of {:?} is {}, expected {}", k, op, f, d, got, want);
                        }
                        st.count("store_lengths_compared", 1);
                    }
                }
            } else {
                check!(ds.len() == held.len(), "after step {} ({:?}) len() is {}, {} document(s) are held", k, op, ds.len(), held.len());
                check!(ds.length == held.len(), "after step {} ({:?}) the published count is {}, {} document(s) are held", k, op, ds.length, held.len());
                check!(ds.is_empty() == held.is_empty(), "after step {} is_empty() is {}", k, ds.is_empty());
                check!(ds.is_stored() == save, "is_stored() changed");
                for d in few.iter().chain([&last]) {
                    check!(ds.has_doc(d) == held.contains_key(d), "after step {} ({:?}) has_doc({:?}) is {}", k, op, d, ds.has_doc(d));
                    let got = ds.get_doc(d);
                    check!(got.as_ref() == held.get(d), "after step {} ({:?}) get_doc({:?}) is {:?}, expected {:?}", k, op, d, got, held.get(d));
                }
                st.count("store_states_compared", 1);
            }
            st.count(match op { DOp::Add(..) => "store_adds", DOp::Remove(..) => "store_removes", DOp::Len(..) => "store_lengths_recorded" }, 1);
        }
        let js = serde_json::to_string(&*ds).map_err(|e| e.to_string()).ctx("at", || "serialize".into())?;
        let j = json::parse(&js).ctx("json", || js.clone())?;
        if !lengths {
            let n = j.get("length").and_then(|x| x.int()).ctx("json", || js.clone())?;
            check!(n == held.len() as i64, "the emitted count is {}, {} document(s) are held", n, held.len());
            let docs = j.get("docs").and_then(|x| x.obj()).ctx("json", || js.clone())?;
            check!(docs.keys().eq(held.keys()), "the emitted documents are {:?}, held are {:?}", docs.keys(), held.keys());
        } else {
            let info = j.get("docInfo").and_then(|x| x.obj()).ctx("json", || js.clone())?;
            for (d, m) in info {
                if !held.contains_key(d) {
                    // lengths recorded for documents not held: not specified
                    continue;
                }
                for (f, n) in m.obj().ctx("json", || js.clone())? {
                    let want = lens.get(&(d.clone(), f.clone())).copied();
                    check!(n.int().ok().map(|x| x as usize) == want, "the emitted length of field {:?} of {:?} is {:?}, expected {:?}", f, d, n, want);
                }
            }
        }
        Ok(())
    };
    let v = go(&mut ds, st);
    st.eval(hash_bytes(format!("{:?}", ops).as_bytes()), ops.iter().any(|o| matches!(o, DOp::Remove(_))));
    st.max("store_history", ops.len() as u64);
    st.sample(|| format!("store save={} {:?}", save, ops));
    v.ctx("history", || format!("save={} {:?}", save, ops))
}

// ---------------------------------------------------------------- C27

pub fn c27(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 400_000 } else { 30_000 }, 512 << 20, |_| (), |_, r, idx, st| match idx % 16 {
        0 => c27_index(cfg, r, g, st, idx),
        1..=7 => c27_store(r, g, st, idx),
        _ => c27_inv(r, g, st, idx),
    })
}

const SCALE_AT: [u64; 2] = [8, 9];
fn c27_inv(r: &mut Rng, g: &Gen, st: &mut Stats, idx: u64) -> R {
    let len = if r.chance(1, 30) { g.size(r, 800) } else { r.range(0, 40) };
    let (mut ops, _, _) = history(g, r, len.max(1));
    if len == 0 {
        ops.clear();
    }
    // the reader of serde_json nests 128 levels by default
    ops.retain(|o| match o {
        Op::Add(_, t, _) | Op::Remove(_, t) => t.chars().count() <= 100,
    });
    let mut cut = r.below(ops.len() + 1);
    if SCALE_AT.contains(&idx) {
        // frequencies beyond 16 bits, many children, weights of all magnitudes
        ops = (0..66_000).map(|i| Op::Add(format!("{}", i), if i % 7 == 0 { "commons" } else { "common" }.into(), [1.0, 1e-300, 1.7e308, 16777217.0, 0.1, 5e-324][i % 6])).collect();
        ops.extend((0..10_000u32).map(|i| Op::Add("d".into(), char::from_u32(0x3400 + i).unwrap().to_string(), i as f64)));
        cut = ops.len();
        ops.push(Op::Add("z".into(), "common".into(), 2.0));
        ops.push(Op::Remove("8".into(), "common".into()));
    }
    let mut a = InvertedIndex::new();
    let app = |x: &mut InvertedIndex, o: &Op| match o {
        Op::Add(d, t, w) => x.add_token(d, t, *w),
        Op::Remove(d, t) => x.remove_token(d, t),
    };
    for o in &ops[..cut] {
        app(&mut a, o);
    }
    let go = |a: &mut InvertedIndex| -> R {
        let ser = |x: &InvertedIndex| serde_json::to_string(x).map_err(|e| e.to_string()).ctx("at", || "serialize".into());
        let js = ser(a)?;
        let how = hash_str(&js) % 3;
        let b: Result<InvertedIndex, String> = match how {
            0 => serde_json::from_str(&js).map_err(|e| e.to_string()),
            1 => serde_json::from_slice(serde_json::to_string_pretty(&*a).unwrap().as_bytes()).map_err(|e| e.to_string()),
            _ => serde_json::from_reader(js.as_bytes()).map_err(|e| e.to_string()),
        };
        let mut b = b.map_err(|e| format!("the inverted index does not load from its own JSON: {}", e)).ctx("json", || js.clone())?;
        check!(b == *a, "the reloaded inverted index differs");
        check!(ser(&b)? == js, "the reloaded inverted index serializes differently");
        for o in &ops[cut..] {
            app(a, o);
            app(&mut b, o);
            let (Op::Add(d, t, _) | Op::Remove(d, t)) = o;
            check!(a.get_docs(t) == b.get_docs(t) && a.has_token(t) == b.has_token(t) && a.get_doc_frequency(t) == b.get_doc_frequency(t) && a.get_term_frequency(d, t) == b.get_term_frequency(d, t), "after {:?} the reloaded inverted index answers differently", o);
        }
        check!(ser(a)? == ser(&b)?, "the reloaded inverted index diverges under further operations");
        Ok(())
    };
    let v = go(&mut a);
    st.eval(hash_str(&format!("{:?}{}", ops, cut)), cut > 0);
    st.count("inverted_indexes", 1);
    st.sample(|| format!("cut={} {:?}", cut, ops));
    v.ctx("history", || format!("reloaded after {} of {:?}", cut, ops))
}

fn c27_store(r: &mut Rng, g: &Gen, st: &mut Stats, idx: u64) -> R {
    let o = Opt { max_word: 60, ..Opt::default() };
    let n = r.range(1, 6);
    let refs = g.names(r, n, o);
    let nf = r.range(1, 4);
    let fields = g.names(r, nf, o);
    let save = r.chance(1, 2);
    let mut ops = vec![];
    for _ in 0..r.below(30) {
        let d = r.pick(&refs).clone();
        ops.push(match r.below(6) {
            0..=2 => {
                let n = r.below(3);
                DOp::Add(d, (0..n).map(|_| (r.pick(&fields).clone(), g.text(r, "en", o))).collect())
            }
            3..=4 => DOp::Len(d, r.pick(&fields).clone(), *r.pick(&[0usize, 1, 255, 65536, 1 << 40, (1 << 53) + 1, usize::MAX])),
            _ => DOp::Remove(d),
        });
    }
    let mut cut = r.below(ops.len() + 1);
    if idx == 1 || idx == 2 {
        // more documents than 16 bits count, and long texts
        ops = (0..66_000).map(|i| DOp::Add(format!("{}", i), if i % 1000 == 0 { [("f".to_string(), "text ".repeat(i))].into_iter().collect() } else { BTreeMap::new() })).collect();
        ops.extend((0..66_000).step_by(500).map(|i| DOp::Len(format!("{}", i), "f".into(), i)));
        cut = ops.len();
        ops.push(DOp::Remove("7".into()));
        ops.push(DOp::Add("z".into(), BTreeMap::new()));
    }
    let app = |x: &mut DocumentStore, o: &DOp| match o {
        DOp::Add(d, m) => x.add_doc(d, m.clone()),
        DOp::Remove(d) => x.remove_doc(d),
        DOp::Len(d, f, n) => x.add_field_length(d, f, *n),
    };
    let mut a = DocumentStore::new(save);
    for o in &ops[..cut] {
        app(&mut a, o);
    }
    let go = |a: &mut DocumentStore| -> R {
        let ser = |x: &DocumentStore| serde_json::to_string(x).map_err(|e| e.to_string()).ctx("at", || "serialize".into());
        let js = ser(a)?;
        let mut b: DocumentStore = serde_json::from_str(&js).map_err(|e| format!("the document store does not load from its own JSON: {}", e)).ctx("json", || js.clone())?;
        check!(ser(&b)? == js, "the reloaded document store serializes differently");
        check!(b.save == a.save && b.docs == a.docs && b.doc_info == a.doc_info && b.length == a.length, "the reloaded document store differs");
        for o in &ops[cut..] {
            app(a, o);
            app(&mut b, o);
            check!(a.len() == b.len() && a.length == b.length && a.is_empty() == b.is_empty() && a.is_stored() == b.is_stored(), "after {:?} the reloaded document store answers differently", o);
            for d in &refs {
                check!(a.get_doc(d) == b.get_doc(d) && a.has_doc(d) == b.has_doc(d), "after {:?} the reloaded document store answers differently for {:?}", o, d);
                for f in &fields {
                    check!(a.get_field_length(d, f) == b.get_field_length(d, f), "after {:?} the reloaded document store has another length", o);
                }
            }
        }
        check!(ser(a)? == ser(&b)?, "the reloaded document store diverges under further operations");
        Ok(())
    };
    let v = go(&mut a);
    st.eval(hash_str(&format!("{:?}{}", ops, cut)), cut > 0);
    st.count("document_stores", 1);
    v.ctx("history", || format!("save={} reloaded after {} of {:?}", save, cut, ops))
}

fn c27_index(cfg: &Cfg, r: &mut Rng, g: &Gen, st: &mut Stats, idx: u64) -> R {
    use crate::scen::{self, Lang, SOpt};
    if idx >= 16 * 200 {
        return Ok(()); // the JSON has to be leaked to be 'static
    }
    let mut s = scen::gen(g, r, &SOpt { custom_lang: false, custom_tok: false, max_docs: 5, text: Opt { max_word: 60, big: false, ..Opt::default() }, ..SOpt::default() });
    if idx == 0 {
        s = scen::Scen { lang: Lang::Built("en"), fields: vec!["title".into(), "body".into()], toks: vec![None; 2], ref_field: None, save: None, docs: vec![("1".into(), vec!["This is a title".into(), "This is body text!".into()])] };
    }
    for (_, v) in s.docs.iter_mut() {
        for x in v.iter_mut() {
            *x = x.split(char::is_whitespace).filter(|w| w.chars().count() <= 60).collect::<Vec<_>>().join(" ");
        }
    }
    let ix = s.build();
    let js = ix.to_json();
    let leaked: &'static str = Box::leak(js.clone().into_boxed_str());
    st.eval(hash_str(&js), true);
    st.count("indexes", 1);
    let go = |st: &mut Stats| -> R {
        match serde_json::from_str::<elasticlunr::Index>(leaked) {
            Ok(back) => {
                let again = back.to_json();
                check!(again == js, "the reloaded index serializes differently");
                st.count("indexes_reloaded", 1);
                Ok(())
            }
            Err(e) => {
                // known: the pipeline, a sequence of names, has no reader. Exactly there.
                let at_pipeline = js.find("\"pipeline\":").map_or(false, |p| {
                    let col = e.column();
                    let end = js[p..].find(']').map_or(0, |q| p + q + 1);
                    e.line() == 1 && col >= p && col <= end + 1
                });
                if at_pipeline && cfg.known.contains("index-pipeline-unreadable") {
                    st.known("index-pipeline-unreadable", format!("{} for {}", e, s.describe()));
                    return Ok(());
                }
                viol(format!("the index does not load from its own JSON: {}", e))
            }
        }
    };
    go(st).ctx("scenario", || s.describe()).ctx("json", || js.chars().take(2000).collect())
}
