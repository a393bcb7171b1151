//! C28: a workload over the whole public API, for builds with sanitizers and for Miri.
//! Depends on nothing but the library, so that the Miri crate can use it too.

use crate::util::{hash_str, mix, Rng};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::lang;
use elasticlunr::pipeline::FnWrapper;
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use std::collections::BTreeMap;
use std::hint::black_box;

pub type Make = fn() -> Box<dyn Language>;
pub type Text<'a> = &'a (dyn Fn(&mut Rng) -> String + Sync);

/// A `str` must hold valid UTF-8, whatever the library did to make it.
fn s(d: &mut u64, x: &str) -> Result<(), String> {
    if std::str::from_utf8(black_box(x.as_bytes())).is_err() {
        return Err(format!("a returned string is not UTF-8: bytes {:02x?}", &x.as_bytes()[..x.len().min(60)]));
    }
    *d = mix(*d ^ hash_str(x));
    Ok(())
}

fn word(t: Text, r: &mut Rng) -> String {
    let w: String = t(r).split_whitespace().next().unwrap_or("").chars().take(40).collect();
    w
}

fn inverted(t: Text, r: &mut Rng, n: usize) -> (InvertedIndex, Vec<String>) {
    let mut ix = InvertedIndex::new();
    let words: Vec<String> = (0..4).map(|_| word(t, r)).collect();
    for _ in 0..n {
        let (d, w) = (r.below(4).to_string(), r.pick(&words).clone());
        if r.chance(3, 4) {
            ix.add_token(&d, &w, r.below(9) as f64 / 2.0);
        } else {
            ix.remove_token(&d, &w);
        }
    }
    (ix, words)
}
fn ask_inverted(d: &mut u64, ix: &InvertedIndex, words: &[String]) -> Result<(), String> {
    for w in words {
        *d = mix(*d ^ ix.has_token(w) as u64 ^ (ix.get_doc_frequency(w) as u64) << 3);
        for (k, v) in ix.get_docs(w).unwrap_or_default() {
            s(d, &k)?;
            *d = mix(*d ^ v.to_bits());
        }
        *d = mix(*d ^ ix.get_term_frequency("1", w).to_bits());
    }
    Ok(())
}
fn store(t: Text, r: &mut Rng, n: usize) -> DocumentStore {
    let mut ds = DocumentStore::new(r.chance(3, 4));
    for _ in 0..n {
        let k = r.below(4).to_string();
        match r.below(4) {
            0 => ds.remove_doc(&k),
            1 => ds.add_field_length(&k, "a", r.below(99)),
            _ => ds.add_doc(&k, [("id".to_string(), k.clone()), ("a".to_string(), t(r))].into()),
        }
    }
    ds
}
fn ask_store(d: &mut u64, ds: &DocumentStore) -> Result<(), String> {
    *d = mix(*d ^ ds.len() as u64 ^ (ds.is_empty() as u64) << 32 ^ (ds.is_stored() as u64) << 33);
    for k in ["0", "1", "2", "3", "none"] {
        *d = mix(*d ^ ds.has_doc(k) as u64 ^ (ds.get_field_length(k, "a") as u64) << 1);
        for (f, v) in ds.get_doc(k).unwrap_or_default() {
            s(d, &f)?;
            s(d, &v)?;
        }
    }
    Ok(())
}

/// One step of the kind `k`; gives a digest of everything seen.
pub fn step(k: usize, langs: &[Make], t: Text, r: &mut Rng, n: usize) -> Result<u64, String> {
    let mut d = k as u64;
    match k {
        0 => {
            let l = (r.pick(langs))();
            let p = l.make_pipeline();
            for _ in 0..n {
                for tok in p.run(l.tokenize(&t(r))) {
                    s(&mut d, &tok)?;
                }
            }
        }
        1 => {
            let l = (r.pick(langs))();
            let mut b = IndexBuilder::with_language(l).save_docs(r.chance(3, 4)).add_field("a");
            if r.chance(1, 2) {
                b = b.add_field_with_tokenizer("b", Box::new(|x: &str| x.split(',').map(|y| y.to_string()).collect()));
            } else {
                b = b.add_fields(["b"]);
            }
            if r.chance(1, 3) {
                b = b.set_ref("b");
            }
            let mut ix = b.build();
            for _ in 0..n {
                let v = r.below(3);
                ix.add_doc(&r.below(3).to_string(), (0..v).map(|_| t(r)).collect::<Vec<_>>());
            }
            for f in ix.get_fields() {
                s(&mut d, f)?;
            }
            let (a, b) = (ix.to_json(), ix.to_json_pretty());
            s(&mut d, &a)?;
            s(&mut d, &b)?;
            black_box(serde_json::from_str::<serde_json::Value>(&a).is_ok());
        }
        2 => {
            let (ix, words) = inverted(t, r, n * 4);
            ask_inverted(&mut d, &ix, &words)?;
            let j = serde_json::to_string(&ix).unwrap_or_default();
            s(&mut d, &j)?;
            if let Ok(mut b) = serde_json::from_str::<InvertedIndex>(&j) {
                d = mix(d ^ (b == ix) as u64);
                b.add_token("9", &words[0], 1.0);
                ask_inverted(&mut d, &b, &words)?;
            }
        }
        3 => {
            let ds = store(t, r, n * 2);
            ask_store(&mut d, &ds)?;
            let c = ds.clone();
            let j = serde_json::to_string(&ds).unwrap_or_default();
            drop(ds);
            ask_store(&mut d, &c)?;
            s(&mut d, &j)?;
            if let Ok(b) = serde_json::from_str::<DocumentStore>(&j) {
                ask_store(&mut d, &b)?;
            }
        }
        4 => {
            let mut f = BTreeMap::new();
            for _ in 0..n {
                let b = if r.chance(1, 2) { Some(SearchBool::And) } else { None };
                f.insert(t(r), SearchOptionsField { boost: Some(r.below(256) as u8), bool: b, expand: None });
            }
            let j = serde_json::to_string(&SearchOptions { bool: SearchBool::Or, expand: true, fields: f }).unwrap_or_default();
            s(&mut d, &j)?;
            black_box(serde_json::from_str::<SearchOptions>(&j).is_ok());
        }
        5 => {
            for _ in 0..n {
                let q = t(r);
                d = mix(d ^ lang::from_code(&q).is_some() as u64 ^ (lang::from_name(&q).is_some() as u64) << 1);
            }
            let l = (r.pick(langs))();
            s(&mut d, &l.name())?;
            s(&mut d, &l.code())?;
            for x in [lang::from_code(&l.code()), lang::from_name(&l.name())].into_iter().flatten() {
                for tok in x.tokenize(&t(r)) {
                    s(&mut d, &tok)?;
                }
            }
        }
        6 => {
            // every stage alone, on any token
            let l = (r.pick(langs))();
            let p = l.make_pipeline();
            for f in &p.queue {
                s(&mut d, &f.name())?;
                for _ in 0..n {
                    if let Some(x) = f.filter(if r.chance(1, 2) { t(r) } else { word(t, r) }) {
                        s(&mut d, &x)?;
                    }
                }
            }
        }
        7 => {
            let p = Pipeline { queue: vec![Box::new(FnWrapper("up".into(), |x| Some(x.to_uppercase()))), Box::new(FnWrapper("drop".into(), |x| if x.len() % 3 == 1 { None } else { Some(x) }))] };
            for tok in p.run(lang::tokenize_whitespace(&t(r))) {
                s(&mut d, &tok)?;
            }
        }
        8 => {
            // one structure read by several threads at once
            let (ix, words) = inverted(t, r, n * 4);
            let ds = store(t, r, n * 2);
            let look = |ix: &InvertedIndex, ds: &DocumentStore| -> Result<u64, String> {
                let mut d = 8;
                ask_inverted(&mut d, ix, &words)?;
                ask_store(&mut d, ds)?;
                s(&mut d, &serde_json::to_string(ix).unwrap_or_default())?;
                Ok(d)
            };
            #[cfg(feature = "share")]
            let all: Vec<Result<u64, String>> = std::thread::scope(|sc| {
                let h: Vec<_> = (0..3).map(|_| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || look(&ix, &ds)).expect("thread")).collect();
                h.into_iter().map(|h| h.join().unwrap_or(Ok(u64::MAX))).collect()
            });
            #[cfg(not(feature = "share"))]
            let all: Vec<Result<u64, String>> = vec![];
            let own = look(&ix, &ds)?;
            for x in all {
                let x = x?;
                if x != u64::MAX && x != own {
                    return Err("threads reading one structure at the same time saw different contents".into());
                }
            }
            d = own;
        }
        _ => {
            // independent work on several threads at once
            let jobs: Vec<(usize, u64)> = (0..3).map(|_| (r.below(8), r.next())).collect();
            let one = |(k, seed): (usize, u64)| step(k, langs, t, &mut Rng::new(seed), n);
            let all: Vec<Option<Result<u64, String>>> = std::thread::scope(|sc| {
                let h: Vec<_> = jobs.iter().map(|&j| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || one(j)).expect("thread")).collect();
                h.into_iter().map(|h| h.join().ok()).collect()
            });
            for (j, x) in jobs.iter().zip(all) {
                let Some(x) = x else { continue };
                let x = x?;
                d = mix(d ^ x);
                if x != one(*j)? {
                    return Err(format!("work of kind {} on a thread of its own gave another result than alone", j.0));
                }
            }
        }
    }
    let _: Option<Index> = None;
    Ok(d)
}
const STACK: usize = 32 << 20;
pub const KINDS: usize = 10;
