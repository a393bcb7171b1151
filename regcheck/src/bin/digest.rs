//! C34: what this build of the library makes of a workload, line by line.
//! digest FILE              prints "line language hash"
//! digest FILE LINE LANG    prints what the hash is of

use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::lang::common::{RegexTrimmer, StopWordFilter};
use elasticlunr::lang::{from_code, tokenize_whitespace};
use elasticlunr::pipeline::{FnWrapper, Pipeline};
use elasticlunr::{IndexBuilder, Language};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CODES: &[&str] = &["en", "ar", "da", "de", "du", "es", "fi", "fr", "hu", "it", "ja", "ko", "no", "pt", "ro", "ru", "sv", "tr", "zh"];

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| s(x).to_string()).collect()
}

/// What a line gives, in a language if it has one.
fn make(v: &Value, lang: Option<(&'static str, &dyn Language, &Pipeline)>) -> String {
    let mut o = String::new();
    match s(&v["k"]) {
        "text" => {
            let (_, l, p) = lang.unwrap();
            let t = l.tokenize(s(&v["x"]));
            write!(o, "{} {} {:?} ", l.name(), l.code(), t).unwrap();
            write!(o, "{:?} {:?}", p.queue.iter().map(|f| f.name()).collect::<Vec<_>>(), p.run(t)).unwrap();
        }
        "stages" => {
            let (_, _, p) = lang.unwrap();
            let stop = strings(&v["s"]);
            let stop: Vec<&str> = stop.iter().map(|x| x.as_str()).collect();
            let words = strings(&v["w"]);
            let own = Pipeline {
                queue: vec![
                    Box::new(RegexTrimmer::new("trimmer", s(&v["t"]))),
                    Box::new(StopWordFilter::new("stop", &stop)),
                    Box::new(FnWrapper("short".into(), |t| Some(t).filter(|t| t.len() > 1))),
                ],
            };
            for w in &words {
                write!(o, "{:?} {:?}", tokenize_whitespace(w), own.queue.iter().map(|f| f.filter(w.clone())).collect::<Vec<_>>()).unwrap();
                write!(o, " {:?};", p.queue.iter().map(|f| f.filter(w.clone())).collect::<Vec<_>>()).unwrap();
            }
            write!(o, "{:?}", own.run(words)).unwrap();
        }
        "index" => {
            let (c, _, _) = lang.unwrap();
            let f = strings(&v["f"]);
            let mut ix = IndexBuilder::with_language(from_code(c).unwrap()).add_fields(&f).set_ref(s(&v["r"])).save_docs(v["s"].as_bool().unwrap()).build();
            for d in v["d"].as_array().unwrap() {
                ix.add_doc(s(&d[0]), strings(&d[1]));
            }
            write!(o, "{:?} {} {}", ix.get_fields(), ix.to_json(), ix.to_json_pretty()).unwrap();
        }
        "inverted" => {
            let mut x = InvertedIndex::new();
            for p in v["o"].as_array().unwrap() {
                match p.get(2) {
                    Some(w) => x.add_token(s(&p[0]), s(&p[1]), w.as_f64().unwrap()),
                    None => x.remove_token(s(&p[0]), s(&p[1])),
                }
                let (d, t) = (s(&p[0]), s(&p[1]));
                write!(o, "{:?} {:?} {:?} {};", x.has_token(t), x.get_docs(t), x.get_term_frequency(d, t), x.get_doc_frequency(t)).unwrap();
            }
            let js = serde_json::to_string(&x).unwrap();
            let y: Result<InvertedIndex, String> = serde_json::from_str(&js).map_err(|e| e.to_string());
            write!(o, "{} {:?} {:?}", js, y.as_ref().map(|y| *y == x), y.as_ref().map(|y| serde_json::to_string(y).unwrap())).unwrap();
        }
        _ => {
            let mut x = DocumentStore::new(v["s"].as_bool().unwrap());
            let mut fields = BTreeMap::new();
            for (d, m) in v["d"].as_object().unwrap() {
                x.add_doc(d, m.as_object().unwrap().iter().map(|(k, t)| (k.clone(), s(t).to_string())).collect());
                write!(o, "{} {:?};", x.len(), x.get_doc(d)).unwrap();
            }
            for (d, m) in v["i"].as_object().unwrap() {
                for (k, n) in m.as_object().unwrap() {
                    x.add_field_length(d, k, n.as_u64().unwrap() as usize);
                    write!(o, "{};", x.get_field_length(d, k)).unwrap();
                    fields.insert(k.clone(), SearchOptionsField { boost: v["b"].as_u64().map(|b| b as u8), bool: Some(SearchBool::And), expand: None });
                }
            }
            let some: Vec<String> = v["d"].as_object().unwrap().keys().take(2).cloned().collect();
            write!(o, "{}", serde_json::to_string(&x).unwrap()).unwrap();
            for d in &some {
                x.remove_doc(d);
                write!(o, "{} {} {};", x.len(), x.has_doc(d), x.is_empty()).unwrap();
            }
            let js = serde_json::to_string(&x).unwrap();
            let y: Result<DocumentStore, String> = serde_json::from_str(&js).map_err(|e| e.to_string());
            write!(o, "{} {:?}", js, y.map(|y| serde_json::to_string(&y).unwrap())).unwrap();
            let so = SearchOptions { bool: SearchBool::Or, expand: fields.len() % 2 == 0, fields };
            let js = serde_json::to_string(&so).unwrap();
            let back: Result<SearchOptions, String> = serde_json::from_str(&js).map_err(|e| e.to_string());
            write!(o, "{} {:?}", js, back.map(|b| b == so)).unwrap();
            let mut b = IndexBuilder::new().add_field(s(&v["n"]));
            let dup = catch_unwind(AssertUnwindSafe(|| {
                b = IndexBuilder::new().add_field(s(&v["n"])).add_field(s(&v["n"]));
            }));
            write!(o, " duplicate {}", if dup.is_err() { "refused" } else { "accepted" }).unwrap();
        }
    }
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let only: Option<usize> = a.get(2).map(|x| x.parse().unwrap());
    let langs: Vec<(&'static str, Box<dyn Language>, Pipeline)> = CODES
        .iter()
        .filter_map(|c| {
            from_code(c).map(|l| {
                let p = l.make_pipeline();
                (*c, l, p)
            })
        })
        .collect();
    let light: Vec<usize> = (0..langs.len()).filter(|i| langs[*i].0 != "ja" && langs[*i].0 != "zh").collect();
    let mut out = String::new();
    let mut go = || {
        for (n, line) in text.lines().enumerate() {
            if only.map_or(false, |o| o != n) {
                continue;
            }
            let v: Value = serde_json::from_str(line).unwrap();
            let mut which: Vec<Option<&(&'static str, Box<dyn Language>, Pipeline)>> = vec![];
            match v.get("c") {
                Some(c) => {
                    which.extend(langs.iter().filter(|l| l.0 == s(c)).map(Some));
                    if s(&v["k"]) != "index" {
                        // some in other languages as well, the same ones in every build
                        for i in &light {
                            if langs[*i].0 != s(c) && (n / 8 + CODES.iter().position(|x| *x == langs[*i].0).unwrap()) % 6 == 0 {
                                which.push(Some(&langs[*i]));
                            }
                        }
                    }
                }
                None => which.push(None),
            }
            for l in which {
                let name = l.map_or("-", |l| l.0);
                if a.get(3).map_or(false, |x| x != name) {
                    continue;
                }
                let r = catch_unwind(AssertUnwindSafe(|| make(&v, l.map(|l| (l.0, &*l.1, &l.2))))).unwrap_or_else(|_| "a panic".into());
                if only.is_some() {
                    println!("{}", r);
                } else {
                    writeln!(out, "{} {} {:x}", n, name, fnv(&r)).unwrap();
                }
            }
        }
    };
    go();
    print!("{}", out);
}
