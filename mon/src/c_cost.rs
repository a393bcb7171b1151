//! C29: work and memory in proportion to the input; what is dropped is released.

use crate::check;
use crate::gen::Gen;
use crate::meter::{self, Cost};
use crate::run::{run, Cfg, Ctx, Outcome, Stats, R};
use crate::spec::{self, Spec};
use crate::util::Rng;
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::pipeline::FnWrapper;
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use std::collections::BTreeMap;
use std::hint::black_box;

/// Per-thread languages, so that loading a dictionary is not part of what is measured.
struct State {
    langs: BTreeMap<&'static str, (Box<dyn Language>, Pipeline)>,
}
impl State {
    fn get(&mut self, s: &'static Spec) -> &(Box<dyn Language>, Pipeline) {
        self.langs.entry(s.code).or_insert_with(|| {
            let l = (s.make)();
            let p = l.make_pipeline();
            (l, p)
        })
    }
}

/// A word of 3 to 10 letters out of a vocabulary that grows with the text.
fn word(r: &mut Rng) -> String {
    let n = 3 + r.below(8);
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

fn words(g: &Gen, r: &mut Rng, s: &Spec, n: usize) -> String {
    let mut t = String::new();
    for _ in 0..n {
        if s.spaced {
            let mut w = g.corpus_word(r, s.code);
            if w.chars().count() > 14 {
                w = w.chars().take(14).collect();
            }
            // every third word has never been seen before
            match r.below(3) {
                0 => t.push_str(&word(r)),
                1 => w.push_str(&word(r)[..2]),
                _ => (),
            }
            t.push_str(&w);
            t.push_str(*r.pick(&[" ", " ", " ", "\n", "-", ", ", ". "]));
        } else {
            let w = g.corpus_word(r, s.code);
            t.extend(w.chars().take(6));
            if r.chance(1, 4) {
                t.push_str(*r.pick(&["。", "，", " ", "\n", "、"]));
            }
        }
    }
    t
}

fn name_of(fam: usize) -> &'static str {
    FAMILIES.get(fam).copied().unwrap_or(if fam == FAMILIES.len() { "coming and going" } else { "one more" })
}

fn add(c: &mut Vec<(String, Cost)>, name: &str, x: Cost) {
    c.push((name.to_string(), x));
}

pub const FAMILIES: &[&str] = &[
    "one text", "many documents", "many documents, texts not saved", "tokens of one document", "documents of one token", "document store", "document store, not saved",
    "loading", "pipeline functions", "one word repeated", "separators only", "many fields", "custom tokenizer",
];

/// Does the work of one family at size n; returns what each step cost.
fn work(g: &Gen, st: &mut State, s: &'static Spec, fam: usize, n: usize, r: &mut Rng) -> Vec<(String, Cost)> {
    let mut c = vec![];
    match fam {
        0 | 9 | 10 => {
            let text = match fam {
                0 => words(g, r, s, n),
                // a Japanese sentence of some 100 000 words overflows in lindera (a listed finding of C12)
                9 => format!("{}{}", g.corpus_word(r, s.code), if s.code == "ja" { "。" } else { " " }).repeat(n),
                _ => (0..n).map(|_| *r.pick(&[" ", "\n", "-", "\t", "\u{3000}", "--", ". "])).collect(),
            };
            let (l, p) = st.get(s);
            let (raw, x) = meter::measure(|| l.tokenize(&text));
            add(&mut c, "tokenizing", x);
            let (out, x) = meter::measure(|| p.run(raw));
            add(&mut c, "running the pipeline", x);
            black_box(out.len());
            if s.spaced {
                let mut ix = Index::with_language((s.make)(), ["a", "b"]);
                let (_, x) = meter::measure(|| ix.add_doc("1", ["", text.as_str()]));
                add(&mut c, "adding the text", x);
                let (_, x) = meter::measure(|| ix.add_doc("1", ["", text.as_str()]));
                add(&mut c, "updating the text", x);
                let (j, x) = meter::measure(|| ix.to_json());
                add(&mut c, "to_json", x);
                black_box(j.len());
                let (_, x) = meter::measure(move || drop(ix));
                add(&mut c, "dropping", x);
            }
        }
        1 | 2 => {
            let docs: Vec<(String, String, String)> = (0..n).map(|i| (format!("{}{}", word(r), i), words(g, r, s, 2), words(g, r, s, 6))).collect();
            let mut ix = IndexBuilder::with_language((s.make)()).save_docs(fam == 1).add_field("title").add_field("body").build();
            let (_, x) = meter::measure(|| {
                for (k, a, b) in &docs {
                    ix.add_doc(k, [a, b]);
                }
            });
            add(&mut c, "adding the documents", x);
            let (_, x) = meter::measure(|| {
                for (k, a, b) in docs.iter().rev() {
                    ix.add_doc(k, [b, a]);
                }
            });
            add(&mut c, "updating the documents", x);
            let (j, x) = meter::measure(|| ix.to_json().len());
            add(&mut c, "to_json", x);
            let (k, x) = meter::measure(|| ix.to_json_pretty().len());
            add(&mut c, "to_json_pretty", x);
            black_box((j, k));
        }
        3 | 4 => {
            let names: Vec<String> = (0..n).map(|i| format!("{}{}", word(r), i)).collect();
            let toks: Vec<(&str, &str)> = names.iter().map(|w| if fam == 3 { ("ref", w.as_str()) } else { (w.as_str(), "token") }).collect();
            let mut ix = InvertedIndex::new();
            let (_, x) = meter::measure(|| {
                for (d, t) in &toks {
                    ix.add_token(d, t, 1.5);
                }
            });
            add(&mut c, "add_token", x);
            let (_, x) = meter::measure(|| {
                for (d, t) in &toks {
                    ix.add_token(d, t, 2.5);
                }
            });
            add(&mut c, "add_token again", x);
            let (_, x) = meter::measure(|| toks.iter().filter(|(_, t)| ix.has_token(t)).count());
            add(&mut c, "has_token", x);
            let (_, x) = meter::measure(|| toks.iter().map(|(_, t)| ix.get_doc_frequency(t)).sum::<i64>());
            add(&mut c, "get_doc_frequency", x);
            let (_, x) = meter::measure(|| toks.iter().map(|(d, t)| ix.get_term_frequency(d, t)).sum::<f64>());
            add(&mut c, "get_term_frequency", x);
            let (_, x) = meter::measure(|| {
                if fam == 3 {
                    toks.iter().filter_map(|(_, t)| ix.get_docs(t)).count()
                } else {
                    ix.get_docs("token").map_or(0, |d| d.len())
                }
            });
            add(&mut c, "get_docs", x);
            let (_, x) = meter::measure(|| {
                for (d, t) in &toks {
                    ix.remove_token(d, t);
                }
            });
            add(&mut c, "remove_token", x);
        }
        5 | 6 => {
            let names: Vec<String> = (0..n).map(|i| format!("{}{}", word(r), i)).collect();
            let docs: Vec<BTreeMap<String, String>> = names.iter().map(|x| [("id".to_string(), x.clone()), ("body".to_string(), word(r))].into()).collect();
            let mut ds = DocumentStore::new(fam == 5);
            let (_, x) = meter::measure(|| {
                for (k, d) in names.iter().zip(docs) {
                    ds.add_doc(k, d);
                }
            });
            add(&mut c, "add_doc", x);
            let (_, x) = meter::measure(|| {
                for k in &names {
                    ds.add_field_length(k, "body", 3);
                    ds.add_field_length(k, "title", 4);
                }
            });
            add(&mut c, "add_field_length", x);
            let (_, x) = meter::measure(|| names.iter().map(|k| ds.get_field_length(k, "body")).sum::<usize>());
            add(&mut c, "get_field_length", x);
            let (_, x) = meter::measure(|| names.iter().filter(|k| ds.has_doc(k)).count());
            add(&mut c, "has_doc", x);
            let (_, x) = meter::measure(|| names.iter().map(|_| ds.len() + ds.is_empty() as usize + ds.is_stored() as usize).sum::<usize>());
            add(&mut c, "len", x);
            let (_, x) = meter::measure(|| names.iter().filter_map(|k| ds.get_doc(k)).count());
            add(&mut c, "get_doc", x);
            let (_, x) = meter::measure(|| {
                for k in &names {
                    ds.remove_doc(k);
                }
            });
            add(&mut c, "remove_doc", x);
        }
        7 => {
            let mut ix = InvertedIndex::new();
            let mut ds = DocumentStore::new(true);
            for i in 0..n {
                let w = word(r);
                ix.add_token(&i.to_string(), &w, 1.0);
                ds.add_doc(&i.to_string(), [("id".to_string(), i.to_string()), ("body".to_string(), w)].into());
                ds.add_field_length(&i.to_string(), "body", 1);
            }
            let (j, x) = meter::measure(|| serde_json::to_string(&ix).unwrap());
            add(&mut c, "serializing the inverted index", x);
            let (v, x) = meter::measure(|| serde_json::from_str::<InvertedIndex>(&j).is_ok());
            add(&mut c, "loading the inverted index", x);
            let (j, x) = meter::measure(|| serde_json::to_string(&ds).unwrap());
            add(&mut c, "serializing the document store", x);
            let (w, x) = meter::measure(|| serde_json::from_str::<DocumentStore>(&j).is_ok());
            add(&mut c, "loading the document store", x);
            black_box((v, w));
        }
        8 => {
            let p = Pipeline { queue: (0..n / 8 + 1).map(|i| -> Box<dyn elasticlunr::pipeline::PipelineFn> { Box::new(FnWrapper(format!("f{}", i), Some)) }).collect() };
            let toks: Vec<String> = (0..40).map(|_| word(r)).collect();
            let (v, x) = meter::measure(|| p.run(toks));
            add(&mut c, "running the pipeline", x);
            black_box(v);
        }
        11 => {
            let n = n / 3 + 8;
            let mut ix = IndexBuilder::new().add_fields((0..n).map(|i| format!("field{}", i))).build();
            let texts: Vec<Vec<String>> = (0..3).map(|_| (0..n).map(|_| words(g, r, s, 1)).collect()).collect();
            let (_, x) = meter::measure(|| {
                for (i, t) in texts.iter().enumerate() {
                    ix.add_doc(&i.to_string(), t);
                }
            });
            add(&mut c, "adding the documents", x);
            let (j, x) = meter::measure(|| ix.to_json());
            add(&mut c, "to_json", x);
            black_box(j);
        }
        _ => {
            let text = words(g, r, s, n);
            let mut ix = IndexBuilder::new().add_field_with_tokenizer("x", Box::new(|t: &str| t.split(' ').map(|x| x.to_string()).collect())).build();
            let (_, x) = meter::measure(|| ix.add_doc("1", [&text]));
            add(&mut c, "adding the text", x);
        }
    }
    c
}

fn better(a: &mut Vec<(String, Cost)>, b: Vec<(String, Cost)>) {
    for (x, y) in a.iter_mut().zip(b) {
        x.1.cpu = x.1.cpu.min(y.1.cpu);
    }
}

fn growth(g: &Gen, st: &mut State, s: &'static Spec, fam: usize, n0: usize, r: &mut Rng, stats: &mut Stats) -> R {
    let seed = r.next();
    let mut base = work(g, st, s, fam, n0, &mut Rng::new(seed));
    for _ in 0..2 {
        let b = work(g, st, s, fam, n0, &mut Rng::new(seed));
        better(&mut base, b);
    }
    for m in [4usize, 16] {
        // where even linear work would take long, the growth is judged at smaller sizes only
        if base.iter().map(|b| b.1.cpu).sum::<f64>() * m as f64 > 6.0 {
            stats.count("sizes_left_out_as_too_slow", 1);
            break;
        }
        let mut big = work(g, st, s, fam, n0 * m, &mut Rng::new(if fam == 9 { seed } else { seed ^ m as u64 }));
        for tries in 0..5 {
            // CPU time is disturbed by other work; allocation is not
            let bad = base.iter().zip(&big).any(|(b, x)| x.1.cpu > limit_cpu(m, b.1.cpu));
            let sure = base.iter().zip(&big).any(|(b, x)| x.1.cpu > 2.0 * limit_cpu(m, b.1.cpu) && x.1.cpu > 1.0);
            let beyond = base.iter().zip(&big).any(|(b, x)| x.1.cpu > 4.0 * limit_cpu(m, b.1.cpu) && x.1.cpu > 3.0);
            if !bad || beyond || sure && tries == 1 || tries == 4 {
                break;
            }
            let again = work(g, st, s, fam, n0, &mut Rng::new(seed));
            better(&mut base, again);
            let again = work(g, st, s, fam, n0 * m, &mut Rng::new(if fam == 9 { seed } else { seed ^ m as u64 }));
            better(&mut big, again);
        }
        for ((name, b), (_, x)) in base.iter().zip(&big) {
            stats.count("steps_measured", 1);
            stats.max("cpu_growth_permille_of_linear", if b.cpu > 0.002 { (x.cpu / b.cpu / m as f64 * 1000.0) as u64 } else { 0 });
            stats.max("allocation_growth_permille_of_linear", if b.bytes > 20000 { (x.bytes as f64 / b.bytes as f64 / m as f64 * 1000.0) as u64 } else { 0 });
            stats.max("cpu_ms_of_a_step", (x.cpu * 1000.0) as u64);
            check!(x.cpu <= limit_cpu(m, b.cpu), "{}: {} takes {:.3} s of CPU time at size {}, and {:.3} s at size {}", FAMILIES[fam], name, b.cpu, n0, x.cpu, n0 * m);
            for (what, b, x) in [("allocations", b.calls as f64, x.calls as f64), ("bytes allocated", b.bytes as f64, x.bytes as f64), ("bytes held at once", b.peak as f64, x.peak as f64)] {
                check!(x <= (b + if what == "allocations" { 200.0 } else { 40000.0 }) * m as f64 * 2.2, "{}: {} takes {} {} at size {}, and {} at size {}", FAMILIES[fam], name, b, what, n0, x, n0 * m);
            }
        }
    }
    Ok(())
}
fn limit_cpu(m: usize, base: f64) -> f64 {
    (base + 0.004) * m as f64 * 7.0
}

/// The same work again and again, with other texts: no memory stays behind.
fn release(g: &Gen, st: &mut State, s: &'static Spec, fam: usize, n0: usize, r: &mut Rng, stats: &mut Stats) -> R {
    let mut levels = vec![];
    let mut total = 0;
    for i in 0..9 {
        let l0 = meter::live();
        let (c, m) = meter::measure(|| work(g, st, s, fam, n0, r));
        drop(c);
        if i >= 3 {
            levels.push(meter::live() - l0);
            total += m.peak.max(1);
        }
    }
    let left: i64 = levels.iter().sum();
    stats.max("bytes_left_behind", left.max(0) as u64);
    // caches that grow now and then (the lazy automata of the regex crate) are not leaks; those come with every repetition
    let mut low = levels.clone();
    low.sort();
    let always = low[1] * 6;
    check!(always <= total / 1000 + 6000, "{}: after the work was done and everything dropped, {} bytes stayed allocated in six repetitions ({:?})", FAMILIES[fam], left, levels);
    Ok(())
}

/// Documents come and go, with a fixed set of texts: the structures do not grow.
fn churn(g: &Gen, s: &'static Spec, n0: usize, r: &mut Rng, stats: &mut Stats) -> R {
    let refs: Vec<String> = (0..20).map(|i| format!("{}{}", word(r), i)).collect();
    let texts: Vec<String> = (0..20).map(|_| words(g, r, s, 30)).collect();
    let toks: Vec<String> = (0..200).map(|_| word(r)).collect();
    let mut ix = Index::with_language((s.make)(), ["a"]);
    let mut inv = InvertedIndex::new();
    let mut ds = DocumentStore::new(r.chance(1, 2));
    let mut lvl = vec![];
    let rounds = n0 / 200 + 8;
    // every reference has had every text after this
    for i in 0..rounds {
        for k in 0..20 {
            for (j, d) in refs.iter().enumerate() {
                if i == 0 || j % 7 == i % 7 {
                    ix.add_doc(d, [&texts[(j + k + i) % 20]]);
                }
                ds.add_doc(d, [("a".to_string(), texts[(j + k) % 20].clone())].into());
                ds.add_field_length(d, "a", k);
            }
        }
        for d in &refs {
            for t in &toks {
                inv.add_token(d, t, 1.0);
            }
        }
        for d in &refs {
            ds.remove_doc(d);
            for t in &toks {
                inv.remove_token(d, t);
            }
        }
        // and one fixed state at the end of each round
        for (j, d) in refs.iter().enumerate() {
            ix.add_doc(d, [&texts[j]]);
        }
        if i > 0 {
            lvl.push(meter::live());
        }
    }
    let (a, b) = (lvl[0], lvl[lvl.len() - 1]);
    stats.max("bytes_grown_by_churn", (b - a).max(0) as u64);
    // nodes of ordered maps may be filled differently; the measured vector is counted too
    check!(b - a <= 20000, "adding, updating and removing the same documents {} times over: memory held grows from {} to {} bytes", rounds, a, b);
    Ok(())
}

/// What one more document or token costs when there are few, and when there are very many.
fn one_more(g: &Gen, s: &'static Spec, kind: u64, n: usize, r: &mut Rng, stats: &mut Stats) -> R {
    const K: usize = 150;
    // costs of K operations of each kind, the least of several rounds
    let run = |n: usize, r: &mut Rng| -> Vec<(&'static str, Cost)> {
        let mut best: Vec<(&'static str, Cost)> = vec![];
        let mut note = |i: usize, name: &'static str, x: Cost| {
            if best.len() <= i {
                best.push((name, x));
            } else {
                best[i].1.cpu = best[i].1.cpu.min(x.cpu);
                best[i].1.calls = best[i].1.calls.min(x.calls);
                best[i].1.bytes = best[i].1.bytes.min(x.bytes);
            }
        };
        let names: Vec<String> = (0..n + 6 * K).map(|i| format!("{}{}", word(r), i)).collect();
        let old: Vec<&String> = (0..6 * K).map(|_| &names[r.below(n)]).collect();
        match kind {
            0 | 1 => {
                let texts: Vec<String> = (0..50).map(|_| words(g, r, s, 3)).collect();
                let mut ix = IndexBuilder::with_language((s.make)()).save_docs(kind == 0).add_field("title").add_field("body").build();
                for (i, k) in names[..n].iter().enumerate() {
                    // words are shared, but no more than a hundred documents share one
                    ix.add_doc(k, [k.as_str(), if i % (n / 100 + 1) == 0 { &texts[i % 50] } else { "" }]);
                }
                for b in 0..6 {
                    let new = &names[n + b * K..n + (b + 1) * K];
                    let (_, x) = meter::measure(|| new.iter().enumerate().for_each(|(i, k)| ix.add_doc(k, [k, &texts[i % 50]])));
                    note(0, "adding a document", x);
                    let (_, x) = meter::measure(|| old[b * K..(b + 1) * K].iter().enumerate().for_each(|(i, k)| ix.add_doc(k, [k.as_str(), &texts[i % 50]])));
                    note(1, "updating a document", x);
                    let (_, x) = meter::measure(|| (0..K).map(|_| ix.get_fields().len()).sum::<usize>());
                    note(2, "get_fields", x);
                }
            }
            2 | 3 => {
                let mut ix = InvertedIndex::new();
                let own = |k: &String| if kind == 2 { ("ref".to_string(), k.clone()) } else { (k.clone(), "token".to_string()) };
                for k in &names[..n] {
                    let (d, t) = own(k);
                    ix.add_token(&d, &t, 1.0);
                }
                for b in 0..6 {
                    let new: Vec<(String, String)> = names[n + b * K..n + (b + 1) * K].iter().map(own).collect();
                    let had: Vec<(String, String)> = old[b * K..(b + 1) * K].iter().map(|k| own(k)).collect();
                    let (_, x) = meter::measure(|| new.iter().for_each(|(d, t)| ix.add_token(d, t, 1.0)));
                    note(0, "add_token", x);
                    let (_, x) = meter::measure(|| had.iter().for_each(|(d, t)| ix.add_token(d, t, 2.0)));
                    note(1, "add_token again", x);
                    let (v, x) = meter::measure(|| had.iter().map(|(d, t)| ix.get_term_frequency(d, t) + ix.get_doc_frequency(t) as f64 + ix.has_token(t) as u8 as f64).sum::<f64>());
                    note(2, "looking up", x);
                    black_box(v);
                    let (v, x) = meter::measure(|| had.iter().filter_map(|(_, t)| if kind == 2 { ix.get_docs(t) } else { ix.get_docs(&t[..3]) }).count());
                    note(3, "get_docs", x);
                    black_box(v);
                    let (_, x) = meter::measure(|| had.iter().for_each(|(d, t)| ix.remove_token(d, t)));
                    note(4, "remove_token", x);
                    let (_, x) = meter::measure(|| had.iter().for_each(|(d, t)| ix.remove_token(d, t)));
                    note(5, "remove_token again", x);
                    // back to where it was
                    had.iter().for_each(|(d, t)| ix.add_token(d, t, 1.0));
                }
            }
            _ => {
                let mut ds = DocumentStore::new(kind == 4);
                let doc = |k: &str| -> BTreeMap<String, String> { [("id".to_string(), k.to_string()), ("body".to_string(), "text".to_string())].into() };
                for k in &names[..n] {
                    ds.add_doc(k, doc(k));
                    ds.add_field_length(k, "body", 3);
                }
                for b in 0..6 {
                    let new = &names[n + b * K..n + (b + 1) * K];
                    let had = &old[b * K..(b + 1) * K];
                    let docs: Vec<_> = new.iter().map(|k| doc(k)).collect();
                    let (_, x) = meter::measure(|| new.iter().zip(docs).for_each(|(k, d)| ds.add_doc(k, d)));
                    note(0, "add_doc", x);
                    let (_, x) = meter::measure(|| new.iter().for_each(|k| ds.add_field_length(k, "body", 3)));
                    note(1, "add_field_length", x);
                    let docs: Vec<_> = had.iter().map(|k| doc(k)).collect();
                    let (_, x) = meter::measure(|| had.iter().zip(docs).for_each(|(k, d)| ds.add_doc(k, d)));
                    note(2, "add_doc again", x);
                    let (v, x) = meter::measure(|| had.iter().map(|k| ds.get_field_length(k, "body") + ds.has_doc(k) as usize + ds.len() + ds.is_empty() as usize + ds.is_stored() as usize).sum::<usize>());
                    note(3, "looking up", x);
                    black_box(v);
                    let (v, x) = meter::measure(|| had.iter().filter_map(|k| ds.get_doc(k)).count());
                    note(4, "get_doc", x);
                    black_box(v);
                    let (_, x) = meter::measure(|| had.iter().for_each(|k| ds.remove_doc(k)));
                    note(5, "remove_doc", x);
                    for k in had {
                        ds.add_doc(k, doc(k));
                        ds.add_field_length(k, "body", 3);
                    }
                }
            }
        }
        best
    };
    let what = ["an index", "an index that saves no texts", "an inverted index of one document", "an inverted index of one token", "a document store", "a document store that saves no texts"][kind as usize];
    let small = run(1000, r);
    // not so large that a slowdown would keep it from ending
    for m in [n / 10, n] {
        let mut big = run(m, r);
        let limit = |a: f64| a * 5.0 + K as f64 * 10e-6;
        let over = |big: &Vec<(&'static str, Cost)>| small.iter().zip(big).any(|(a, b)| b.1.cpu > limit(a.1.cpu));
        let far = |big: &Vec<(&'static str, Cost)>| small.iter().zip(big).any(|(a, b)| b.1.cpu > 4.0 * limit(a.1.cpu));
        for _ in 0..2 {
            if over(&big) && !far(&big) {
                let again = run(m, r);
                for (x, y) in big.iter_mut().zip(again) {
                    x.1.cpu = x.1.cpu.min(y.1.cpu);
                }
            }
        }
        for ((name, a), (_, b)) in small.iter().zip(&big) {
            stats.count("single_operations_measured", 1);
            stats.max("single_operation_slower_than_in_a_small_structure_permille", if a.cpu > 2e-5 { (b.cpu / a.cpu * 1000.0) as u64 } else { 0 });
            stats.max("single_operation_nanoseconds", (b.cpu / K as f64 * 1e9) as u64);
            check!(b.cpu <= limit(a.cpu), "{} with {} documents or tokens: {} takes {:.1} microseconds of CPU time, with 1000 it takes {:.1}", what, m, name, b.cpu / K as f64 * 1e6, a.cpu / K as f64 * 1e6);
            for (unit, a, b) in [("allocations", a.calls as f64, b.calls as f64), ("bytes", a.bytes as f64, b.bytes as f64)] {
                check!(b <= a * 4.0 + K as f64 * if unit == "bytes" { 3000.0 } else { 10.0 }, "{} with {} documents or tokens: {} {} takes {} {}, with 1000 it takes {}", what, m, K, name, b, unit, a);
            }
        }
    }
    Ok(())
}

pub fn c29(cfg: &Cfg, g: &Gen) -> Outcome {
    let nf = FAMILIES.len() as u64;
    let specs: Vec<&'static Spec> = spec::SPECS.iter().collect();
    let n = if cfg.thorough { 1300 } else { 225 };
    let cfg2 = Cfg { threads: cfg.threads.min(5), ..cfg.clone() };
    run(
        &cfg2,
        n,
        64 << 20,
        |_| State { langs: BTreeMap::new() },
        |st, r, idx, stats| {
            // every family in turn; the languages spread over the ones that read text
            let fam = (idx % (nf + 2)) as usize;
            let s = if fam == 0 || fam == 9 || fam == 10 {
                specs[(idx / (nf + 2)) as usize * 3 % specs.len()]
            } else if r.chance(1, 2) {
                spec::spec("en")
            } else {
                let v: Vec<&&'static Spec> = specs.iter().filter(|s| s.spaced).collect();
                **r.pick(&v)
            };
            let n0 = match fam {
                0 => 4000,
                1 | 2 => 450,
                3..=6 => 2500,
                7 => 1800,
                8 => 5000,
                9 | 10 => 6000,
                11 => 3000,
                _ => 4000,
            } * if cfg.thorough { 1 + r.below(3) } else { 1 };
            let n0 = n0 + r.below(n0 / 4);
            stats.count(&format!("family: {}", name_of(fam)), 1);
            stats.eval(crate::util::mix(fam as u64 ^ crate::util::hash_str(s.code) ^ (n0 as u64) << 20), true);
            stats.sample(|| format!("{} ({}), sizes {} to {}", name_of(fam), s.code, n0, n0 * 16));
            if fam > FAMILIES.len() {
                let n = if cfg.thorough { 200_000 } else { 80_000 };
                return one_more(g, s, idx / (nf + 2) % 6, n, r, stats).ctx("workload", || format!("language {}", s.code));
            }
            st.get(s);
            let how = || format!("language {}, size {}", s.code, n0);
            if fam == FAMILIES.len() {
                return churn(g, s, n0.min(2000), r, stats).ctx("workload", how);
            }
            growth(g, st, s, fam, n0, r, stats).ctx("workload", how)?;
            release(g, st, s, fam, n0 / 6 + 1, r, stats).ctx("workload", how)
        },
    )
}
