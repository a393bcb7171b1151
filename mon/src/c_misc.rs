//! C21 C25 C26.

use crate::check;
use crate::gen::{Gen, Opt};
use crate::json::{self, J};
use crate::run::*;
use crate::scen::{self, SOpt, Scen};
use crate::spec;
use crate::util::{hash_str, mix, Rng};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{Language, Pipeline};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

const STACK: usize = 256 << 20;

// ---------------------------------------------------------------- C21

#[derive(Clone, Copy, Debug, PartialEq)]
enum Beh {
    Id,
    /// drops tokens by hash
    Drop(u64),
    DropAll,
    Push(char),
    Prepend(char),
    Empty,
    EmptyIf(u64),
    Pop,
    Rev,
    Up,
    Double,
}
fn behave(b: Beh, t: String) -> Option<String> {
    Some(match b {
        Beh::Id => t,
        Beh::Drop(n) => {
            if hash_str(&t) % n == 0 {
                return None;
            }
            t
        }
        Beh::DropAll => return None,
        Beh::Push(c) => t + &c.to_string(),
        Beh::Prepend(c) => format!("{}{}", c, t),
        Beh::Empty => String::new(),
        Beh::EmptyIf(n) => {
            if hash_str(&t) % n == 0 {
                String::new()
            } else {
                t
            }
        }
        Beh::Pop => {
            let mut t = t;
            t.pop();
            t
        }
        Beh::Rev => t.chars().rev().collect(),
        Beh::Up => t.to_uppercase(),
        Beh::Double => {
            if t.len() < 200 {
                format!("{}{}", t, t)
            } else {
                t
            }
        }
    })
}
type Log = Rc<RefCell<Vec<(usize, String)>>>;
struct Rec {
    name: String,
    pos: usize,
    beh: Beh,
    log: Log,
}
impl PipelineFn for Rec {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn filter(&self, t: String) -> Option<String> {
        self.log.borrow_mut().push((self.pos, t.clone()));
        behave(self.beh, t)
    }
}

fn brief(v: &[String]) -> String {
    let mut s = format!("{:?}", v.iter().take(300).map(|t| t.chars().take(400).collect::<String>()).collect::<Vec<_>>());
    if v.len() > 300 || v.iter().any(|t| t.len() > 400) {
        s.push_str(&format!(" (shortened; {} tokens of {:?} bytes)", v.len(), v.iter().map(|t| t.len()).max()));
    }
    s
}

pub fn c21(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 2_000_000 } else { 90_000 }, STACK, |_| (), |_, r, idx, st| {
        let o = Opt { max_word: 120, ..Opt::default() };
        let most = if r.chance(1, 8) { 1200 } else { 130 };
        let nf = if idx < 20 { [0usize, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000][idx as usize] } else if r.chance(1, 12) { g.size(r, most) } else { r.below(7) };
        let log: Log = Rc::new(RefCell::new(vec![]));
        let mut behs = vec![];
        let mut names = vec![];
        let mut queue: Vec<Box<dyn PipelineFn>> = vec![];
        // in long pipelines, drops would leave nothing for the last functions
        let calm = nf > 20 && r.chance(2, 3);
        for i in 0..nf {
            let b = match if calm { r.range(1, 60) } else { r.below(if nf > 20 { 30 } else { 14 }) } {
                7..=9 if calm => Beh::Id,
                0 => Beh::Drop(r.range(2, 9) as u64),
                1 => Beh::Push(*r.pick(&['x', 'é', '😀', ' '])),
                2 => Beh::Prepend(*r.pick(&['x', 'é', '😀', '-'])),
                3 => Beh::EmptyIf(r.range(2, 5) as u64),
                4 => Beh::Pop,
                5 => Beh::Rev,
                6 => Beh::Up,
                7 => Beh::Double,
                8 if r.chance(1, 4) => Beh::DropAll,
                9 if r.chance(1, 3) => Beh::Empty,
                _ => Beh::Id,
            };
            let name = match r.below(5) {
                0 => g.name(r, o),
                1 => "same".to_string(),
                _ => format!("fn{}", i),
            };
            behs.push(b);
            names.push(name.clone());
            // plain functions are not logged, everything else is
            if b == Beh::Up && r.chance(1, 2) {
                queue.push(Box::new(FnWrapper(name, |t| behave(Beh::Up, t))));
                behs[i] = Beh::Up;
                names[i].push_str("");
            } else {
                queue.push(Box::new(Rec { name, pos: i, beh: b, log: log.clone() }));
            }
        }
        let logged: Vec<bool> = {
            // which functions write to the log: ask them
            let mut v = vec![];
            for f in queue.iter() {
                let n = log.borrow().len();
                let _ = f.filter("probe".into());
                v.push(log.borrow().len() > n);
            }
            v
        };
        let p = Pipeline { queue };
        let describe = |toks: &[String]| format!("functions={:?} tokens={}", behs, brief(toks));
        let runs = r.range(1, 3);
        let mut last = vec![];
        let go = |r: &mut Rng, st: &mut Stats, last: &mut Vec<String>| -> R {
            for _ in 0..runs {
                let nt = if nf < 20 && r.chance(1, 20) { g.size(r, 3000) } else { r.below(14) };
                let pool: Vec<String> = (0..r.range(1, 6)).map(|_| if r.chance(1, 8) { String::new() } else { g.word(r, "en", o) }).collect();
                let mut toks: Vec<String> = (0..nt).map(|i| if r.chance(1, 3) { r.pick(&pool).clone() } else { format!("t{}", i) }).collect();
                if (20..40).contains(&idx) && nf < 8 || nf < 8 && r.chance(1, 2000) {
                    // very long tokens, very many tokens
                    let n = *r.pick(&[300usize, 4097, 33_000, 70_000, 270_000, 1_100_000]);
                    toks.push(if r.chance(1, 2) { "y".repeat(n) } else { "éa😀".repeat(n / 7) });
                    toks.push("after".into());
                } else if (40..44).contains(&idx) && nf < 8 {
                    let n = if idx < 41 { 70_000 } else { *r.pick(&[100_003usize, 131_075, 262_147, 300_000]) }.max(g.size(r, 300_000));
                        toks.extend((0..n).map(|i| format!("t{}", i % 1000)));
                }
                *last = toks.clone();
                let mut want = vec![];
                let mut seen: Vec<Vec<String>> = vec![vec![]; nf];
                for t in &toks {
                    let mut cur = Some(t.clone());
                    for (i, b) in behs.iter().enumerate() {
                        match cur {
                            Some(x) => {
                                seen[i].push(x.clone());
                                cur = behave(*b, x);
                            }
                            None => break,
                        }
                    }
                    if let Some(x) = cur {
                        want.push(x);
                    }
                }
                log.borrow_mut().clear();
                let got = p.run(toks.clone());
                check!(got == want, "the result is {} ({} tokens), expected {} ({} tokens)", brief(&got), got.len(), brief(&want), want.len());
                let mut obs: Vec<Vec<String>> = vec![vec![]; nf];
                for (i, t) in log.borrow().iter() {
                    obs[*i].push(t.clone());
                }
                for i in 0..nf {
                    if logged[i] {
                        check!(obs[i] == seen[i], "function {} of {} was given {}, expected {}", i, nf, brief(&obs[i]), brief(&seen[i]));
                    }
                }
                st.count("function_calls_logged", log.borrow().len() as u64);
                st.count("tokens_in", toks.len() as u64);
                st.count("tokens_dropped", (toks.len() - want.len()) as u64);
                st.max("tokens", toks.len() as u64);
                st.eval(hash_str(&describe(&toks)), nf > 0 && !toks.is_empty());
            }
            let js = serde_json::to_string(&p).map_err(|e| e.to_string()).ctx("at", || "serialize".into())?;
            let want = J::Arr(names.iter().map(|n| J::Str(n.clone())).collect());
            let j = json::parse(&js).ctx("json", || js.clone())?;
            check!(j == want, "the serialized pipeline is {}, the functions are named {:?}", js, names);
            Ok(())
        };
        let v = go(r, st, &mut last);
        st.max("functions", nf as u64);
        st.sample(|| describe(&last));
        v.ctx("scenario", || describe(&last))
    })
}

// ---------------------------------------------------------------- C25

type Slot = Option<(Scen, String)>;

/// A scenario that depends on the seed only: built in several processes and threads.
pub fn fixed_scen(g: &Gen, seed: u64, k: u64) -> Scen {
    if k == 7 {
        // one document with very many different terms
        let r = &mut Rng::new(mix(seed ^ 0x715));
        let t: String = (0..40_000u64).map(|i| format!("{} ", mix(i ^ seed) % 1_000_000_007)).collect();
        return Scen { lang: scen::Lang::Built("en"), fields: vec!["body".into(), "title".into()], toks: vec![None, None], ref_field: None, save: None, docs: vec![("1".into(), vec![t, g.corpus_word(r, "en")])] };
    }
    let mut r = Rng::new(mix(seed ^ mix(k ^ 0xC25)));
    let o = SOpt { repeats: true, max_docs: 40, text: Opt { max_word: 60, ..Opt::default() }, ..SOpt::default() };
    let mut s = scen::gen(g, &mut r, &o);
    if k % 3 == 0 {
        for d in s.docs.iter_mut() {
            for v in d.1.iter_mut() {
                *v = g.text_n(&mut r, s.lang.code(), 40, Opt { big: false, max_word: 30, bmp: false });
            }
        }
    }
    s
}

/// Prints one hash per fixed scenario (run in a separate process).
pub fn print_hashes(g: &Gen, seed: u64, n: u64) {
    let g = &*g;
    let out = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || (0..n).map(|k| format!("{:016x}", hash_str(&fixed_scen(g, seed, k).build().to_json()))).collect::<Vec<_>>())
            .unwrap()
            .join()
            .unwrap()
    });
    for l in out {
        println!("{}", l);
    }
}

pub fn c25(cfg: &Cfg, g: &Gen) -> Outcome {
    let nfix: u64 = if cfg.thorough { 3000 } else { 300 };
    // other processes, with another environment, working directory and address layout
    let mut procs = vec![];
    if cfg.only.is_none() {
        for k in 0..3 {
            let c = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["hashes", &cfg.seed.to_string(), &nfix.to_string(), &cfg.repo])
                .env("LANG", ["C", "tr_TR.UTF-8", "de_DE.UTF-8"][k])
                .env("TZ", ["UTC", "Asia/Tokyo", "America/New_York"][k])
                .env("RUNID", "x".repeat(k * 1000))
                .current_dir(["/", "/tmp", "/verif"][k])
                .output();
            match c {
                Ok(o) if o.status.success() => procs.push(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect::<Vec<_>>()),
                o => {
                    eprintln!("HARNESS-ERROR: helper process: {:?}", o.map(|o| (o.status, String::from_utf8_lossy(&o.stderr).into_owned())));
                    std::process::exit(2);
                }
            }
        }
    }
    let procs = &procs;
    // what earlier cases (on any thread) emitted for a scenario
    let shared: std::sync::Mutex<Vec<Slot>> = std::sync::Mutex::new(vec![]);
    let inflight = std::sync::atomic::AtomicU64::new(0);
    let (shared, inflight) = (&shared, &inflight);
    run(
        cfg,
        nfix + if cfg.thorough { 250_000 } else { 14_000 },
        STACK,
        |_| {
            let m: HashMap<&'static str, (Box<dyn Language>, Pipeline)> = HashMap::new();
            m
        },
        |kept, r, idx, st| {
            use std::sync::atomic::Ordering::SeqCst;
            if idx < nfix {
                let s = fixed_scen(g, cfg.seed, idx);
                let n = inflight.fetch_add(1, SeqCst);
                let a = s.build().to_json();
                inflight.fetch_sub(1, SeqCst);
                if n > 0 {
                    st.count("builds_overlapping_others", 1);
                }
                let b = s.build().to_json();
                check!(a == b, "building the same index twice gives different bytes ({})", s.describe());
                for (k, p) in procs.iter().enumerate() {
                    let h = format!("{:016x}", hash_str(&a));
                    check!(p.get(idx as usize) == Some(&h), "process {} emits other bytes than this one for {}", k, s.describe());
                    st.count("cross_process_comparisons", 1);
                }
                shared.lock().unwrap().push(Some((s.clone(), a.clone())));
                st.eval(hash_str(&a), !s.docs.is_empty());
                return Ok(());
            }
            if r.chance(1, 4) {
                // rebuild on this thread what another one built earlier
                let pick = {
                    let v = shared.lock().unwrap();
                    if v.is_empty() {
                        None
                    } else {
                        v[r.below(v.len())].clone()
                    }
                };
                if let Some((s, a)) = pick {
                    let n = inflight.fetch_add(1, SeqCst);
                    let b = s.build().to_json();
                    inflight.fetch_sub(1, SeqCst);
                    if n > 0 {
                        st.count("builds_overlapping_others", 1);
                    }
                    check!(a == b, "building the same index again, on another thread and later, gives different bytes ({})", s.describe());
                    st.count("cross_thread_comparisons", 1);
                    st.eval(hash_str(&a) ^ idx, true);
                }
                return Ok(());
            }
            // history independence: a long-lived instance, fresh ones, and reverse order
            let sp = if r.chance(1, 3) { spec::spec("en") } else { &spec::SPECS[r.below(spec::SPECS.len())] };
            let (l0, p0) = kept.entry(sp.code).or_insert_with(|| {
                let l = (sp.make)();
                let p = l.make_pipeline();
                (l, p)
            });
            let nt = r.range(2, 10);
            let o = Opt { max_word: 300, ..Opt::default() };
            let mut texts: Vec<String> = (0..nt).map(|_| g.text(r, sp.code, o)).collect();
            if r.chance(1, 3) {
                // words sharing prefixes, suffixes, lengths with earlier ones
                let w = g.corpus_word(r, sp.code);
                let c: Vec<char> = w.chars().collect();
                texts.push((1..=c.len()).map(|k| c[..k].iter().collect::<String>() + " ").collect());
                texts.push((0..c.len()).map(|k| c[k..].iter().collect::<String>() + " ").collect());
                texts.push(format!("{} {} {}", w.to_uppercase(), w, w));
            }
            let describe = |texts: &[String]| format!("language {} texts {:?}", sp.code, texts);
            let a: Vec<Vec<String>> = texts.iter().map(|t| p0.run(l0.tokenize(t))).collect();
            let lb = (sp.make)();
            let pb = lb.make_pipeline();
            let mut b: Vec<Vec<String>> = texts.iter().rev().map(|t| pb.run(lb.tokenize(t))).collect();
            b.reverse();
            for (i, t) in texts.iter().enumerate() {
                check!(a[i] == b[i], "the terms of {:?} depend on what was processed before: {:?} / {:?} ({})", t, a[i], b[i], describe(&texts));
            }
            let fresh_all = sp.spaced;
            for (i, t) in texts.iter().enumerate() {
                // the same tokens one by one, with the stages used out of order before
                if fresh_all || i == 0 {
                    let lc = (sp.make)();
                    let pc = lc.make_pipeline();
                    for f in pc.queue.iter().rev() {
                        let _ = f.filter(t.clone());
                    }
                    let toks = lc.tokenize(t);
                    let c: Vec<String> = toks.iter().flat_map(|x| pc.run(vec![x.clone()])).collect();
                    check!(c == a[i], "the terms of {:?} differ between a fresh and a used instance, or when the words are processed one by one: {:?} / {:?} ({})", t, a[i], c, describe(&texts));
                    // reverse order of the words
                    let mut rev = toks;
                    rev.reverse();
                    let mut d = pc.run(rev);
                    d.reverse();
                    check!(d == a[i], "the terms of {:?} depend on the order of the words: {:?} / {:?}", t, a[i], d);
                }
            }
            let again: Vec<Vec<String>> = texts.iter().map(|t| p0.run(l0.tokenize(t))).collect();
            check!(again == a, "processing the same texts again gives other terms ({})", describe(&texts));
            st.count("texts_processed_in_two_histories", texts.len() as u64);
            st.eval(hash_str(&describe(&texts)), a.iter().any(|x| !x.is_empty()));
            st.sample(|| describe(&texts));
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- C26

pub fn c26(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 3_000_000 } else { 150_000 }, STACK, |_| (), |_, r, idx, st| {
        let o = Opt { max_word: 60, ..Opt::default() };
        let n = if r.chance(1, 30) { g.size(r, 300) } else { r.below(5) };
        let names = g.names(r, n, o);
        let b = |r: &mut Rng| if r.chance(1, 2) { SearchBool::Or } else { SearchBool::And };
        // the first cases enumerate every setting of one field and both globals
        let mut fields = BTreeMap::new();
        let (gb, ge);
        if idx < 4 * 257 * 3 * 3 {
            let mut k = idx;
            gb = if k % 2 == 0 { SearchBool::Or } else { SearchBool::And };
            k /= 2;
            ge = k % 2 == 0;
            k /= 2;
            let boost = if k % 257 == 256 { None } else { Some((k % 257) as u8) };
            k /= 257;
            let fb = [None, Some(SearchBool::Or), Some(SearchBool::And)][(k % 3) as usize];
            k /= 3;
            let fe = [None, Some(true), Some(false)][(k % 3) as usize];
            fields.insert("f".to_string(), SearchOptionsField { boost, bool: fb, expand: fe });
            st.count("enumerated_field_settings", 1);
        } else {
            gb = b(r);
            ge = r.chance(1, 2);
        }
        for f in names {
            fields.insert(
                f,
                SearchOptionsField {
                    boost: if r.chance(1, 2) { Some(*r.pick(&[0u8, 1, 2, 10, 100, 127, 128, 254, 255])) } else { None },
                    bool: if r.chance(1, 2) { Some(b(r)) } else { None },
                    expand: if r.chance(1, 2) { Some(r.chance(1, 2)) } else { None },
                },
            );
        }
        let so = SearchOptions { bool: gb, expand: ge, fields };
        let bs = |b: SearchBool| J::Str(if b == SearchBool::Or { "OR" } else { "AND" }.into());
        let mut fo = BTreeMap::new();
        for (f, x) in &so.fields {
            let mut m = BTreeMap::new();
            if let Some(v) = x.boost {
                m.insert("boost".to_string(), J::Num(v.to_string()));
            }
            if let Some(v) = x.bool {
                m.insert("bool".to_string(), bs(v));
            }
            if let Some(v) = x.expand {
                m.insert("expand".to_string(), J::Bool(v));
            }
            fo.insert(f.clone(), J::Obj(m));
        }
        let want = J::Obj([("bool".to_string(), bs(so.bool)), ("expand".to_string(), J::Bool(so.expand)), ("fields".to_string(), J::Obj(fo))].into_iter().collect());
        let go = |r: &mut Rng, st: &mut Stats| -> R {
            let js = match r.below(3) {
                0 => serde_json::to_string(&so).unwrap(),
                1 => serde_json::to_string_pretty(&so).unwrap(),
                _ => serde_json::to_value(&so).unwrap().to_string(),
            };
            let j = json::parse(&js).ctx("json", || js.clone())?;
            check!(j == want, "the configuration serializes to {}", js);
            let back: SearchOptions = serde_json::from_str(&js).map_err(|e| format!("the configuration does not load from its own JSON: {}", e)).ctx("json", || js.clone())?;
            check!(back == so, "the reloaded configuration differs: {:?}", back);
            // another writer's JSON: keys in any order, unset settings as null
            let mut s = String::from("{");
            let mut keys = ["bool", "expand", "fields"];
            r.shuffle(&mut keys);
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s += &format!(" \"{}\" : ", k);
                match *k {
                    "bool" => s += if so.bool == SearchBool::Or { "\"OR\"" } else { "\"AND\"" },
                    "expand" => s += &so.expand.to_string(),
                    _ => {
                        s.push('{');
                        let mut fs: Vec<_> = so.fields.iter().collect();
                        r.shuffle(&mut fs);
                        for (i, (f, x)) in fs.iter().enumerate() {
                            if i > 0 {
                                s.push(',');
                            }
                            s += &serde_json::to_string(f).unwrap();
                            s += ":{";
                            let mut parts = vec![];
                            let nul = |r: &mut Rng, k: &str| if r.chance(1, 2) { Some(format!("\"{}\":null", k)) } else { None };
                            parts.extend(match x.boost { Some(v) => Some(format!("\"boost\":{}", v)), None => nul(r, "boost") });
                            parts.extend(match x.bool { Some(v) => Some(format!("\"bool\":\"{}\"", if v == SearchBool::Or { "OR" } else { "AND" })), None => nul(r, "bool") });
                            parts.extend(match x.expand { Some(v) => Some(format!("\"expand\":{}", v)), None => nul(r, "expand") });
                            r.shuffle(&mut parts);
                            s += &parts.join(" , ");
                            s.push('}');
                        }
                        s.push('}');
                    }
                }
            }
            s.push('}');
            let back: SearchOptions = match r.below(3) {
                0 => serde_json::from_slice(s.as_bytes()).map_err(|e| e.to_string()),
                1 => serde_json::from_str::<serde_json::Value>(&s).and_then(serde_json::from_value).map_err(|e| e.to_string()),
                _ => serde_json::from_str(&s).map_err(|e| e.to_string()),
            }
            .map_err(|e| format!("an equivalent configuration is rejected: {}", e))
            .ctx("json", || s.clone())?;
            check!(back == so, "an equivalent configuration loads as {:?} from {}", back, s);
            // unknown boolean models
            let m = match r.below(4) {
                0 => r.pick(&["or", "and", "Or", "And", "XOR", "NOT", "", "OR ", " AND", "ANDOR", "O", "A", "AN", "ORR", "oR", "NAND", "0", "true", "S_OR"]).to_string(),
                1 => g.word(r, "en", o),
                2 => g.name(r, o),
                _ => {
                    let mut s = r.pick(&["OR", "AND"]).to_string();
                    let p = r.below(s.len() + 1);
                    s.insert(p, g.any_char(r, "en", o));
                    s
                }
            };
            if m != "OR" && m != "AND" {
                let q = serde_json::to_string(&m).unwrap();
                check!(serde_json::from_str::<SearchBool>(&q).is_err(), "the boolean model {} is accepted", q);
                let t = format!("{{\"bool\":{},\"expand\":false,\"fields\":{{}}}}", q);
                check!(serde_json::from_str::<SearchOptions>(&t).is_err(), "the configuration {} is accepted", t);
                let t = format!("{{\"bool\":\"OR\",\"expand\":false,\"fields\":{{\"f\":{{\"bool\":{}}}}}}}", q);
                check!(serde_json::from_str::<SearchOptions>(&t).is_err(), "the configuration {} is accepted", t);
                st.count("unknown_models_tried", 1);
            }
            st.count("round_trips", 1);
            st.eval(hash_str(&js), !so.fields.is_empty());
            Ok(())
        };
        let v = go(r, st);
        st.sample(|| format!("{:?}", so));
        v.ctx("options", || format!("{:?}", so))
    })
}

// ---------------------------------------------------------------- C28

/// Run in builds with sanitizers; what counts is what they report, and that strings are UTF-8.
#[cfg(feature = "safety")]
pub fn c28(cfg: &Cfg, g: &Gen) -> Outcome {
    let n = if cfg.thorough { 400_000 } else { 12_000 };
    let makes: Vec<crate::safety::Make> = spec::SPECS.iter().map(|s| s.make).collect();
    // the large dictionaries are loaded now and then only
    let light: Vec<crate::safety::Make> = spec::SPECS.iter().filter(|s| s.spaced).map(|s| s.make).collect();
    let en = vec![spec::spec("en").make];
    run(
        cfg,
        n,
        64 << 20,
        |_| (),
        |_, r, idx, st| {
            let k = (idx % crate::safety::KINDS as u64) as usize;
            let code = g.any_code(r);
            let size = [2usize, 6, 30][r.weighted(&[6, 3, 1])];
            let (big, max_word) = if r.chance(1, 25) { (true, 2100) } else { (false, 60) };
            let text = |r: &mut Rng| -> String {
                let o = Opt { bmp: false, big, max_word };
                let c = if r.chance(1, 2) { "en" } else { code };
                g.text(r, c, o)
            };
            let langs: &[crate::safety::Make] = if r.chance(1, 400) { &makes } else if r.chance(1, 2) { &light } else { &en };
            st.count(&format!("steps of kind {}", k), 1);
            let seed = r.next();
            let d = match crate::run::guarded(|| crate::safety::step(k, langs, &text, &mut Rng::new(seed), size)) {
                crate::run::Caught::Ok(d) => d,
                crate::run::Caught::Panic(..) => {
                    st.count("panics (not judged here)", 1);
                    return Ok(());
                }
            };
            let d = d.ctx("kind of work", || k.to_string())?;
            st.eval(crate::util::mix(d), true);
            st.sample(|| format!("kind {}, text such as {:?}", k, text(&mut Rng::new(seed))));
            Ok(())
        },
    )
}
