//! C30 loading JSON, C31 equivalent constructions, C32 panics in the user's code, C33 reusable stages.

use crate::check;
use crate::c_store::{history, same, InvModel, Op};
use crate::gen::{Gen, Opt};
use crate::json::{self, J};
use crate::run::{guarded, run, viol, Caught, Cfg, Ctx, Outcome, Stats, R};
use crate::scen::{self, Lang, SOpt, Scen, Tok};
use crate::spec;
use crate::util::{hash_str, Rng};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::lang::common::{RegexTrimmer, RustStemmer, StopWordFilter};
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const STACK: usize = 256 << 20;

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(200).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    format!("{:?}", t)
}

// ---------------------------------------------------------------- C30

/// JSON as it is written: with an order of members, and duplicates if need be.
#[derive(Clone, Debug)]
enum V {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}
fn num(n: impl ToString) -> V {
    V::Num(n.to_string())
}

/// One of the many ways to write the same JSON.
fn write(v: &V, r: &mut Rng, style: usize, out: &mut String) {
    let ws = |r: &mut Rng, out: &mut String| {
        if style & 1 != 0 {
            for _ in 0..r.below(3) {
                out.push(*r.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    };
    let string = |s: &str, r: &mut Rng, out: &mut String| {
        out.push('"');
        for c in s.chars() {
            let esc = style & 2 != 0 && r.chance(1, 3);
            match c {
                '"' | '\\' if !esc => {
                    out.push('\\');
                    out.push(c);
                }
                '/' if esc => out.push_str("\\/"),
                '\n' if !esc => out.push_str("\\n"),
                '\u{8}' if !esc => out.push_str("\\b"),
                '\u{c}' if !esc => out.push_str("\\f"),
                '\t' if !esc => out.push_str("\\t"),
                '\r' if !esc => out.push_str("\\r"),
                c if esc || (c as u32) < 32 => {
                    for u in c.encode_utf16(&mut [0; 2]) {
                        out.push_str(&if style & 4 != 0 { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) });
                    }
                }
                c => out.push(c),
            }
        }
        out.push('"');
    };
    ws(r, out);
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Num(n) => out.push_str(n),
        V::Str(s) => string(s, r, out),
        V::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(x, r, style, out);
            }
            ws(r, out);
            out.push(']');
        }
        V::Obj(m) => {
            out.push('{');
            let mut order: Vec<usize> = (0..m.len()).collect();
            if style & 8 != 0 {
                r.shuffle(&mut order);
            }
            for (i, k) in order.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(r, out);
                string(&m[k].0, r, out);
                ws(r, out);
                out.push(':');
                write(&m[k].1, r, style, out);
            }
            ws(r, out);
            out.push('}');
        }
    }
    ws(r, out);
}

/// Loads from a string, from bytes, from a reader, or from a value.
fn load<T: serde::de::DeserializeOwned>(js: &str, how: u64) -> Result<T, String> {
    match guarded(|| -> Result<T, String> {
        match how % 4 {
            0 => serde_json::from_str(js).map_err(|e| e.to_string()),
            1 => serde_json::from_slice(js.as_bytes()).map_err(|e| e.to_string()),
            2 => serde_json::from_reader(js.as_bytes()).map_err(|e| e.to_string()),
            _ => {
                let v: serde_json::Value = serde_json::from_str(js).map_err(|e| e.to_string())?;
                serde_json::from_value(v).map_err(|e| e.to_string())
            }
        }
    }) {
        Caught::Ok(x) => x,
        Caught::Panic(l, m) => Err(format!("PANIC at {}: {}", l, m)),
    }
}
fn no_panic<T>(r: &Result<T, String>, js: &str) -> R {
    if let Err(e) = r {
        if e.starts_with("PANIC") {
            return viol(format!("loading panicked: {}", e)).ctx("json", || js.chars().take(4000).collect());
        }
    }
    Ok(())
}

fn inv_tree(m: &BTreeMap<String, BTreeMap<String, f64>>, known: &BTreeSet<String>, prefix: &str, depth: usize, r: &mut Rng) -> V {
    let e = BTreeMap::new();
    let docs = if prefix.is_empty() { &e } else { m.get(prefix).unwrap_or(&e) };
    let mut o = vec![
        ("docs".to_string(), V::Obj(docs.iter().map(|(d, w)| (d.clone(), V::Obj(vec![("tf".to_string(), V::Num(write_f64(*w, r)))]))).collect())),
        ("df".to_string(), num(docs.len())),
    ];
    for k in known.range(prefix.to_string()..) {
        if !k.starts_with(prefix) {
            break;
        }
        if k.chars().count() == depth + 1 {
            let c: String = k.chars().last().unwrap().to_string();
            o.push((c, inv_tree(m, known, k, depth + 1, r)));
        }
    }
    V::Obj(o)
}
fn write_f64(w: f64, r: &mut Rng) -> String {
    if w.fract() == 0.0 && w.abs() < 1e15 && r.chance(1, 2) {
        return match r.below(4) {
            0 => format!("{:.2}", w),
            1 => format!("{}e0", w),
            2 if w != 0.0 => format!("{}0E-1", w),
            _ => format!("{}", w),
        };
    }
    format!("{:?}", w)
}

fn at<'a>(v: &'a mut V, path: &[usize]) -> &'a mut Vec<(String, V)> {
    match v {
        V::Obj(m) => match path.split_first() {
            None => m,
            Some((i, rest)) => at(&mut m[*i].1, rest),
        },
        _ => unreachable!(),
    }
}
fn wrong(r: &mut Rng, not: &str) -> V {
    let all = [("null", V::Null), ("bool", V::Bool(true)), ("int", num(3)), ("str", V::Str("3".into())), ("neg", num(-1)), ("frac", num("1.5")), ("empty", V::Str(String::new()))];
    let ok: Vec<&V> = all.iter().filter(|(k, _)| !not.split(' ').any(|n| n == *k)).map(|x| &x.1).collect();
    (*r.pick(&ok)).clone()
}

/// Makes the tree of an inverted index one that denotes none. Returns what was done.
fn break_inv(v: &mut V, r: &mut Rng) -> String {
    let V::Obj(top) = v else { unreachable!() };
    if r.chance(1, 8) {
        if r.chance(1, 2) {
            top.retain(|m| m.0 != "root");
            return "the member root is missing".into();
        }
        let w = wrong(r, "");
        let s = format!("root is {:?}", w);
        top.iter_mut().find(|m| m.0 == "root").unwrap().1 = w;
        return s;
    }
    // a random node
    let mut path = vec![top.iter().position(|m| m.0 == "root").unwrap()];
    loop {
        let n = at(v, &path);
        let kids: Vec<usize> = (0..n.len()).filter(|i| n[*i].0 != "docs" && n[*i].0 != "df").collect();
        if kids.is_empty() || r.chance(1, 3) {
            break;
        }
        path.push(*r.pick(&kids));
    }
    let n = at(v, &path);
    let d = n.iter().position(|m| m.0 == "docs").unwrap();
    let f = n.iter().position(|m| m.0 == "df").unwrap();
    match r.below(7) {
        0 => {
            n.remove(d);
            "a node lacks docs".into()
        }
        1 => {
            n.remove(f);
            "a node lacks df".into()
        }
        2 => {
            n[d].1 = wrong(r, "");
            format!("docs is {:?}", n[d].1)
        }
        3 => {
            n[f].1 = wrong(r, "int neg");
            format!("df is {:?}", n[f].1)
        }
        4 => {
            let k: String = r.pick(&["", "ab", "tf", "doc", "éé", "e\u{301}", "root"]).to_string();
            n.push((k.clone(), V::Obj(vec![("docs".into(), V::Obj(vec![])), ("df".into(), num(0))])));
            format!("a child has the key {:?}", k)
        }
        5 => {
            n.push(("\u{2603}".into(), wrong(r, "")));
            format!("a child is {:?}", n[n.len() - 1].1)
        }
        _ => {
            let w = match r.below(3) {
                0 => wrong(r, ""),
                1 => V::Obj(vec![]),
                _ => V::Obj(vec![("tf".into(), wrong(r, "int neg frac"))]),
            };
            let s = format!("a document of a node is {:?}", w);
            if let V::Obj(m) = &mut n[d].1 {
                m.push(("another".into(), w));
            }
            s
        }
    }
}

fn store_tree(ds: &Ds, extra: bool) -> V {
    let mut o = vec![
        ("save".to_string(), V::Bool(ds.save)),
        ("docs".to_string(), V::Obj(ds.docs.iter().map(|(d, m)| (d.clone(), V::Obj(m.iter().map(|(k, v)| (k.clone(), V::Str(v.clone()))).collect()))).collect())),
        ("docInfo".to_string(), V::Obj(ds.info.iter().map(|(d, m)| (d.clone(), V::Obj(m.iter().map(|(k, v)| (k.clone(), num(v))).collect()))).collect())),
        ("length".to_string(), num(ds.docs.len())),
    ];
    if extra {
        o.push(("comment".into(), V::Arr(vec![V::Null, V::Obj(vec![("save".into(), V::Null)]), num("-0.5e3")])));
        o.push(("doc_info".into(), num(7)));
    }
    V::Obj(o)
}
#[derive(Clone, Debug)]
pub struct Ds {
    pub save: bool,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub info: BTreeMap<String, BTreeMap<String, usize>>,
}
fn break_store(v: &mut V, r: &mut Rng) -> String {
    let V::Obj(m) = v else { unreachable!() };
    let k = *r.pick(&["save", "docs", "docInfo", "length"]);
    let i = m.iter().position(|x| x.0 == k).unwrap();
    if r.chance(1, 4) {
        m.remove(i);
        return format!("the member {} is missing", k);
    }
    let w = match (k, r.below(3)) {
        ("save", _) => wrong(r, "bool"),
        ("length", _) => wrong(r, "int"),
        ("docs" | "docInfo", 0) => wrong(r, ""),
        ("docs", 1) => V::Obj(vec![("x".into(), wrong(r, ""))]),
        ("docs", _) => V::Obj(vec![("x".into(), V::Obj(vec![("f".into(), wrong(r, "str empty"))]))]),
        (_, 1) => V::Obj(vec![("x".into(), wrong(r, ""))]),
        _ => V::Obj(vec![("x".into(), V::Obj(vec![("f".into(), wrong(r, "int"))]))]),
    };
    m[i].1 = w;
    format!("the member {} is {:?}", k, m[i].1)
}

/// The same value, numbers compared as numbers.
pub fn like(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(x), J::Num(y)) => x == y || x.parse::<f64>().ok() == y.parse::<f64>().ok(),
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| like(a, b)),
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && like(a.1, b.1)),
        _ => a == b,
    }
}

/// Damages a text: bytes changed, removed, repeated, pieces exchanged.
fn damage(js: &str, r: &mut Rng) -> String {
    let mut b: Vec<char> = js.chars().collect();
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(9) {
            0 => b.truncate(i),
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, *r.pick(&['{', '}', '[', ']', '"', ',', ':', '\\', '0', '-', 'e', '.', 'n', '\u{0}', 'é', '\u{feff}', ' '])),
            3 => b[i] = *r.pick(&['{', '}', '[', ']', '"', ',', ':', '\\', '9', '-', 'E', '.', 't', '\n', '😀']),
            4 => {
                let k = (i + 1 + r.below(12)).min(b.len());
                let p: Vec<char> = b[i..k].to_vec();
                for (n, c) in p.into_iter().enumerate() {
                    b.insert(k + n, c);
                }
            }
            5 => {
                let k = (i + 1 + r.below(12)).min(b.len());
                b.drain(i..k);
            }
            6 => {
                let t = *r.pick(&["null", "true", "1e999", "-0", "18446744073709551616", "\\ud800", "{}", "[]", "\"tf\":", "//", "NaN", "'", "1.5", "\"docs\":{},"]);
                for (n, c) in t.chars().enumerate() {
                    b.insert(i + n, c);
                }
            }
            7 => b.extend(js.chars().take(r.below(20))),
            _ => {
                let k = r.below(b.len());
                b.swap(i, k);
            }
        }
    }
    b.into_iter().collect()
}

pub fn c30(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 1_500_000 } else { 60_000 }, STACK, |_| (), |_, r, idx, st| {
        let style = r.below(16);
        let how = r.below(4) as u64;
        match idx % 8 {
            0..=2 => c30_inv(g, r, st, style, how),
            3..=5 => c30_store(g, r, st, style, how),
            6 if idx / 8 % 2 == 0 => c30_config(g, r, st, style, how),
            _ => c30_noise(g, r, st, style, idx),
        }
    })
}

pub fn some_inv(g: &Gen, r: &mut Rng) -> (InvModel, Vec<Op>) {
    let len = if r.chance(1, 30) { g.size(r, 500) } else { r.below(20) };
    let (mut ops, _, _) = history(g, r, len);
    // the reader of serde_json nests 128 levels by default
    ops.retain(|o| match o {
        Op::Add(_, t, _) | Op::Remove(_, t) => t.chars().count() <= 100 && !t.is_empty(),
    });
    let mut m = InvModel::default();
    for o in &ops {
        m.apply(o);
    }
    (m, ops)
}
fn inv_json(m: &InvModel, r: &mut Rng) -> V {
    let mut v = vec![("root".to_string(), inv_tree(&m.map, &m.known, "", 0, r))];
    if r.chance(1, 6) {
        v.push(("made".into(), V::Arr(vec![V::Str("by".into()), V::Null])));
        v.push(("Root".into(), V::Null));
    }
    V::Obj(v)
}

fn c30_inv(g: &Gen, r: &mut Rng, st: &mut Stats, style: usize, how: u64) -> R {
    let (m, ops) = some_inv(g, r);
    let mut v = inv_json(&m, r);
    let mut js = String::new();
    write(&v, r, style, &mut js);
    let x: Result<InvertedIndex, String> = load(&js, how);
    no_panic(&x, &js)?;
    let x = match x {
        Ok(x) => x,
        Err(e) => return viol(format!("the JSON of an inverted index is rejected: {}", e)).ctx("json", || js.clone()),
    };
    let go = || -> R {
        for t in &m.known {
            let e = BTreeMap::new();
            let want = m.map.get(t).unwrap_or(&e);
            let got = x.get_docs(t);
            check!(got.as_ref().map_or(false, |g| g.len() == want.len() && g.iter().zip(want).all(|(a, b)| a.0 == b.0 && same(*a.1, *b.1))), "the loaded index has the documents {:?} under {}, the JSON has {:?}", got, short(t), want);
            check!(x.get_doc_frequency(t) == want.len() as i64, "the loaded index has the frequency {} for {}", x.get_doc_frequency(t), short(t));
            let n = format!("{}\u{1}", t);
            check!(m.known.contains(&n) || !x.has_token(&n), "the loaded index knows a token that is not in the JSON");
        }
        // and the index made by the operations equals it
        let mut y = InvertedIndex::new();
        for o in &ops {
            match o {
                Op::Add(d, t, w) => y.add_token(d, t, *w),
                Op::Remove(d, t) => y.remove_token(d, t),
            }
        }
        check!(x == y, "the loaded index differs from the one made by the same operations");
        let (a, b) = (serde_json::to_string(&x).unwrap(), serde_json::to_string(&y).unwrap());
        check!(a == b, "the loaded index serializes to {}, the one made by the same operations to {}", short(&a), short(&b));
        Ok(())
    };
    go().ctx("json", || js.clone())?;
    st.eval(hash_str(&js), !m.known.is_empty());
    st.count("inverted_indexes_loaded", 1);
    st.sample(|| js.chars().take(600).collect());
    let what = break_inv(&mut v, r);
    let mut js = String::new();
    write(&v, r, style, &mut js);
    let x: Result<InvertedIndex, String> = load(&js, how + 1);
    no_panic(&x, &js)?;
    check_rejected(&x.map(|x| serde_json::to_string(&x).unwrap()), &what, &js)?;
    st.count("broken_inverted_indexes_rejected", 1);
    Ok(())
}
fn check_rejected(x: &Result<String, String>, what: &str, js: &str) -> R {
    match x {
        Ok(s) => viol(format!("JSON that denotes no such value ({}) was loaded, as {}", what, short(s))).ctx("json", || js.chars().take(6000).collect()),
        Err(_) => Ok(()),
    }
}

pub fn some_store(g: &Gen, r: &mut Rng) -> Ds {
    let o = Opt { max_word: 60, ..Opt::default() };
    let big = r.chance(1, 40);
    let n = if big { g.size(r, 400) } else { r.below(5) };
    let refs = g.names(r, n, o);
    let nf = r.range(1, 4);
    let fields = g.names(r, nf, o);
    let save = r.chance(3, 4);
    let mut ds = Ds { save, docs: BTreeMap::new(), info: BTreeMap::new() };
    for d in &refs {
        if r.chance(9, 10) {
            let k = if save { r.below(4) } else { 0 };
            ds.docs.insert(d.clone(), (0..k).map(|_| (r.pick(&fields).clone(), if big { g.word(r, "en", o) } else { g.text(r, "en", o) })).collect());
        }
        if r.chance(3, 4) {
            let k = r.below(3);
            ds.info.insert(d.clone(), (0..k).map(|_| (r.pick(&fields).clone(), *r.pick(&[0usize, 1, 7, 255, 256, 65535, 65536, 1 << 32, (1 << 53) + 1, usize::MAX]))).collect());
        }
    }
    ds
}

fn c30_store(g: &Gen, r: &mut Rng, st: &mut Stats, style: usize, how: u64) -> R {
    let ds = some_store(g, r);
    let extra = r.chance(1, 6);
    let mut v = store_tree(&ds, extra);
    let mut js = String::new();
    write(&v, r, style, &mut js);
    let x: Result<DocumentStore, String> = load(&js, how);
    no_panic(&x, &js)?;
    let x = match x {
        Ok(x) => x,
        Err(e) => return viol(format!("the JSON of a document store is rejected: {}", e)).ctx("json", || js.clone()),
    };
    let go = || -> R {
        check!(x.is_stored() == ds.save && x.len() == ds.docs.len() && x.is_empty() == ds.docs.is_empty(), "the loaded store is saving={} with {} document(s)", x.is_stored(), x.len());
        check!(x.docs == ds.docs, "the loaded store has the documents {:?}", x.docs);
        check!(x.doc_info == ds.info, "the loaded store has the lengths {:?}", x.doc_info);
        for (d, m) in &ds.docs {
            check!(x.has_doc(d) && x.get_doc(d).as_ref() == Some(m), "the loaded store has {:?} for document {}", x.get_doc(d), short(d));
            for (f, n) in ds.info.get(d).into_iter().flatten() {
                check!(x.get_field_length(d, f) == *n, "the loaded store has the length {} for {} of {}", x.get_field_length(d, f), short(f), short(d));
            }
        }
        let a = json::parse(&serde_json::to_string(&x).unwrap()).ctx("at", || "serialize".into())?;
        check!(a.get("length").and_then(|n| n.int()).ok() == Some(ds.docs.len() as i64), "the loaded store publishes another count");
        Ok(())
    };
    go().ctx("json", || js.clone())?;
    st.eval(hash_str(&js), !ds.docs.is_empty());
    st.count("document_stores_loaded", 1);
    let what = break_store(&mut v, r);
    let mut js = String::new();
    write(&v, r, style, &mut js);
    let x: Result<DocumentStore, String> = load(&js, how + 1);
    no_panic(&x, &js)?;
    check_rejected(&x.map(|x| serde_json::to_string(&x).unwrap()), &what, &js)?;
    st.count("broken_document_stores_rejected", 1);
    Ok(())
}

/// Members nobody asked for.
fn strange(g: &Gen, r: &mut Rng, deep: usize) -> V {
    match r.below(if deep == 0 { 4 } else { 6 }) {
        0 => V::Null,
        1 => V::Bool(r.chance(1, 2)),
        2 => num(r.pick(&["0", "-1", "1e300", "0.5", "18446744073709551616"])),
        3 => V::Str(g.name(r, Opt { max_word: 20, ..Opt::default() })),
        4 => V::Arr((0..r.below(3)).map(|_| strange(g, r, deep - 1)).collect()),
        _ => V::Obj((0..r.below(3)).map(|i| (format!("k{}", i), strange(g, r, deep - 1))).collect()),
    }
}

fn c30_config(g: &Gen, r: &mut Rng, st: &mut Stats, style: usize, how: u64) -> R {
    let b = |r: &mut Rng| if r.chance(1, 2) { SearchBool::Or } else { SearchBool::And };
    let bv = |x: SearchBool| V::Str(if x == SearchBool::Or { "OR" } else { "AND" }.into());
    let n = if r.chance(1, 30) { g.size(r, 300) } else { r.below(5) };
    let names = g.names(r, n, Opt { max_word: 40, ..Opt::default() });
    let extra = r.chance(1, 4);
    let mut want = SearchOptions { bool: b(r), expand: r.chance(1, 2), fields: BTreeMap::new() };
    let mut fields = vec![];
    for f in names {
        let x = SearchOptionsField {
            boost: Some(r.below(256) as u8).filter(|_| r.chance(1, 2)),
            bool: Some(b(r)).filter(|_| r.chance(1, 2)),
            expand: Some(r.chance(1, 2)).filter(|_| r.chance(1, 2)),
        };
        let mut m: Vec<(String, V)> = vec![];
        let mut put = |k: &str, v: Option<V>, r: &mut Rng| match v {
            Some(v) => m.push((k.into(), v)),
            None if r.chance(1, 3) => m.push((k.into(), V::Null)),
            None => (),
        };
        put("boost", x.boost.map(num), r);
        put("bool", x.bool.map(bv), r);
        put("expand", x.expand.map(V::Bool), r);
        if extra && r.chance(1, 2) {
            m.push((r.pick(&["Boost", "comment", "bools", "", "fields"]).to_string(), strange(g, r, 3)));
        }
        fields.push((f.clone(), V::Obj(m)));
        want.fields.insert(f, x);
    }
    let mut o = vec![("bool".to_string(), bv(want.bool)), ("expand".to_string(), V::Bool(want.expand)), ("fields".to_string(), V::Obj(fields))];
    if extra {
        for k in ["comment", "Bool", "boost", "\u{0}"] {
            if r.chance(1, 2) {
                o.push((k.to_string(), strange(g, r, 3)));
            }
        }
    }
    let v = V::Obj(o);
    let mut js = String::new();
    write(&v, r, style, &mut js);
    let x: Result<SearchOptions, String> = load(&js, how);
    no_panic(&x, &js)?;
    match x {
        Ok(x) => check!(x == want, "the loaded configuration is {:?}, the JSON says {}", x, js),
        Err(e) => return viol(format!("the JSON of a search configuration is rejected: {}", e)).ctx("json", || js.clone()),
    }
    if let V::Obj(o) = &v {
        if let V::Obj(f) = &o[2].1 {
            for (name, v) in f.iter().take(3) {
                let mut js = String::new();
                write(v, r, style, &mut js);
                let x: Result<SearchOptionsField, String> = load(&js, how + 1);
                no_panic(&x, &js)?;
                check!(x.as_ref() == Ok(&want.fields[name]), "the loaded settings of a field are {:?}, the JSON says {}", x, js);
            }
        }
    }
    st.eval(hash_str(&js), true);
    st.count("configurations_loaded", 1);
    Ok(())
}

/// Damaged JSON: rejected, or read as what it still denotes.
fn c30_noise(g: &Gen, r: &mut Rng, st: &mut Stats, style: usize, idx: u64) -> R {
    let kind = idx / 8 % 3;
    let v = match kind {
        0 => inv_json(&some_inv(g, r).0, r),
        1 => store_tree(&some_store(g, r), false),
        _ => {
            let f = |r: &mut Rng| {
                let mut o = vec![];
                if r.chance(1, 2) {
                    o.push(("boost".to_string(), num(r.below(256))));
                }
                if r.chance(1, 2) {
                    o.push(("bool".to_string(), V::Str(r.pick(&["OR", "AND"]).to_string())));
                }
                if r.chance(1, 2) {
                    o.push(("expand".to_string(), V::Bool(r.chance(1, 2))));
                }
                V::Obj(o)
            };
            let n = r.below(4);
            let names = g.names(r, n, Opt { max_word: 40, ..Opt::default() });
            V::Obj(vec![
                ("bool".into(), V::Str(r.pick(&["OR", "AND"]).to_string())),
                ("expand".into(), V::Bool(r.chance(1, 2))),
                ("fields".into(), V::Obj(names.into_iter().map(|n| (n, f(r))).collect())),
            ])
        }
    };
    let mut js = String::new();
    write(&v, r, style, &mut js);
    if js.len() > 20_000 {
        return Ok(());
    }
    for _ in 0..6 {
        let bad = damage(&js, r);
        let how = r.below(4) as u64;
        let back: Result<String, String> = match kind {
            0 => load::<InvertedIndex>(&bad, how).map(|x| serde_json::to_string(&x).unwrap()),
            1 => load::<DocumentStore>(&bad, how).map(|x| serde_json::to_string(&x).unwrap()),
            _ => load::<SearchOptions>(&bad, how).map(|x| serde_json::to_string(&x).unwrap()),
        };
        no_panic(&back, &bad)?;
        st.eval(hash_str(&bad), true);
        st.count(if back.is_ok() { "damaged_texts_still_loaded" } else { "damaged_texts_rejected" }, 1);
        let Ok(back) = back else { continue };
        // escapes of what is skipped are not looked at, and arrays may stand for records
        if bad.contains("\\u") || bad.contains('[') {
            continue;
        }
        let a = match json::parse(&bad) {
            Ok(a) => a,
            Err(e) if e.contains("uplicate") => continue,
            Err(e) => return viol(format!("a text that is no JSON ({}) was loaded, as {}", e, short(&back))).ctx("json", || bad.clone()),
        };
        let b = json::parse(&back).ctx("loaded", || back.clone())?;
        check!(like(&known_part(&a, kind, 0), &known_part(&b, kind, 0)), "the loaded value is {}, the JSON says {}", short(&back), short(&bad));
        st.count("damaged_texts_compared", 1);
    }
    Ok(())
}
/// The members that mean something.
fn known_part(j: &J, kind: u64, level: usize) -> J {
    let J::Obj(m) = j else { return j.clone() };
    let keep = |names: &[&str]| -> BTreeMap<String, J> { m.iter().filter(|(k, _)| names.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect() };
    match (kind, level) {
        (0, 0) => J::Obj(keep(&["root"]).into_iter().map(|(k, v)| (k, known_part(&v, 0, 1))).collect()),
        (0, 1) => J::Obj(m.iter().map(|(k, v)| (k.clone(), if k == "df" { v.clone() } else if k == "docs" { known_part(v, 0, 2) } else { known_part(v, 0, 1) })).collect()),
        (0, 2) => J::Obj(m.iter().map(|(k, v)| (k.clone(), known_part(v, 0, 3))).collect()),
        (0, _) => J::Obj(keep(&["tf"])),
        (1, _) => J::Obj(keep(&["save", "docs", "docInfo", "length"])),
        (_, 0) => J::Obj(keep(&["bool", "expand", "fields"]).into_iter().map(|(k, v)| (k.clone(), if k == "fields" { known_part(&v, 2, 1) } else { v })).collect()),
        (_, 1) => J::Obj(m.iter().map(|(k, v)| (k.clone(), known_part(v, 2, 2))).collect()),
        _ => J::Obj(keep(&["boost", "bool", "expand"]).into_iter().filter(|x| x.1 != J::Null).collect()),
    }
}

// ---------------------------------------------------------------- C31

macro_rules! defaults {
    ($($t:ident),*) => {
        vec![$((stringify!($t), Box::new(elasticlunr::lang::$t::default()) as Box<dyn Language>, Box::new(elasticlunr::lang::$t::new()) as Box<dyn Language>)),*]
    };
}
macro_rules! clones {
    ($($t:ident),*) => {{
        let mut v: Vec<(&'static str, Box<dyn Language>, Box<dyn Language>)> = vec![];
        $({
            let a = elasticlunr::lang::$t::new();
            let b = a.clone();
            v.push((concat!("clone of ", stringify!($t)), Box::new(b), Box::new(a)));
        })*
        v
    }};
}

fn pairs() -> Vec<(&'static str, Box<dyn Language>, Box<dyn Language>)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, Box<dyn Language>, Box<dyn Language>)> = defaults!(English, Arabic, Danish, Dutch, Finnish, French, German, Hungarian, Italian, Korean, Norwegian, Portuguese, Romanian, Russian, Spanish, Swedish, Turkish);
    v.extend(clones!(English, Danish, Dutch, Finnish, French, German, Hungarian, Italian, Korean, Norwegian, Portuguese, Romanian, Russian, Spanish, Swedish, Turkish));
    #[cfg(feature = "cjk")]
    {
        v.extend(defaults!(Chinese, Japanese));
        v.extend(clones!(Chinese, Japanese));
    }
    for s in spec::SPECS {
        if let Some(l) = elasticlunr::lang::from_code(s.code) {
            v.push(("from_code", l, (s.make)()));
        }
        if let Some(l) = elasticlunr::lang::from_name(s.name) {
            v.push(("from_name", l, (s.make)()));
        }
    }
    for l in elasticlunr::lang::languages() {
        if let Some(s) = spec::SPECS.iter().find(|s| s.name == l.name()) {
            v.push(("languages()", l, (s.make)()));
        }
    }
    v
}

/// An iterator that knows nothing, something or everything about its length.
struct Odd<I> {
    i: I,
    hint: (usize, Option<usize>),
    pulls: Rc<Cell<usize>>,
    ended: bool,
    after_end: Rc<Cell<usize>>,
}
impl<I: Iterator> Iterator for Odd<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.ended {
            self.after_end.set(self.after_end.get() + 1);
            return None;
        }
        let x = self.i.next();
        match x {
            Some(_) => self.pulls.set(self.pulls.get() + 1),
            None => self.ended = true,
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn builder(s: &Scen, r: &mut Rng) -> (Index, String) {
    // every setter once or more, in any order, the last one counts
    let mut b = if matches!(s.lang, Lang::Built("en")) && r.chance(1, 2) {
        if r.chance(1, 2) { IndexBuilder::new() } else { IndexBuilder::default() }
    } else {
        IndexBuilder::with_language(s.lang.make())
    };
    let mut how = String::new();
    let mut calls: Vec<usize> = vec![0, 0, 1, 1, 2];
    r.shuffle(&mut calls);
    let (mut n_save, mut n_ref) = (0, 0);
    let mut rest: &[String] = &s.fields;
    let mut done = 0;
    for c in calls.iter().chain([2].iter()) {
        match c {
            0 => {
                n_save += 1;
                let last = n_save == 2;
                match (last, s.save) {
                    (false, Some(_)) => b = b.save_docs(r.chance(1, 2)),
                    (true, Some(x)) => b = b.save_docs(x),
                    (true, None) if r.chance(1, 3) => b = b.save_docs(true),
                    _ => continue,
                }
                how.push_str("save_docs ");
            }
            1 => {
                n_ref += 1;
                let last = n_ref == 2;
                match (last, &s.ref_field) {
                    (false, Some(_)) => b = b.set_ref("other"),
                    (true, Some(x)) => b = b.set_ref(x),
                    (true, None) if r.chance(1, 3) => b = b.set_ref("id"),
                    _ => continue,
                }
                how.push_str("set_ref ");
            }
            _ => {
                let last = done == 1;
                done += 1;
                let k = if last { rest.len() } else { r.below(rest.len() + 1) };
                let (now, later) = rest.split_at(k);
                let off = s.fields.len() - rest.len();
                if s.toks[off..off + k].iter().all(|t| t.is_none()) && r.chance(2, 3) {
                    b = match r.below(4) {
                        0 => b.add_fields(now),
                        1 => b.add_fields(now.to_vec()),
                        2 => b.add_fields(now.iter().map(|f| Cow::Borrowed(f.as_str()))),
                        _ => b.add_fields(now.iter().map(|f| f.as_str()).collect::<std::collections::VecDeque<_>>()),
                    };
                    how.push_str(&format!("add_fields({}) ", k));
                } else {
                    for (i, f) in now.iter().enumerate() {
                        b = match s.toks[off + i] {
                            None if r.chance(1, 2) => b.add_field(f),
                            None => b.add_fields(std::iter::once(f)),
                            Some(t) => b.add_field_with_tokenizer(f, scen::tokenizer_fn(t)),
                        };
                    }
                    how.push_str(&format!("add_field x{} ", k));
                }
                rest = later;
            }
        }
    }
    (b.build(), how)
}

fn add(ix: &mut Index, d: &str, v: &[String], r: &mut Rng) -> Result<usize, String> {
    let w = r.below(10);
    match w {
        0 => ix.add_doc(d, v),
        1 => ix.add_doc(d, v.to_vec()),
        2 => ix.add_doc(d, v.iter().map(|x| x.as_str())),
        3 => ix.add_doc(d, v.iter().map(|x| Cow::Borrowed(x.as_str())).collect::<Vec<_>>()),
        4 => ix.add_doc(d, v.iter().cloned().collect::<std::collections::VecDeque<String>>()),
        5 => ix.add_doc(d, v.iter().map(|x| x.clone().into_boxed_str()).collect::<std::collections::LinkedList<_>>()),
        6 => ix.add_doc(d, &v.iter().map(|x| Rc::<str>::from(x.as_str())).collect::<Vec<_>>()),
        7 => {
            let mut it = v.iter();
            ix.add_doc(d, std::iter::from_fn(|| it.next().cloned()));
        }
        _ => {
            let (p, e) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
            let hint = *r.pick(&[(0, None), (0, Some(v.len())), (v.len(), Some(v.len())), (v.len() / 2, None), (0, Some(v.len() + 9)), (0, Some(usize::MAX))]);
            ix.add_doc(d, Odd { i: v.iter(), hint, pulls: p.clone(), ended: false, after_end: e });
            if p.get() != v.len() {
                return Err(format!("an iterator of {} value(s) was asked for {}", v.len(), p.get()));
            }
        }
    }
    Ok(w)
}

pub fn c31(cfg: &Cfg, g: &Gen) -> Outcome {
    let cjk_rare = 40;
    run(cfg, if cfg.thorough { 300_000 } else { 12_000 }, STACK, |_| pairs(), |pairs, r, idx, st| {
        match idx % 4 {
            0 | 1 => {
                // one index, made in two ways
                let o = SOpt { repeats: true, max_docs: 40, text: Opt { max_word: 60, big: false, ..Opt::default() }, ..SOpt::default() };
                let mut s = scen::gen(g, r, &o);
                if r.chance(1, 4) && s.fields.len() < 12 {
                    // several fields with tokenizers
                    for t in s.toks.iter_mut() {
                        *t = Some(*r.pick(scen::TOKS)).filter(|_| r.chance(2, 3));
                    }
                }
                let a = s.build().to_json();
                let (mut ix, how) = builder(&s, r);
                if s.ref_field.is_none() && s.save.is_none() && s.toks.iter().all(|t| t.is_none()) && r.chance(1, 2) {
                    ix = match (&s.lang, r.below(2)) {
                        (Lang::Built("en"), 0) => Index::new(&s.fields),
                        (Lang::Built("en"), _) => Index::new(s.fields.clone()),
                        (l, 0) => Index::with_language(l.make(), &s.fields),
                        (l, _) => Index::with_language(l.make(), s.fields.iter().map(|f| f.as_str())),
                    };
                    st.count("made_by_index_new_or_with_language", 1);
                }
                for (d, v) in &s.docs {
                    let w = add(&mut ix, d, v, r).ctx("scenario", || s.describe())?;
                    st.count(["by slice", "by vector", "by str", "by Cow", "by VecDeque", "by boxes", "by Rc", "by closure", "by odd iterator", "by odd iterator"][w], 1);
                }
                let b = ix.to_json();
                let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
                check!(a == b, "an index made by {} and given its documents in other containers differs from byte {}: {} / {}, scenario {}", how, n, short(&String::from_utf8_lossy(&a.as_bytes()[n.saturating_sub(40)..])), short(&String::from_utf8_lossy(&b.as_bytes()[n.saturating_sub(40).min(b.len())..])), s.describe());
                st.eval(hash_str(&a), !s.docs.is_empty());
                st.count("indexes_made_in_two_ways", 1);
                st.sample(|| format!("{} {}", how, s.describe().chars().take(500).collect::<String>()));
            }
            2 => {
                // two language objects of one kind
                let n = pairs.len();
                let mut k = (idx / 4) as usize % n;
                if matches!(pairs[k].2.code().as_str(), "ja" | "zh") && r.below(cjk_rare) > 4 && idx > 4 * n as u64 {
                    k = r.below(n);
                }
                let (what, a, b) = &pairs[k];
                let code = b.code();
                check!(a.name() == b.name() && a.code() == code, "{}: {} ({}), expected {} ({})", what, a.name(), a.code(), b.name(), code);
                let (p, q) = (a.make_pipeline(), b.make_pipeline());
                let names = |p: &Pipeline| p.queue.iter().map(|f| f.name()).collect::<Vec<_>>();
                check!(names(&p) == names(&q), "{} {}: the pipeline has {:?}, new() has {:?}", what, code, names(&p), names(&q));
                let cs: &'static str = spec::spec(&code).code;
                for _ in 0..6 {
                    let t = g.text(r, cs, Opt { max_word: 60, ..Opt::default() });
                    let (x, y) = (a.tokenize(&t), b.tokenize(&t));
                    check!(x == y, "{} {}: the words of {} are {:?}, of new() {:?}", what, code, short(&t), x.iter().take(30).collect::<Vec<_>>(), y.iter().take(30).collect::<Vec<_>>());
                    let (x, y) = (p.run(x), q.run(y));
                    check!(x == y, "{} {}: the terms of {} are {:?}, of new() {:?}", what, code, short(&t), x.iter().take(30).collect::<Vec<_>>(), y.iter().take(30).collect::<Vec<_>>());
                    st.eval(hash_str(&t) ^ k as u64, !x.is_empty());
                }
                st.count(&format!("language objects compared: {}", if what.len() > 12 || what.starts_with(char::is_uppercase) && !what.starts_with("from") { if what.starts_with("clone") { "clones" } else { "default()" } } else { what }), 1);
            }
            _ => c31_values(g, r, st)?,
        }
        Ok(())
    })
}

/// Clones and equality of stores and inverted indexes.
fn c31_values(g: &Gen, r: &mut Rng, st: &mut Stats) -> R {
    // document store
    let ds = some_store(g, r);
    let mut a = if r.chance(1, 2) || !ds.save { DocumentStore::new(ds.save) } else { DocumentStore::new(true) };
    for (d, m) in &ds.docs {
        a.add_doc(d, m.clone());
    }
    for (d, m) in &ds.info {
        for (f, n) in m {
            a.add_field_length(d, f, *n);
        }
    }
    // the members are public, and need not fit together
    if r.chance(1, 4) {
        a.length += r.below(1000);
        a.save = r.chance(1, 2);
        if let Some(m) = a.docs.values_mut().next() {
            m.insert("put".into(), "in".into());
        }
    }
    let ser = |x: &DocumentStore| serde_json::to_string(x).unwrap();
    let before = ser(&a);
    let mut b = a.clone();
    check!(ser(&b) == before, "a clone of a document store differs from it: {} / {}", short(&before), short(&ser(&b)));
    check!(b.len() == a.len() && b.is_empty() == a.is_empty() && b.is_stored() == a.is_stored(), "a clone of a document store answers differently");
    let some: Vec<String> = ds.docs.keys().take(2).cloned().collect();
    let mut c = a.clone();
    for x in [&mut b, &mut c] {
        for d in &some {
            x.remove_doc(d);
        }
        x.add_doc("new", [("id".to_string(), "new".to_string())].into());
        x.add_field_length("new", "id", 3);
        for d in ds.docs.keys().take(5) {
            x.add_field_length(d, "n", 9);
        }
    }
    check!(ser(&a) == before, "changing a clone of a document store changed the original: {} / {}", short(&before), short(&ser(&a)));
    check!(ser(&b) == ser(&c), "two clones of a document store, changed alike, differ");
    for d in &some {
        a.remove_doc(d);
    }
    a.add_doc("new", [("id".to_string(), "new".to_string())].into());
    a.add_field_length("new", "id", 3);
    for d in ds.docs.keys().take(5) {
        a.add_field_length(d, "n", 9);
    }
    check!(ser(&a) == ser(&b), "a document store and its clone, changed alike, differ: {} / {}", short(&ser(&a)), short(&ser(&b)));
    check!(!format!("{:?}", a).is_empty(), "no debug text");
    st.count("document_stores_cloned", 1);

    // inverted indexes: equal exactly when the contents are
    let (m, ops) = some_inv(g, r);
    let play = |ops: &[Op], x: &mut InvertedIndex| {
        for o in ops {
            match o {
                Op::Add(d, t, w) => x.add_token(d, t, *w),
                Op::Remove(d, t) => x.remove_token(d, t),
            }
        }
    };
    let mut x = InvertedIndex::default();
    play(&ops, &mut x);
    // the same contents, reached by another way: all tokens made known, then the postings, in another order
    let mut y = InvertedIndex::new();
    let mut known: Vec<&String> = m.known.iter().collect();
    r.shuffle(&mut known);
    for t in known {
        y.add_token("passing", t, 5.0);
        y.remove_token("passing", t);
    }
    let mut all: Vec<(&String, &String, f64)> = m.map.iter().flat_map(|(t, ds)| ds.iter().map(move |(d, w)| (t, d, *w))).collect();
    r.shuffle(&mut all);
    for (t, d, w) in &all {
        y.add_token(d, t, *w);
    }
    check!(x == y && y == x, "two inverted indexes with the same contents are unequal, history {:?}", ops);
    check!(serde_json::to_string(&x).unwrap() == serde_json::to_string(&y).unwrap(), "two inverted indexes with the same contents serialize differently, history {:?}", ops);
    // any one difference makes them unequal
    if let Some((t, d, w)) = all.first() {
        // the next double, a little more, another one
        let next = f64::from_bits(w.to_bits() ^ 1);
        let other = *r.pick(&[next, w * (1.0 + 1e-9), w * (1.0 + 1e-5), w + 1e-9, -w, f64::INFINITY, 77.5]);
        let other = if other == *w || other.is_nan() { if *w == 77.5 { 78.0 } else { 77.5 } } else { other };
        match r.below(6) {
            0 => y.remove_token(d, t),
            1..=3 => y.add_token(d, t, other),
            4 => y.add_token("another document", t, *w),
            _ => y.add_token("another document", &format!("{}\u{1}", t), *w),
        }
        check!(x != y && y != x, "two inverted indexes with different contents are equal, history {:?}", ops);
        st.count("unequal_inverted_indexes", 1);
    }
    st.count("equal_inverted_indexes", 1);
    st.eval(hash_str(&before) ^ hash_str(&format!("{:?}", ops)), true);
    // a function wrapped twice
    let f = FnWrapper(g.name(r, Opt::default()), |t: String| if t.len() > 3 { Some(t + "x") } else { None });
    let h = f.clone();
    let t = g.word(r, "en", Opt::default());
    check!(f.name() == h.name() && f.name() == f.0 && f.filter(t.clone()) == h.filter(t.clone()) && f.filter(t.clone()) == (f.1)(t.clone()), "a wrapped function or its clone behaves differently from the function");
    Ok(())
}

// ---------------------------------------------------------------- C32

thread_local! {
    /// Calls of user code until one panics.
    static FUSE: Cell<i64> = const { Cell::new(i64::MAX) };
    static CALLS: Cell<i64> = const { Cell::new(0) };
}
fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
    FUSE.with(|f| {
        let n = f.get();
        if n == 0 {
            panic!("injected");
        }
        if n != i64::MAX {
            f.set(n - 1);
        }
    });
}
struct Fragile(Box<dyn Language>);
struct FragileFn(Box<dyn PipelineFn>);
impl PipelineFn for FragileFn {
    fn name(&self) -> String {
        self.0.name()
    }
    fn filter(&self, t: String) -> Option<String> {
        tick();
        let x = self.0.filter(t);
        tick();
        x
    }
}
impl Language for Fragile {
    fn name(&self) -> String {
        self.0.name()
    }
    fn code(&self) -> String {
        self.0.code()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        tick();
        self.0.tokenize(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline { queue: self.0.make_pipeline().queue.into_iter().map(|f| Box::new(FragileFn(f)) as Box<dyn PipelineFn>).collect() }
    }
}
struct FragileStr<'a>(&'a str);
impl AsRef<str> for FragileStr<'_> {
    fn as_ref(&self) -> &str {
        tick();
        self.0
    }
}
fn fragile_build(s: &Scen) -> Index {
    let mut b = IndexBuilder::with_language(Box::new(Fragile(s.lang.make()))).save_docs(s.saved()).set_ref(&s.rf());
    for (f, t) in s.fields.iter().zip(&s.toks) {
        b = match t {
            None => b.add_field(f),
            Some(k) => {
                let k: Tok = *k;
                b.add_field_with_tokenizer(f, Box::new(move |x: &str| {
                    tick();
                    scen::tokenize(k, x)
                }))
            }
        };
    }
    b.build()
}
fn fragile_add(ix: &mut Index, d: &str, v: &[String], too_many: usize) -> bool {
    let extra: Vec<String> = vec!["one too many".into(); too_many];
    let r = guarded(|| {
        ix.add_doc(d, v.iter().chain(&extra).map(|x| {
            tick();
            FragileStr(x)
        }))
    });
    FUSE.with(|f| f.set(i64::MAX));
    matches!(r, Caught::Ok(()))
}

pub fn c32(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 250_000 } else { 12_000 }, STACK, |_| (), |_, r, _idx, st| {
        FUSE.with(|f| f.set(i64::MAX));
        let o = SOpt { max_docs: 12, text: Opt { max_word: 60, big: false, ..Opt::default() }, ..SOpt::default() };
        let mut s = scen::gen(g, r, &o);
        if s.fields.len() > 20 || s.lang.code() == "ja" {
            s.lang = Lang::Built("en");
        }
        while s.docs.len() < 2 {
            let d = format!("doc{}", s.docs.len());
            let v = s.fields.iter().map(|_| g.text(r, s.lang.code(), o.text)).collect();
            s.docs.push((d, v));
        }
        // what is added, what fails in between, and what must come out
        let mut plan: Vec<(String, Vec<String>, bool)> = vec![];
        for (d, v) in &s.docs {
            let mut v = v.clone();
            for x in v.iter_mut() {
                if x.len() > 3000 {
                    *x = x.chars().take(900).collect();
                }
            }
            plan.push((d.clone(), v, r.chance(1, 2)));
            if r.chance(1, 6) {
                let (d, _, _) = r.pick(&plan).clone();
                let v = s.fields.iter().map(|_| g.text_n(r, s.lang.code(), 4, Opt { big: false, ..o.text })).collect();
                plan.push((d, v, r.chance(1, 2)));
            }
        }
        let mut ix = fragile_build(&s);
        let mut fine = fragile_build(&s);
        let mut go = |st: &mut Stats, r: &mut Rng| -> R {
            for (d, v, fails) in &plan {
                CALLS.with(|c| c.set(0));
                if !fragile_add(&mut fine, d, v, 0) {
                    return viol(format!("adding document {} panicked without a fault", short(d)));
                }
                let calls = CALLS.with(|c| c.get());
                if *fails {
                    let n = if r.chance(1, 12) { r.range(2, 5) } else { 1 };
                    for _ in 0..n {
                        let before = scen::read(&ix.to_json()).ctx("at", || "before the fault".into())?;
                        let too_many = if calls == 0 || r.chance(1, 8) { 1 } else { 0 };
                        let at = if too_many > 0 { i64::MAX } else { r.below(calls as usize) as i64 };
                        FUSE.with(|f| f.set(at));
                        let full = if too_many > 0 && v.len() < s.fields.len() { v.iter().cloned().chain((v.len()..s.fields.len()).map(|_| String::new())).collect() } else { v.clone() };
                        // a document with more values than fields: what it wrote is overwritten below only if they agree
                        if too_many > 0 && full.len() != v.len() {
                            continue;
                        }
                        let ok = fragile_add(&mut ix, d, &full, too_many);
                        check!(!ok, "adding document {} succeeded although its code panicked", short(d));
                        st.count(if too_many > 0 { "faults: too many values" } else { "faults: injected panics" }, 1);
                        // the index can be read, and the other documents are as they were
                        let js = match guarded(|| (ix.to_json(), ix.to_json_pretty())) {
                            Caught::Ok(x) => x,
                            Caught::Panic(l, m) => return viol(format!("after a panic in the user's code the index cannot be serialized: {} at {}", m, l)),
                        };
                        let after = scen::read(&js.0).ctx("after a panic in the user's code", || short(&js.0))?;
                        let pretty = json::parse(&js.1).ctx("after a panic in the user's code", || short(&js.1))?;
                        check!(pretty == after.j, "after a panic in the user's code the two serializations denote different values");
                        check!(after.fields == before.fields && after.save == before.save && ix.get_fields() == &s.fields[..], "a panic in the user's code changed the settings");
                        for k in ["pipeline", "ref", "lang", "version"] {
                            check!(after.j.get(k).ok() == before.j.get(k).ok(), "a panic in the user's code changed {:?}", k);
                        }
                        check!(after.length == after.docs.len() as i64, "after a panic in the user's code the count is {} with {} document(s) held", after.length, after.docs.len());
                        for (x, m) in &before.docs {
                            check!(x == d || after.docs.get(x) == Some(m), "a panic while adding {} changed the stored document {}", short(d), short(x));
                        }
                        check!(after.docs.keys().all(|x| x == d || before.docs.contains_key(x)), "a panic while adding {} added another document", short(d));
                        for (x, m) in &before.info {
                            check!(x == d || after.info.get(x) == Some(m), "a panic while adding {} changed the lengths of {}", short(d), short(x));
                        }
                        for (f, p) in &before.post {
                            let q = after.post.get(f);
                            for (t, (ds, _)) in p {
                                for (x, w) in ds {
                                    check!(x == d || q.and_then(|q| q.get(t)).and_then(|e| e.0.get(x)) == Some(w), "a panic while adding {} changed the entry of {} under term {} of field {}", short(d), short(x), short(t), short(f));
                                    st.count("entries_unharmed", 1);
                                }
                            }
                        }
                        for (f, q) in &after.post {
                            for (t, (ds, df)) in q {
                                check!(*df == ds.len() as i64, "after a panic while adding {} the frequency of term {} in field {} is {} with {} document(s) listed", short(d), short(t), short(f), df, ds.len());
                                for x in ds.keys() {
                                    check!(x == d || before.post.get(f).and_then(|p| p.get(t)).map_or(false, |e| e.0.contains_key(x)), "a panic while adding {} listed {} under term {}", short(d), short(x), short(t));
                                }
                            }
                        }
                    }
                }
                // and the document can be added after all
                if !fragile_add(&mut ix, d, v, 0) {
                    return viol(format!("after a panic in the user's code, adding document {} again panics", short(d)));
                }
                let (a, b) = (ix.to_json(), fine.to_json());
                let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
                check!(a == b, "after {} was added again, the index differs from one in which nothing failed, from byte {}: {} / {}", short(d), n, short(&String::from_utf8_lossy(&a.as_bytes()[n.saturating_sub(60)..])), short(&String::from_utf8_lossy(&b.as_bytes()[n.saturating_sub(60).min(b.len())..])));
            }
            Ok(())
        };
        let v = go(st, r);
        FUSE.with(|f| f.set(i64::MAX));
        st.eval(s.hash(), plan.iter().any(|p| p.2));
        st.sample(|| format!("{:?} in {}", plan.iter().map(|p| (&p.0, p.2)).collect::<Vec<_>>(), s.describe().chars().take(400).collect::<String>()));
        v.ctx("plan", || format!("{:?}", plan)).ctx("scenario", || s.describe())
    })
}

// ---------------------------------------------------------------- C33

const CLASSES: &[&str] = &[
    "a-z", "A-Za-z0-9_", r"\p{Latin}", r"\p{Greek}\p{Latin}0-9", r"\w", r"\p{Cyrillic}", r"\p{L}\p{M}", "abc", "é", r"\p{Han}", r"a-zA-Z'’\-", r"\d", r"\S", "😀-😿", r"\p{Thai}", r"\.\]", r"\p{Arabic}", "x",
];

pub fn c33(cfg: &Cfg, g: &Gen) -> Outcome {
    use rust_stemmers::Algorithm as A;
    let algos: Vec<(&'static str, fn() -> A)> = vec![
        ("Arabic", || A::Arabic), ("Danish", || A::Danish), ("Dutch", || A::Dutch), ("English", || A::English), ("Finnish", || A::Finnish), ("French", || A::French),
        ("German", || A::German), ("Greek", || A::Greek), ("Hungarian", || A::Hungarian), ("Italian", || A::Italian), ("Norwegian", || A::Norwegian), ("Portuguese", || A::Portuguese),
        ("Romanian", || A::Romanian), ("Russian", || A::Russian), ("Spanish", || A::Spanish), ("Swedish", || A::Swedish), ("Tamil", || A::Tamil), ("Turkish", || A::Turkish),
    ];
    let algos = &algos;
    run(cfg, if cfg.thorough { 600_000 } else { 30_000 }, STACK, |_| (), |_, r, idx, st| {
        let o = Opt { max_word: 80, ..Opt::default() };
        let code = g.any_code(r);
        let name = g.name(r, o);
        match idx % 4 {
            0 => {
                // a stop word filter of any words
                let n = if r.chance(1, 10) { g.size(r, 3000) } else { r.below(12) };
                let mut words: Vec<String> = (0..n).map(|_| g.word(r, code, o)).collect();
                if r.chance(1, 3) {
                    words.push(String::new());
                }
                if r.chance(1, 3) {
                    words.extend(words.clone().into_iter().take(3));
                }
                if r.chance(1, 2) {
                    words.extend(["The".to_string(), "two words".into(), "it's".into(), "-".into(), "ß".into(), "İ".into()]);
                }
                let refs: Vec<&str> = words.iter().map(|w| w.as_str()).collect();
                let f = StopWordFilter::new(&name, &refs);
                let c = f.clone();
                check!(f.name() == name && c.name() == name, "a stop word filter made with the name {} is called {}", short(&name), short(&f.name()));
                let set: BTreeSet<&str> = refs.iter().copied().collect();
                let mut asked: Vec<String> = words.iter().take(60).cloned().collect();
                for w in words.iter().take(40) {
                    asked.extend([format!("{}s", w), w.to_uppercase(), w.to_lowercase(), format!(" {}", w), format!("{}\0", w), w.chars().rev().collect(), w.chars().skip(1).collect(), format!("{}'s", w), format!("{}\u{301}", w)]);
                }
                asked.extend((0..10).map(|_| g.word(r, code, o)));
                asked.push(String::new());
                for w in asked {
                    for x in [&f, &c] {
                        let got = x.filter(w.clone());
                        let want = if set.contains(w.as_str()) { None } else { Some(w.clone()) };
                        check!(got == want, "a stop word filter of {} word(s) gives {:?} for {}, expected {:?}; words {:?}", n, got, short(&w), want, words.iter().take(20).collect::<Vec<_>>());
                    }
                    st.eval(hash_str(&w) ^ idx << 32, true);
                }
                st.count("stop_word_filters", 1);
            }
            1 => {
                let class = *r.pick(CLASSES);
                let f = RegexTrimmer::new(&name, class);
                let c = f.clone();
                check!(f.name() == name && c.name() == name, "a trimmer made with the name {} is called {}", short(&name), short(&f.name()));
                let one = regex::Regex::new(&format!("[{}]", class)).unwrap();
                let is = |c: char| one.is_match(c.encode_utf8(&mut [0; 4]));
                let seeds = ["abc", "x", "é", "ΑΩ", "я", "中", "ไทย", "7", "😁", "_", "عرب", ".]", "'", "\n"];
                for _ in 0..40 {
                    let mut w = g.word(r, code, o);
                    if r.chance(1, 2) {
                        w = g.decorated(r, code, o);
                    }
                    for _ in 0..r.below(3) {
                        w = format!("{}{}{}", r.pick(&seeds), w, r.pick(&seeds));
                    }
                    if r.chance(1, 6) {
                        w = format!("{}\n{}", w, r.pick(&seeds));
                    }
                    let want = w.trim_matches(|c| !is(c));
                    let want = if want.is_empty() { None } else { Some(want.to_string()) };
                    for x in [&f, &c] {
                        let got = x.filter(w.clone());
                        check!(got == want, "a trimmer to [{}] gives {:?} for {}, expected {:?}", class, got, short(&w), want);
                    }
                    st.eval(hash_str(&w) ^ hash_str(class), want.as_deref() != Some(&w));
                }
                check!(f.filter(String::new()).is_none(), "a trimmer keeps the empty token");
                st.count("trimmers", 1);
            }
            2 => {
                let (an, a) = *r.pick(algos);
                let f = RustStemmer::new(&name, a());
                check!(f.name() == name, "a stemmer made with the name {} is called {}", short(&name), short(&f.name()));
                let s = rust_stemmers::Stemmer::create(a());
                for _ in 0..60 {
                    let w = match r.below(4) {
                        0 => g.decorated(r, code, o),
                        1 => {
                            let c2 = g.any_code(r);
                            g.word(r, c2, o)
                        }
                        _ => g.word(r, code, o).to_lowercase(),
                    };
                    let (got, want) = match (guarded(|| f.filter(w.clone())), guarded(|| s.stem(&w).into_owned())) {
                        (Caught::Ok(a), Caught::Ok(b)) => (a, b),
                        // what the Snowball library does with such a word is not this library's
                        (Caught::Panic(..), Caught::Panic(..)) => continue,
                        (Caught::Panic(l, m), _) => return viol(format!("the {} stemmer panics on {}: {} at {}", an, short(&w), m, l)),
                        (_, Caught::Panic(..)) => continue,
                    };
                    let want = if want.is_empty() { None } else { Some(want) };
                    check!(got == want, "the {} stemmer gives {:?} for {}, Snowball gives {:?}", an, got, short(&w), want);
                    st.eval(hash_str(&w) ^ hash_str(an), want.as_deref() != Some(&w));
                }
                st.count("stemmers", 1);
            }
            _ => {
                // a language put together from them
                let class = *r.pick(&[r"\p{Latin}", r"\w", "a-z", r"\p{L}\p{M}0-9"]);
                let k = r.below(8);
                let words: Vec<String> = (0..k).map(|_| g.word(r, code, o).to_lowercase()).collect();
                let (an, a) = *r.pick(algos);
                let order = r.below(4);
                let make = |words: &[String]| -> Vec<Box<dyn PipelineFn>> {
                    let refs: Vec<&str> = words.iter().map(|w| w.as_str()).collect();
                    let t = Box::new(RegexTrimmer::new("t", class));
                    let s = Box::new(StopWordFilter::new("s", &refs));
                    let m = Box::new(RustStemmer::new("m", a()));
                    match order {
                        0 | 1 => vec![t, s, m],
                        2 => vec![s, t, m],
                        _ => vec![m, s],
                    }
                };
                struct Own(Vec<String>, Box<dyn Fn(&[String]) -> Vec<Box<dyn PipelineFn>>>);
                impl Language for Own {
                    fn name(&self) -> String {
                        "Own".into()
                    }
                    fn code(&self) -> String {
                        "ow".into()
                    }
                    fn tokenize(&self, t: &str) -> Vec<String> {
                        elasticlunr::lang::tokenize_whitespace(t)
                    }
                    fn make_pipeline(&self) -> Pipeline {
                        Pipeline { queue: (self.1)(&self.0) }
                    }
                }
                let mut text = String::new();
                for _ in 0..r.range(1, 25) {
                    text.push_str(&if k > 0 && r.chance(1, 3) { r.pick(&words).clone() } else { g.decorated(r, code, o) });
                    text.push_str(&g.sep(r));
                }
                let one = regex::Regex::new(&format!("[{}]", class)).unwrap();
                let is = |c: char| one.is_match(c.encode_utf8(&mut [0; 4]));
                let sn = rust_stemmers::Stemmer::create(a());
                let toks = spec::ref_tokenize(&text);
                check!(elasticlunr::lang::tokenize_whitespace(&text) == toks, "tokenize_whitespace gives {:?}, expected {:?}", elasticlunr::lang::tokenize_whitespace(&text), toks);
                let want = match guarded(|| {
                    let mut want: BTreeMap<String, u64> = BTreeMap::new();
                    for t in toks {
                        let trim = |t: &str| Some(t.trim_matches(|c| !is(c)).to_string()).filter(|t| !t.is_empty());
                        let stop = |t: String| Some(t).filter(|t| !words.contains(t));
                        let stem = |t: String| Some(sn.stem(&t).into_owned()).filter(|t| !t.is_empty());
                        let x = match order {
                            0 | 1 => trim(&t).and_then(stop).and_then(stem),
                            2 => stop(t).and_then(|t| trim(&t)).and_then(stem),
                            _ => stem(t).and_then(stop),
                        };
                        if let Some(x) = x {
                            *want.entry(x).or_insert(0) += 1;
                        }
                    }
                    want
                }) {
                    Caught::Ok(w) => w,
                    Caught::Panic(..) => return Ok(()),
                };
                let q = make(&words);
                let names: Vec<String> = q.iter().map(|f| f.name()).collect();
                drop(q);
                let (w2, c2, o2) = (words.clone(), class.to_string(), order);
                let own = Own(w2, Box::new(move |words| {
                    let refs: Vec<&str> = words.iter().map(|w| w.as_str()).collect();
                    let t = Box::new(RegexTrimmer::new("t", &c2));
                    let s = Box::new(StopWordFilter::new("s", &refs));
                    let m = Box::new(RustStemmer::new("m", a()));
                    match o2 {
                        0 | 1 => vec![t, s, m],
                        2 => vec![s, t, m],
                        _ => vec![m, s],
                    }
                }));
                let mut ix = Index::with_language(Box::new(own), ["f"]);
                ix.add_doc("1", [&text]);
                let p = scen::read(&ix.to_json()).ctx("at", || "to_json".into())?;
                let got: BTreeMap<String, f64> = p.post["f"].iter().filter_map(|(t, e)| e.0.get("1").map(|w| (t.clone(), *w))).collect();
                let want: BTreeMap<String, f64> = want.into_iter().map(|(t, n)| (t, (n as f64).sqrt())).collect();
                check!(got == want, "an own language (order {}, [{}], {} stemmer, stop words {:?}) indexes {} as {:?}, expected {:?}", order, class, an, words, short(&text), got, want);
                let pn: Vec<J> = names.into_iter().map(J::Str).collect();
                check!(p.j.get("pipeline").and_then(|x| x.arr().cloned()).ok() == Some(pn), "the index of an own language names other functions");
                check!(p.j.get("lang").and_then(|x| x.str().map(|s| s.to_string())).ok().as_deref() == Some("Own"), "the index of an own language names another language");
                st.eval(hash_str(&text) ^ hash_str(class), !want.is_empty());
                st.count("own_languages", 1);
                st.sample(|| format!("[{}] {} {:?} {:?}", class, an, words, text));
            }
        }
        Ok(())
    })
}
