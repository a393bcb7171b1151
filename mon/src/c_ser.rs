//! C35: serializing by every route, into failing writers and serializers, with announced lengths.

use crate::c_more::{like, some_inv, some_store};
use crate::c_store::Op;
use crate::check;
use crate::gen::{Gen, Opt};
use crate::json::{self, J};
use crate::run::{guarded, run, viol, Caught, Cfg, Ctx, Outcome, Stats, R};
use crate::scen::{self, SOpt};
use crate::util::{hash_str, Rng};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::lang::common::StopWordFilter;
use elasticlunr::pipeline::{FnWrapper, Pipeline};
use elasticlunr::Index;
use serde::ser::{self, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io;

const STACK: usize = 256 << 20;

/// A serializer that records the value, checks announced lengths, and fails at the n-th call.
struct Rec<'a> {
    /// calls left until one fails
    fuel: &'a Cell<i64>,
    calls: &'a Cell<i64>,
    readable: bool,
    /// only that one call fails
    once: bool,
}
#[derive(Debug)]
struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl<'a> Rec<'a> {
    fn again(&self) -> Rec<'a> {
        Rec { fuel: self.fuel, calls: self.calls, readable: self.readable, once: self.once }
    }
    fn tick(&self) -> Result<(), E> {
        self.calls.set(self.calls.get() + 1);
        let n = self.fuel.get();
        if n == 0 || (n < 0 && !self.once) {
            self.fuel.set(-1);
            return Err(E("injected".into()));
        }
        self.fuel.set(n - 1);
        Ok(())
    }
    fn leaf(&self, j: J) -> Result<J, E> {
        self.tick()?;
        Ok(j)
    }
}
enum Kind {
    Seq(Vec<J>),
    Map(BTreeMap<String, J>),
}
struct Compound<'a> {
    r: Rec<'a>,
    said: Option<usize>,
    got: usize,
    what: Kind,
    key: Option<String>,
    wrap: Option<&'static str>,
}
impl<'a> Compound<'a> {
    fn elem<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.got += 1;
        let j = v.serialize(self.r.again())?;
        match &mut self.what {
            Kind::Seq(a) => a.push(j),
            Kind::Map(_) => unreachable!(),
        }
        Ok(())
    }
    fn entry<T: ?Sized + Serialize>(&mut self, k: String, v: &T) -> Result<(), E> {
        self.got += 1;
        let j = v.serialize(self.r.again())?;
        match &mut self.what {
            Kind::Seq(_) => unreachable!(),
            Kind::Map(m) => {
                if m.insert(k.clone(), j).is_some() {
                    return Err(E(format!("the member {:?} is written twice", k)));
                }
            }
        }
        Ok(())
    }
    fn done(self) -> Result<J, E> {
        self.r.tick()?;
        if let Some(n) = self.said {
            if n != self.got {
                return Err(E(format!("{} member(s) were announced, {} written", n, self.got)));
            }
        }
        if self.key.is_some() {
            return Err(E("a key without a value".into()));
        }
        let j = match self.what {
            Kind::Seq(a) => J::Arr(a),
            Kind::Map(m) => J::Obj(m),
        };
        Ok(match self.wrap {
            Some(v) => J::Obj([(v.to_string(), j)].into()),
            None => j,
        })
    }
}
impl<'a> ser::Serializer for Rec<'a> {
    type Ok = J;
    type Error = E;
    type SerializeSeq = Compound<'a>;
    type SerializeTuple = Compound<'a>;
    type SerializeTupleStruct = Compound<'a>;
    type SerializeTupleVariant = Compound<'a>;
    type SerializeMap = Compound<'a>;
    type SerializeStruct = Compound<'a>;
    type SerializeStructVariant = Compound<'a>;
    fn is_human_readable(&self) -> bool {
        self.readable
    }
    fn serialize_bool(self, v: bool) -> Result<J, E> {
        self.leaf(J::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_i16(self, v: i16) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_i32(self, v: i32) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_i64(self, v: i64) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_u8(self, v: u8) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_u16(self, v: u16) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_u32(self, v: u32) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_u64(self, v: u64) -> Result<J, E> {
        self.leaf(J::Num(v.to_string()))
    }
    fn serialize_f32(self, v: f32) -> Result<J, E> {
        self.serialize_f64(v as f64)
    }
    fn serialize_f64(self, v: f64) -> Result<J, E> {
        self.leaf(if v.is_finite() { J::Num(format!("{:?}", v)) } else { J::Null })
    }
    fn serialize_char(self, v: char) -> Result<J, E> {
        self.leaf(J::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<J, E> {
        self.leaf(J::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<J, E> {
        self.leaf(J::Arr(v.iter().map(|b| J::Num(b.to_string())).collect()))
    }
    fn serialize_none(self) -> Result<J, E> {
        self.leaf(J::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<J, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<J, E> {
        self.leaf(J::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<J, E> {
        self.leaf(J::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<J, E> {
        self.leaf(J::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<J, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<J, E> {
        let j = v.serialize(self)?;
        Ok(J::Obj([(k.to_string(), j)].into()))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Compound<'a>, E> {
        self.tick()?;
        Ok(Compound { r: self, said: n, got: 0, what: Kind::Seq(vec![]), key: None, wrap: None })
    }
    fn serialize_tuple(self, n: usize) -> Result<Compound<'a>, E> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Compound<'a>, E> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<Compound<'a>, E> {
        let mut c = self.serialize_seq(Some(n))?;
        c.wrap = Some(v);
        Ok(c)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Compound<'a>, E> {
        self.tick()?;
        Ok(Compound { r: self, said: n, got: 0, what: Kind::Map(BTreeMap::new()), key: None, wrap: None })
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Compound<'a>, E> {
        self.serialize_map(Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<Compound<'a>, E> {
        let mut c = self.serialize_map(Some(n))?;
        c.wrap = Some(v);
        Ok(c)
    }
}
macro_rules! seq {
    ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for Compound<'a> {
        type Ok = J;
        type Error = E;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.elem(v) }
        fn end(self) -> Result<J, E> { self.done() }
    })* }
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! strukt {
    ($($t:ident),*) => { $(impl<'a> ser::$t for Compound<'a> {
        type Ok = J;
        type Error = E;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> { self.entry(k.to_string(), v) }
        fn end(self) -> Result<J, E> { self.done() }
    })* }
}
strukt!(SerializeStruct, SerializeStructVariant);
impl<'a> ser::SerializeMap for Compound<'a> {
    type Ok = J;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        if self.key.is_some() {
            return Err(E("two keys without a value".into()));
        }
        match k.serialize(self.r.again())? {
            J::Str(s) => self.key = Some(s),
            J::Num(s) => self.key = Some(s),
            o => return Err(E(format!("a key is {:?}", o))),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        match self.key.take() {
            Some(k) => self.entry(k, v),
            None => Err(E("a value without a key".into())),
        }
    }
    fn end(self) -> Result<J, E> {
        self.done()
    }
}

/// Takes a few bytes at a time, is interrupted now and then, and fails after so many.
struct W {
    out: Vec<u8>,
    left: usize,
    step: usize,
    n: usize,
    failed: bool,
    once: bool,
}
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.step < 40 && self.n % 5 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let k = b.len().min(self.step).min(self.left);
        if k == 0 && !b.is_empty() {
            if self.failed && self.once {
                return Ok(b.len());
            }
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "no space left"));
        }
        self.left -= k;
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, crate::run::Viol> {
    match guarded(f) {
        Caught::Ok(x) => Ok(x),
        Caught::Panic(l, m) => viol(format!("serializing {} panicked at {}: {}", what, l, m)),
    }
}

fn routes<T: Serialize>(x: &T, r: &mut Rng, st: &mut Stats) -> Result<String, crate::run::Viol> {
    let s = calm("to a string", || serde_json::to_string(x))?.map_err(|e| e.to_string()).ctx("route", || "to_string".into())?;
    let a = json::parse(&s).ctx("json", || s.clone())?;
    let go = |r: &mut Rng, st: &mut Stats| -> R {
        let v = calm("to a vector", || serde_json::to_vec(x))?.map_err(|e| e.to_string()).ctx("route", || "to_vec".into())?;
        check!(v == s.as_bytes(), "to_vec gives other bytes than to_string");
        let v = calm("prettily", || serde_json::to_string_pretty(x))?.map_err(|e| e.to_string()).ctx("route", || "to_string_pretty".into())?;
        let p = json::parse(&v).ctx("pretty", || v.clone())?;
        check!(p == a, "to_string_pretty denotes another value than to_string");
        let v = calm("to a value", || serde_json::to_value(x))?.map_err(|e| e.to_string()).ctx("route", || "to_value".into())?;
        let v = v.to_string();
        let p = json::parse(&v).ctx("value", || v.clone())?;
        check!(like(&p, &a), "to_value gives {}, to_string {}", v, s);
        // inside other things
        let m: BTreeMap<&str, Option<&T>> = [("x", Some(x)), ("y", None)].into();
        let v = calm("inside other things", || serde_json::to_string(&(x, vec![x, x], &m, Some(x), Box::new(x))))?.map_err(|e| e.to_string()).ctx("route", || "nested".into())?;
        check!(v == format!("[{0},[{0},{0}],{{\"x\":{0},\"y\":null}},{0},{0}]", s), "inside of other values it serializes differently");
        // into writers
        for _ in 0..4 {
            let step = *r.pick(&[1usize, 2, 7, 64, 4096, usize::MAX]);
            let k = if r.chance(1, 3) { s.len() } else { r.below(s.len()) };
            let mut w = W { out: vec![], left: k, step, n: 0, failed: false, once: r.chance(1, 2) };
            let e = calm("into a writer", || serde_json::to_writer(&mut w, x))?;
            if k < s.len() {
                check!(e.is_err(), "the writer failed after {} of {} bytes, but serializing reports success", k, s.len());
                check!(s.as_bytes().starts_with(&w.out), "what was written before the writer failed is no beginning of the JSON");
                st.count("writers_failed", 1);
            } else {
                check!(e.is_ok() && w.out == s.as_bytes(), "into a writer that takes {} byte(s) at a time: {:?}, {} byte(s)", step, e.err(), w.out.len());
                st.count("writers_filled", 1);
            }
        }
        // into another serializer
        let (fuel, calls) = (Cell::new(i64::MAX), Cell::new(0));
        let readable = r.chance(1, 2);
        let v = calm("with another serializer", || x.serialize(Rec { fuel: &fuel, calls: &calls, readable, once: false }))?;
        match v {
            Ok(v) => check!(like(&v, &a), "another serializer (human readable: {}) sees {:?}, the JSON is {}", readable, v, s),
            Err(e) => return viol(format!("another serializer (human readable: {}): {}", readable, e)),
        }
        st.count("serializer_calls", calls.get() as u64);
        let n = calls.get();
        for _ in 0..4 {
            let at = r.below(n as usize) as i64;
            let once = r.chance(1, 2);
            let (fuel, calls) = (Cell::new(at), Cell::new(0));
            let v = calm("with a failing serializer", || x.serialize(Rec { fuel: &fuel, calls: &calls, readable, once }))?;
            check!(v.is_err(), "the serializer failed at its call {} of {}, but serializing reports success", at, n);
            st.count("serializers_failed", 1);
        }
        // none of this changed anything
        let t = serde_json::to_string(x).map_err(|e| e.to_string()).ctx("route", || "to_string".into())?;
        check!(t == s, "having been serialized, it serializes differently");
        Ok(())
    };
    go(r, st).ctx("json", || s.chars().take(6000).collect())?;
    Ok(s)
}

pub fn c35(cfg: &Cfg, g: &Gen) -> Outcome {
    run(cfg, if cfg.thorough { 600_000 } else { 30_000 }, STACK, |_| (), |_, r, idx, st| {
        match idx % 6 {
            0 | 1 => {
                let o = SOpt { repeats: true, max_docs: 25, text: Opt { max_word: 60, big: false, ..Opt::default() }, ..SOpt::default() };
                let s = scen::gen(g, r, &o);
                // tokens as long as texts would nest too deep for some readers
                if !s.shallow() {
                    return Ok(());
                }
                let mut ix: Index = s.build();
                let mut go = || -> R {
                    let a = routes(&ix, r, st)?;
                    check!(ix.to_json() == a, "to_json gives other bytes than serializing");
                    let p = ix.to_json_pretty();
                    check!(json::parse(&p).ctx("pretty", || p.clone())? == json::parse(&a).ctx("json", || a.clone())?, "to_json_pretty denotes another value");
                    // still usable
                    let d = g.name(r, Opt { max_word: 40, ..Opt::default() });
                    let v: Vec<String> = s.fields.iter().map(|_| g.text_n(r, s.lang.code(), 3, o.text)).collect();
                    ix.add_doc(&d, &v);
                    let mut twin = s.build();
                    twin.add_doc(&d, &v);
                    check!(ix.to_json() == twin.to_json(), "an index that was serialized goes on differently from one that was not");
                    st.eval(hash_str(&a), !s.docs.is_empty());
                    st.count("indexes", 1);
                    Ok(())
                };
                go().ctx("scenario", || s.describe())?;
            }
            2 => {
                let (_, ops) = some_inv(g, r);
                let mut x = InvertedIndex::new();
                for o in &ops {
                    match o {
                        Op::Add(d, t, w) => x.add_token(d, t, if r.chance(1, 60) { *r.pick(&[f64::NAN, f64::INFINITY]) } else { *w }),
                        Op::Remove(d, t) => x.remove_token(d, t),
                    }
                }
                let a = routes(&x, r, st).ctx("history", || format!("{:?}", ops))?;
                st.eval(hash_str(&a), !ops.is_empty());
                st.count("inverted_indexes", 1);
            }
            3 => {
                let ds = some_store(g, r);
                let mut x = DocumentStore::new(ds.save);
                for (d, m) in &ds.docs {
                    x.add_doc(d, m.clone());
                }
                for (d, m) in &ds.info {
                    for (f, n) in m {
                        x.add_field_length(d, f, *n);
                    }
                }
                let a = routes(&x, r, st).ctx("store", || format!("{:?}", ds))?;
                st.eval(hash_str(&a), !ds.docs.is_empty());
                st.count("document_stores", 1);
            }
            4 => {
                // pipelines, of the languages and however filled
                let mut p = if r.chance(1, 3) { r.pick(&elasticlunr::lang::languages()).make_pipeline() } else { Pipeline { queue: Vec::with_capacity(g.size(r, 40)) } };
                let n = g.size(r, 30);
                for _ in 0..n {
                    let name = g.name(r, Opt { max_word: 40, ..Opt::default() });
                    match r.below(8) {
                        0 if !p.queue.is_empty() => {
                            let at = r.below(p.queue.len());
                            p.queue.remove(at);
                        }
                        1 => {
                            let at = r.below(p.queue.len() + 1);
                            p.queue.insert(at, Box::new(FnWrapper(name, Some)));
                        }
                        2 => p.queue.push(Box::new(StopWordFilter::new(&name, &["a", "b"]))),
                        _ => p.queue.push(Box::new(FnWrapper(name, Some))),
                    }
                }
                let names: Vec<String> = p.queue.iter().map(|f| f.name()).collect();
                let a = routes(&p, r, st)?;
                let want = J::Arr(names.iter().map(|n| J::Str(n.clone())).collect());
                check!(json::parse(&a).ctx("json", || a.clone())? == want, "a pipeline of {:?} serializes to {}", names, a);
                st.eval(hash_str(&a), !names.is_empty());
                st.count("pipelines", 1);
            }
            _ => {
                let b = |r: &mut Rng| if r.chance(1, 2) { SearchBool::Or } else { SearchBool::And };
                let n = r.below(6);
                let names = g.names(r, n, Opt { max_word: 60, ..Opt::default() });
                let mut x = SearchOptions { bool: b(r), expand: r.chance(1, 2), fields: BTreeMap::new() };
                for f in names {
                    let y = SearchOptionsField {
                        boost: Some(r.below(256) as u8).filter(|_| r.chance(1, 2)),
                        bool: Some(b(r)).filter(|_| r.chance(1, 2)),
                        expand: Some(r.chance(1, 2)).filter(|_| r.chance(1, 2)),
                    };
                    routes(&y, r, st)?;
                    x.fields.insert(f, y);
                }
                let a = routes(&x, r, st)?;
                st.eval(hash_str(&a), !x.fields.is_empty());
                st.count("search_options", 1);
            }
        }
        Ok(())
    })
}
