//! C34: the workload that every build of the library runs, as lines of JSON.

use crate::c_more::{some_inv, some_store};
use crate::c_store::Op;
use crate::gen::{Gen, Opt};
use crate::scen::{self, Lang, SOpt};
use crate::spec;
use crate::util::{mix, Rng};
use serde_json::json;
use std::io::Write;

pub fn write(g: &Gen, seed: u64, n: u64, path: &str) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(path).expect("corpus"));
    let o = Opt { max_word: 80, big: false, ..Opt::default() };
    for idx in 0..n {
        let r = &mut Rng::new(mix(seed ^ mix(0xc34 ^ mix(idx))));
        // half of everything in English, which every build has
        let code = if r.chance(1, 2) { "en" } else { spec::SPECS[r.below(spec::SPECS.len())].code };
        let v = match idx % 8 {
            0..=3 => json!({"k": "text", "c": code, "x": g.text(r, code, o)}),
            4 => {
                let c = if code == "zh" || code == "ja" { "en" } else { code };
                let n = r.range(1, 20);
                let words: Vec<String> = (0..n).map(|_| g.decorated(r, c, o)).collect();
                let n = r.below(5);
                let stop: Vec<String> = (0..n).map(|_| r.pick(&words).clone()).collect();
                json!({"k": "stages", "c": c, "w": words, "s": stop, "t": *r.pick(&["a-z", r"\w", r"\p{L}", r"\p{Latin}0-9"])})
            }
            5 => {
                let mut s = scen::gen(g, r, &SOpt { repeats: true, max_docs: 8, custom_lang: false, custom_tok: false, text: o, ..SOpt::default() });
                if r.chance(1, 2) || s.fields.len() > 30 {
                    s.lang = Lang::Built("en");
                }
                s.fields.truncate(30);
                for d in s.docs.iter_mut() {
                    d.1.truncate(30);
                }
                json!({"k": "index", "c": s.lang.code(), "f": s.fields, "r": s.rf(), "s": s.saved(), "d": s.docs})
            }
            6 => {
                let (_, ops) = some_inv(g, r);
                let ops: Vec<_> = ops
                    .iter()
                    .take(200)
                    .map(|o| match o {
                        Op::Add(d, t, w) => json!([d, t, w]),
                        Op::Remove(d, t) => json!([d, t]),
                    })
                    .collect();
                json!({"k": "inverted", "o": ops})
            }
            _ => {
                let ds = some_store(g, r);
                json!({"k": "store", "s": ds.save, "d": ds.docs, "i": ds.info, "b": r.below(256), "n": g.name(r, o)})
            }
        };
        writeln!(out, "{}", v).expect("corpus");
    }
}
