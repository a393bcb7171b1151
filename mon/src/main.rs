mod c_cost;
mod c_index;
mod c_lang;
mod c_misc;
mod c_more;
mod c_node;
mod c_ser;
mod c_store;
mod corpus;
mod gen;
mod harvest;
mod json;
mod meter;
mod node;
#[macro_use]
mod run;
#[cfg(feature = "safety")]
mod safety;
mod scen;
mod spec;
mod util;

#[global_allocator]
static A: meter::Counting = meter::Counting;

use run::{Cfg, Outcome};
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    match prop.as_str() {
        "dump-literals" => {
            print!("{}", harvest::dump(&harvest::from_tree(Path::new(&a[2]))));
            return;
        }
        "hashes" => {
            run::install_panic_hook();
            let g = gen::Gen::new(&Path::new(&a[4]).join("src"));
            c_misc::print_hashes(&g, a[2].parse().unwrap(), a[3].parse().unwrap());
            return;
        }
        "corpus" => {
            let g = gen::Gen::new(&Path::new(&a[5]).join("src"));
            corpus::write(&g, a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]);
            return;
        }
        "long-token" => {
            c_lang::long_token(a[2].parse().unwrap(), a.get(3).map(|s| s.as_str()).unwrap_or("x"));
        }
        #[cfg(feature = "cjk")]
        "long-sentence" => {
            c_lang::long_sentence(a[2].parse().unwrap(), &a[3]);
        }
        _ => {}
    }
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let cfg = Cfg {
        prop: prop.clone(),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough,
        threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        wall: opt("--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 60.0 }),
        only: opt("--case").and_then(|s| s.parse().ok()),
        journal: opt("--journal"),
        known: opt("--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        oracle_dir: opt("--oracle").unwrap_or_else(|| "/verif/oracle".into()),
        repo: opt("--repo").unwrap_or_else(|| "/repo".into()),
    };
    run::install_panic_hook();
    let g = gen::Gen::new(&Path::new(&cfg.repo).join("src"));
    let g = &g;
    let c = &cfg;
    let out: Outcome = match prop.as_str() {
        "C01" => c_index::c01_c02(c, g, false),
        "C02" => c_index::c01_c02(c, g, true),
        "C03" => c_store::c03(c, g),
        "C04" => c_index::c04(c, g),
        "C05" => c_index::c05(c, g),
        "C06" => c_index::c06(c, g),
        "C07" => c_index::c07(c, g),
        "C08" => c_index::c08(c, g),
        "C09" => c_index::c09(c, g),
        "C10" => c_node::c10(c, g),
        "C11" => c_node::c11(c, g),
        "C12" => c_lang::c12(c, g),
        "C13" => c_lang::c13(c, g),
        "C14" => c_lang::c14(c, g),
        "C15" => c_lang::c15(c, g),
        "C16" => c_lang::c16(c, g),
        "C17" => c_lang::c17(c, g),
        "C18" => c_node::c18(c, g),
        #[cfg(feature = "cjk")]
        "C19" => c_lang::c19(c, g),
        #[cfg(feature = "cjk")]
        "C20" => c_lang::c20(c, g),
        "C21" => c_misc::c21(c, g),
        "C22" => c_index::c22(c, g),
        "C23" => c_index::c23(c, g),
        "C25" => c_misc::c25(c, g),
        "C26" => c_misc::c26(c, g),
        "C27" => c_store::c27(c, g),
        #[cfg(feature = "safety")]
        "C28" => c_misc::c28(c, g),
        "C29" => c_cost::c29(c, g),
        "C30" => c_more::c30(c, g),
        "C31" => c_more::c31(c, g),
        "C32" => c_more::c32(c, g),
        "C33" => c_more::c33(c, g),
        "C35" => c_ser::c35(c, g),
        _ => {
            eprintln!("HARNESS-ERROR: unknown property {}", prop);
            std::process::exit(2)
        }
    };
    let mut samples = out.stats.samples.clone();
    samples.sort();
    samples.dedup();
    samples.truncate(8);
    let summary = serde_json::json!({
        "evaluations": out.stats.evals,
        "distinct_nontrivial": out.stats.distinct.len(),
        "counters": out.stats.counters,
        "samples": samples.into_iter().map(|s| serde_json::json!({"case": s.0, "input": s.1})).collect::<Vec<_>>(),
        "known": out.stats.known,
        "cases_run": out.stats.cases,
        "cases_planned": out.planned,
        "complete": out.complete,
        "wall_s": out.wall,
        "dictionary": g.describe(),
        "violation": out.viol.as_ref().map(|(i, v)| serde_json::json!({"case": i, "what": v.what, "detail": v.detail})),
    });
    match opt("--out") {
        Some(p) => std::fs::write(p, summary.to_string()).expect("write summary"),
        None => println!("{}", serde_json::to_string_pretty(&summary).unwrap()),
    }
    std::process::exit(if out.viol.is_some() { 1 } else { 0 });
}
