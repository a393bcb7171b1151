//! The workload of mon/src/safety.rs under Miri: small, but with every access checked.
//! usage: mirirun SEED STEPS
#![allow(dead_code)]
#[path = "../../mon/src/safety.rs"]
mod safety;
#[path = "../../mon/src/util.rs"]
mod util;

use elasticlunr::lang;
use util::Rng;

const STEM: &[&str] = &["", "a", "y", "hop", "fail", "relat", "agre", "tann", "ca", "cafè", "पत", "𝒳", "yy", "fil", "conform", "gypsy", "é", "त", "l'ami", "كتاب", "آأ", "привет", "한국", "日本", "ß", "İ", "'", "_", "9"];
const END: &[&str] = &["", "s", "sses", "ies", "eed", "ed", "ing", "ational", "izer", "bli", "iveness", "icate", "ful", "ement", "sion", "e", "ll", "y", "तed", "éed", "èèing", "𝒳𝒳ed", "अंतर्राष्ट्रीय", "ement", "ами", "ََ", "들"];
const SEP: &[&str] = &[" ", " ", "-", "\n", "\u{3000}", "\u{feff}", ", ", "", "."];

fn text(r: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..r.below(5) {
        t.push_str(*r.pick(STEM));
        t.push_str(*r.pick(END));
        if r.chance(1, 6) {
            t.push(char::from_u32(r.below(0x3000) as u32).unwrap_or('x'));
        }
        t.push_str(*r.pick(SEP));
    }
    t
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let steps: u64 = a[2].parse().unwrap();
    let en: safety::Make = || Box::new(lang::English::new());
    let ar: safety::Make = || Box::new(lang::Arabic::new());
    let fr: safety::Make = || Box::new(lang::French::new());
    let ko: safety::Make = || Box::new(lang::Korean::new());
    let ru: safety::Make = || Box::new(lang::Russian::new());
    // each process has English, one of the expensive ones and Arabic
    let langs: Vec<safety::Make> = match seed % 4 {
        0 => vec![en, en, en, fr],
        1 => vec![en, en, en, ru],
        2 => vec![en, en, en, ko],
        _ => vec![en, en, ar],
    };
    let mut done = 0;
    for i in 0..steps {
        let k = ((seed * 7 + i) % safety::KINDS as u64) as usize;
        let mut r = Rng::new(util::mix(seed ^ util::mix(i)));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| safety::step(k, &langs, &text, &mut r, 3))) {
            Ok(Ok(d)) => println!("STEP kind={} digest={:016x}", k, d),
            Ok(Err(e)) => {
                println!("VIOL {}", e);
                std::process::exit(1)
            }
            Err(_) => println!("PANIC kind={}", k),
        }
        done += 1;
    }
    println!("DONE {}", done);
}
