//! Literals found in the sources under test, used ONLY to seed the workload generators
//! (a dictionary, as coverage-guided fuzzers use one). No verdict depends on this.

use std::collections::BTreeSet;
use std::path::Path;

#[derive(Default, Clone)]
pub struct Lits {
    pub strs: BTreeSet<String>,
    pub chars: BTreeSet<char>,
    pub ints: BTreeSet<u64>,
}

pub fn from_tree(root: &Path) -> Lits {
    let mut l = Lits::default();
    visit(root, &mut l);
    l
}

fn visit(p: &Path, l: &mut Lits) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut entries: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    entries.sort();
    for e in entries {
        if e.is_dir() {
            visit(&e, l);
        } else if e.extension().map_or(false, |x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&e) {
                scan(&s, l);
            }
        }
    }
}

fn scan(s: &str, l: &mut Lits) {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            'r' if (at(i + 1) == '"' || (at(i + 1) == '#' && at(i + 2) == '"')) && (i == 0 || !c[i - 1].is_alphanumeric()) => {
                let hash = at(i + 1) == '#';
                i += if hash { 3 } else { 2 };
                let mut t = String::new();
                while i < c.len() && !(c[i] == '"' && (!hash || at(i + 1) == '#')) {
                    t.push(c[i]);
                    i += 1;
                }
                i += 1;
                add_str(l, t);
            }
            '"' => {
                i += 1;
                let mut t = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        let (ch, n) = esc(&c, i);
                        if let Some(ch) = ch {
                            t.push(ch);
                        }
                        i += n;
                    } else {
                        t.push(c[i]);
                        i += 1;
                    }
                }
                i += 1;
                add_str(l, t);
            }
            '\'' => {
                if at(i + 1) == '\\' {
                    let (ch, n) = esc(&c, i + 1);
                    if at(i + 1 + n) == '\'' {
                        if let Some(ch) = ch {
                            l.chars.insert(ch);
                        }
                        i += n + 2;
                        continue;
                    }
                } else if at(i + 2) == '\'' {
                    l.chars.insert(at(i + 1));
                    i += 3;
                    continue;
                }
                i += 1;
            }
            d if d.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_' || c[i - 1] == '.')) => {
                let a = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let t: String = c[a..i].iter().filter(|x| **x != '_').collect();
                let t = t.to_ascii_lowercase();
                let v = if let Some(h) = t.strip_prefix("0x") {
                    let h: String = h.chars().take_while(|x| x.is_ascii_hexdigit()).collect();
                    u64::from_str_radix(&h, 16).ok()
                } else if let Some(b) = t.strip_prefix("0b") {
                    u64::from_str_radix(b, 2).ok()
                } else {
                    t.chars().take_while(|x| x.is_ascii_digit()).collect::<String>().parse().ok()
                };
                if let Some(v) = v {
                    l.ints.insert(v);
                }
                // 1 << n
                let rest: String = c[i..(i + 12).min(c.len())].iter().collect();
                let rest = rest.trim_start();
                if let (Some(v), Some(r)) = (v, rest.strip_prefix("<<")) {
                    let d: String = r.trim_start().chars().take_while(|x| x.is_ascii_digit()).collect();
                    if let Ok(n) = d.parse::<u32>() {
                        if n < 40 {
                            l.ints.insert(v << n);
                        }
                    }
                }
            }
            _ => i += 1,
        }
    }
    for (t, v) in [("u8::MAX", 255u64), ("i8::MAX", 127), ("u16::MAX", 65535), ("i16::MAX", 32767)] {
        if s.contains(t) {
            l.ints.insert(v);
        }
    }
    for (t, v) in [("as u8", 255u64), ("u8::try_from", 255), ("as i8", 127), ("as u16", 65535), ("u16::try_from", 65535), ("as i16", 32767), (": u8", 255), (": u16", 65535)] {
        if s.contains(t) {
            l.ints.insert(v);
        }
    }
}

fn add_str(l: &mut Lits, t: String) {
    if t.is_empty() || t.len() > 200 {
        return;
    }
    for ch in t.chars().filter(|c| !c.is_ascii_alphanumeric()) {
        l.chars.insert(ch);
    }
    l.strs.insert(t);
}

fn esc(c: &[char], i: usize) -> (Option<char>, usize) {
    // c[i] == '\\'
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    match at(i + 1) {
        'n' => (Some('\n'), 2),
        't' => (Some('\t'), 2),
        'r' => (Some('\r'), 2),
        '0' => (Some('\0'), 2),
        'x' => {
            let h: String = [at(i + 2), at(i + 3)].iter().collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 4)
        }
        'u' => {
            let mut j = i + 3;
            let mut h = String::new();
            while j < c.len() && c[j] != '}' && h.len() < 8 {
                h.push(c[j]);
                j += 1;
            }
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), j + 1 - i)
        }
        x => (Some(x), 2),
    }
}

/// One literal per line, for the committed list of the base tree.
pub fn dump(l: &Lits) -> String {
    let mut o = String::new();
    for s in &l.strs {
        o += &format!("s{}\n", serde_json::to_string(s).unwrap());
    }
    for s in &l.chars {
        o += &format!("c{}\n", *s as u32);
    }
    for s in &l.ints {
        o += &format!("i{}\n", s);
    }
    o
}

pub fn parse(t: &str) -> Lits {
    let mut l = Lits::default();
    for line in t.lines() {
        match line.as_bytes().first() {
            Some(b's') => {
                if let Ok(s) = serde_json::from_str(&line[1..]) {
                    l.strs.insert(s);
                }
            }
            Some(b'c') => {
                if let Some(c) = line[1..].parse().ok().and_then(char::from_u32) {
                    l.chars.insert(c);
                }
            }
            Some(b'i') => {
                if let Ok(v) = line[1..].parse() {
                    l.ints.insert(v);
                }
            }
            _ => {}
        }
    }
    l
}
