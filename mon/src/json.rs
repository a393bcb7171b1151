//! A strict RFC 8259 parser that also rejects duplicate keys: the oracle for "valid JSON".
//! Independent of serde_json on purpose.

use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn obj(&self) -> Result<&BTreeMap<String, J>, String> {
        match self {
            J::Obj(m) => Ok(m),
            o => Err(format!("expected an object, found {}", o.kind())),
        }
    }
    pub fn arr(&self) -> Result<&Vec<J>, String> {
        match self {
            J::Arr(m) => Ok(m),
            o => Err(format!("expected an array, found {}", o.kind())),
        }
    }
    pub fn str(&self) -> Result<&str, String> {
        match self {
            J::Str(m) => Ok(m),
            o => Err(format!("expected a string, found {}", o.kind())),
        }
    }
    pub fn bool(&self) -> Result<bool, String> {
        match self {
            J::Bool(m) => Ok(*m),
            o => Err(format!("expected a boolean, found {}", o.kind())),
        }
    }
    /// An integer written without fraction or exponent.
    pub fn int(&self) -> Result<i64, String> {
        match self {
            J::Num(s) => s.parse().map_err(|_| format!("expected an integer, found {}", s)),
            o => Err(format!("expected an integer, found {}", o.kind())),
        }
    }
    pub fn f64(&self) -> Result<f64, String> {
        match self {
            J::Num(s) => s.parse().map_err(|_| format!("bad number {}", s)),
            o => Err(format!("expected a number, found {}", o.kind())),
        }
    }
    pub fn get(&self, k: &str) -> Result<&J, String> {
        self.obj()?.get(k).ok_or_else(|| format!("key {:?} is missing", k))
    }
    pub fn kind(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Num(n) => n.clone(),
            J::Str(s) => format!("string {:?}", s.chars().take(40).collect::<String>()),
            J::Arr(a) => format!("array of {}", a.len()),
            J::Obj(o) => format!("object of {}", o.len()),
        }
    }
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { s, b: s.as_bytes(), i: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("invalid JSON: trailing characters at byte {}", p.i));
    }
    Ok(v)
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("invalid JSON at byte {}: {}", self.i, m))
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return self.err("expected a key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return self.err("expected :");
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value()?;
                    if m.contains_key(&k) {
                        return self.err(&format!("duplicate key {:?}", k));
                    }
                    m.insert(k, v);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(m));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => self.err("expected a value"),
        }
    }
    fn digits(&mut self) -> usize {
        let a = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        self.i - a
    }
    fn number(&mut self) -> Result<J, String> {
        let a = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        let z = self.i;
        let n = self.digits();
        if n == 0 || (n > 1 && self.b[z] == b'0') {
            return self.err("bad number");
        }
        if self.peek() == b'.' {
            self.i += 1;
            if self.digits() == 0 {
                return self.err("bad fraction");
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if self.digits() == 0 {
                return self.err("bad exponent");
            }
        }
        Ok(J::Num(self.s[a..self.i].to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        if self.i + 4 > self.b.len() || !self.b[self.i..self.i + 4].iter().all(|c| c.is_ascii_hexdigit()) {
            return self.err("bad \\u escape");
        }
        let v = u32::from_str_radix(&self.s[self.i..self.i + 4], 16).unwrap();
        self.i += 4;
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = String::new();
        let mut start = self.i;
        loop {
            let Some(&c) = self.b.get(self.i) else { return self.err("unterminated string") };
            match c {
                b'"' => {
                    out.push_str(&self.s[start..self.i]);
                    self.i += 1;
                    return Ok(out);
                }
                b'\\' => {
                    out.push_str(&self.s[start..self.i]);
                    self.i += 1;
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xD800..0xDC00).contains(&u) {
                                if self.peek() != b'\\' || self.b.get(self.i + 1) != Some(&b'u') {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&l) {
                                    return self.err("lone surrogate");
                                }
                                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                            }
                            match char::from_u32(u) {
                                Some(c) => out.push(c),
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    }
                    start = self.i;
                }
                0..=0x1f => return self.err("raw control character in string"),
                _ => self.i += 1,
            }
        }
    }
}

/// term -> (documents with weights, document frequency), for every node that has either.
pub type Postings = BTreeMap<String, (BTreeMap<String, f64>, i64)>;

/// Flattens a `{"root": node}` trie, checking the shape of every node on the way.
pub fn flatten(index: &J) -> Result<Postings, String> {
    let o = index.obj()?;
    if o.len() != 1 {
        return Err(format!("a field index has keys {:?}, expected only \"root\"", o.keys().collect::<Vec<_>>()));
    }
    let mut out = BTreeMap::new();
    walk(index.get("root")?, &mut String::new(), &mut out)?;
    Ok(out)
}

fn walk(n: &J, term: &mut String, out: &mut Postings) -> Result<(), String> {
    let o = n.obj().map_err(|e| format!("node {:?}: {}", term, e))?;
    let mut docs = BTreeMap::new();
    let dj = n.get("docs").map_err(|e| format!("node {:?}: {}", term, e))?;
    for (r, v) in dj.obj().map_err(|e| format!("node {:?} docs: {}", term, e))? {
        let vo = v.obj().map_err(|e| format!("node {:?} docs {:?}: {}", term, r, e))?;
        if vo.len() != 1 {
            return Err(format!("node {:?} docs {:?} has keys {:?}", term, r, vo.keys().collect::<Vec<_>>()));
        }
        let tf = v.get("tf").and_then(|t| t.f64()).map_err(|e| format!("node {:?} docs {:?}: {}", term, r, e))?;
        docs.insert(r.clone(), tf);
    }
    let df = n.get("df").and_then(|d| d.int()).map_err(|e| format!("node {:?}: {}", term, e))?;
    if !docs.is_empty() || df != 0 {
        out.insert(term.clone(), (docs, df));
    }
    for (k, v) in o {
        if k == "docs" || k == "df" {
            continue;
        }
        let mut c = k.chars();
        match (c.next(), c.next()) {
            (Some(ch), None) => {
                term.push(ch);
                walk(v, term, out)?;
                term.pop();
            }
            _ => return Err(format!("node {:?} has the unexpected key {:?}", term, k)),
        }
    }
    Ok(())
}
