//! Index scenarios: a configuration, documents, and the model of the index they must give.

use crate::gen::{Gen, Opt};
use crate::json::{self, Postings, J};
use crate::spec::{self, ref_process, ref_run};
use crate::util::Rng;
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{Index, IndexBuilder, Language, Pipeline, TokenizerFn};
use std::collections::BTreeMap;

/// A language of the monitor's own.
#[derive(Clone, Debug)]
pub struct TestLang {
    pub name: String,
    pub sep: char,
    pub lower: bool,
    pub stages: Vec<(String, StageKind)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum StageKind {
    Id,
    DropOddLen,
    Truncate(usize),
    Suffix(char),
    DropIfContains(char),
    Reverse,
    FnUpper,
}
pub struct Stage {
    pub name: String,
    pub kind: StageKind,
}
pub fn stage(kind: StageKind, t: String) -> Option<String> {
    let r = match kind {
        StageKind::Id => t,
        StageKind::DropOddLen => {
            if t.chars().count() % 5 == 4 {
                return None;
            }
            t
        }
        StageKind::Truncate(n) => t.chars().take(n).collect(),
        StageKind::Suffix(c) => {
            let mut t = t;
            t.push(c);
            t
        }
        StageKind::DropIfContains(c) => {
            if t.contains(c) {
                return None;
            }
            t
        }
        StageKind::Reverse => t.chars().rev().collect(),
        StageKind::FnUpper => t.to_uppercase(),
    };
    if r.is_empty() {
        None
    } else {
        Some(r)
    }
}
impl PipelineFn for Stage {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn filter(&self, t: String) -> Option<String> {
        stage(self.kind, t)
    }
}
impl Language for TestLang {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn code(&self) -> String {
        "xx".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        text.split(self.sep)
            .filter(|s| !s.is_empty())
            .map(|s| if self.lower { s.to_lowercase() } else { s.to_string() })
            .collect()
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline {
            queue: self
                .stages
                .iter()
                .map(|(n, k)| {
                    let b: Box<dyn PipelineFn> = if *k == StageKind::FnUpper {
                        Box::new(FnWrapper(n.clone(), |t| stage(StageKind::FnUpper, t)))
                    } else {
                        Box::new(Stage { name: n.clone(), kind: *k })
                    };
                    b
                })
                .collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Lang {
    Built(&'static str),
    Test(TestLang),
}
impl Lang {
    pub fn make(&self) -> Box<dyn Language> {
        match self {
            Lang::Built(c) => (spec::spec(c).make)(),
            Lang::Test(t) => Box::new(t.clone()),
        }
    }
    pub fn code(&self) -> &'static str {
        match self {
            Lang::Built(c) => c,
            Lang::Test(_) => "en",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    /// Split at ASCII spaces, keep case and hyphens.
    Space,
    /// Split at '|', trimmed, empties dropped.
    Bar,
    /// Every character is a token, white space excluded.
    Chars,
    /// Pairs of adjacent characters.
    Bigrams,
    /// The whole text as one token.
    Whole,
}
pub fn tokenize(k: Tok, s: &str) -> Vec<String> {
    match k {
        Tok::Space => s.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
        Tok::Bar => s.split('|').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(),
        Tok::Chars => s.chars().filter(|c| !c.is_whitespace()).map(|c| c.to_string()).collect(),
        Tok::Bigrams => {
            let c: Vec<char> = s.chars().collect();
            c.windows(2).map(|w| w.iter().collect()).collect()
        }
        Tok::Whole => {
            if s.is_empty() {
                vec![]
            } else {
                vec![s.to_string()]
            }
        }
    }
}
pub fn tokenizer_fn(k: Tok) -> TokenizerFn {
    Box::new(move |s| tokenize(k, s))
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub lang: Lang,
    pub fields: Vec<String>,
    pub toks: Vec<Option<Tok>>,
    pub ref_field: Option<String>,
    pub save: Option<bool>,
    pub docs: Vec<(String, Vec<String>)>,
}

#[derive(Clone, Copy)]
pub struct SOpt {
    pub text: Opt,
    pub max_docs: usize,
    pub custom_lang: bool,
    pub custom_tok: bool,
    pub ref_collision: bool,
    pub repeats: bool,
    pub partial: bool,
    /// Use plain references and field names.
    pub plain: bool,
    pub code: Option<&'static str>,
}
impl Default for SOpt {
    fn default() -> Self {
        SOpt {
            text: Opt { max_word: 300, ..Opt::default() },
            max_docs: 300,
            custom_lang: true,
            custom_tok: true,
            ref_collision: true,
            repeats: false,
            partial: true,
            plain: false,
            code: None,
        }
    }
}

pub const TOKS: &[Tok] = &[Tok::Space, Tok::Bar, Tok::Chars, Tok::Bigrams, Tok::Whole];

pub fn gen_lang(g: &Gen, r: &mut Rng, o: &SOpt) -> Lang {
    if let Some(c) = o.code {
        return Lang::Built(c);
    }
    if o.custom_lang && r.chance(1, 5) {
        let n = r.below(5);
        let stages = (0..n)
            .map(|i| {
                let k = match r.below(8) {
                    0 => StageKind::Id,
                    1 => StageKind::DropOddLen,
                    2 => StageKind::Truncate(r.range(1, 6)),
                    3 => StageKind::Suffix(*r.pick(&['s', ' ', '-', 'é', '"', '😀'])),
                    4 => StageKind::DropIfContains(*r.pick(&['e', 'a', 'é', ','])),
                    5 => StageKind::Reverse,
                    6 => StageKind::FnUpper,
                    _ => StageKind::Id,
                };
                (if r.chance(1, 3) { g.name(r, o.text) } else { format!("stage{}", i) }, k)
            })
            .collect();
        return Lang::Test(TestLang { name: g.name(r, o.text), sep: *r.pick(&[' ', ' ', ',', '\n', 'e']), lower: r.chance(1, 2), stages });
    }
    if r.chance(1, 3) {
        Lang::Built("en")
    } else {
        let s = &spec::SPECS[r.below(spec::SPECS.len())];
        Lang::Built(s.code)
    }
}

pub fn gen(g: &Gen, r: &mut Rng, o: &SOpt) -> Scen {
    let lang = gen_lang(g, r, o);
    let shape = r.weighted(&[30, 4, 4, 2]);
    let nf = match shape {
        2 => g.size(r, 70).max(1),
        _ => r.range(1, 5),
    };
    let nd = match shape {
        1 => g.size(r, o.max_docs),
        3 => 0,
        _ => r.range(1, 8),
    };
    let plain = o.plain || r.chance(1, 3);
    let mut fields = if plain { g.plain_names(nf, "f") } else { g.names(r, nf, o.text) };
    let mut toks: Vec<Option<Tok>> = vec![None; nf];
    if o.custom_tok && r.chance(1, 4) {
        for t in toks.iter_mut() {
            if r.chance(1, 2) {
                *t = Some(*r.pick(TOKS));
            }
        }
    }
    let mut ref_field = if r.chance(1, 3) { Some(g.name(r, o.text)) } else { None };
    if o.ref_collision && r.chance(1, 8) {
        ref_field = Some(r.pick(&fields).clone());
    }
    if !o.ref_collision {
        // keep the reference field's name distinct
        let rf = ref_field.clone().unwrap_or_else(|| "id".into());
        for f in fields.iter_mut() {
            if *f == rf {
                *f = format!("{}\u{1}x", f);
            }
        }
    }
    let save = match r.below(4) {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    };
    let refs = if plain { g.plain_names(nd, "d") } else { g.names(r, nd, o.text) };
    let small = nd > 12 || nf > 12;
    let code = lang.code();
    let mut docs: Vec<(String, Vec<String>)> = vec![];
    // a pool of texts makes documents and fields share terms
    let pool: Vec<String> = (0..r.range(1, 4)).map(|_| if small { g.text_n(r, code, 3, Opt { big: false, ..o.text }) } else { g.text(r, code, o.text) }).collect();
    for rf in refs {
        let n = if o.partial && r.chance(1, 8) { r.below(nf + 1) } else { nf };
        let vals = (0..n)
            .map(|_| {
                if r.chance(1, 4) {
                    r.pick(&pool).clone()
                } else if small {
                    let k = r.below(4);
                    g.text_n(r, code, k, Opt { big: false, ..o.text })
                } else {
                    g.text(r, code, o.text)
                }
            })
            .collect();
        docs.push((rf, vals));
    }
    if o.repeats && !docs.is_empty() {
        let extra = r.range(0, docs.len().min(6));
        for _ in 0..extra {
            let (rf, vals) = r.pick(&docs).clone();
            let vals = if r.chance(1, 2) {
                vals
            } else {
                (0..r.below(nf + 1)).map(|_| if small { g.word(r, code, o.text) } else { g.text(r, code, o.text) }).collect()
            };
            let at = r.below(docs.len() + 1);
            docs.insert(at, (rf, vals));
        }
    }
    Scen { lang, fields, toks, ref_field, save, docs }
}

#[derive(Default, Debug, Clone, PartialEq)]
pub struct Model {
    /// field -> term -> document -> count
    pub post: BTreeMap<String, BTreeMap<String, BTreeMap<String, u64>>>,
    /// document -> field -> number of tokens
    pub lens: BTreeMap<String, BTreeMap<String, u64>>,
}

impl Scen {
    pub fn rf(&self) -> String {
        self.ref_field.clone().unwrap_or_else(|| "id".into())
    }
    pub fn saved(&self) -> bool {
        self.save.unwrap_or(true)
    }
    pub fn empty(&self) -> Index {
        let mut b = IndexBuilder::with_language(self.lang.make());
        if let Some(s) = self.save {
            b = b.save_docs(s);
        }
        if let Some(r) = &self.ref_field {
            b = b.set_ref(r);
        }
        for (f, t) in self.fields.iter().zip(&self.toks) {
            b = match t {
                None => b.add_field(f),
                Some(k) => b.add_field_with_tokenizer(f, tokenizer_fn(*k)),
            };
        }
        b.build()
    }
    pub fn build(&self) -> Index {
        let mut i = self.empty();
        for (r, v) in &self.docs {
            i.add_doc(r, v);
        }
        i
    }
    /// The processed tokens of one value.
    pub fn tokens(&self, l: &dyn Language, p: &Pipeline, field: usize, text: &str) -> Vec<String> {
        match self.toks[field] {
            None => ref_process(l, p, text),
            Some(k) => ref_run(p, tokenize(k, text)),
        }
    }
    /// For documents with distinct references.
    pub fn model(&self) -> Model {
        let l = self.lang.make();
        let p = l.make_pipeline();
        let mut m = Model::default();
        let rf = self.rf();
        for f in &self.fields {
            m.post.insert(f.clone(), BTreeMap::new());
        }
        for (r, vals) in &self.docs {
            for (i, v) in vals.iter().enumerate() {
                let f = &self.fields[i];
                if *f == rf {
                    continue;
                }
                let t = self.tokens(&*l, &p, i, v);
                m.lens.entry(r.clone()).or_default().insert(f.clone(), t.len() as u64);
                let fm = m.post.get_mut(f).unwrap();
                for x in t {
                    *fm.entry(x).or_default().entry(r.clone()).or_insert(0) += 1;
                }
            }
        }
        m
    }
    /// Sum of the squares of the lengths of the tokens of one value.
    pub fn depth2(&self, l: &dyn Language, i: usize, v: &str) -> usize {
        let t = match self.toks[i] {
            Some(k) => tokenize(k, v),
            None => l.tokenize(v),
        };
        t.iter().map(|w| w.chars().count().pow(2)).sum()
    }
    /// Whether the indented JSON stays small: the depth of the tree is the length of its longest
    /// words and the indentation makes it quadratic.
    pub fn shallow(&self) -> bool {
        let l = self.lang.make();
        let n: usize = self.docs.iter().flat_map(|(_, v)| v.iter().enumerate()).map(|(i, v)| self.depth2(&*l, i, v)).sum();
        n <= 2_000_000
    }
    pub fn describe(&self) -> String {
        let mut s = format!("lang={:?} ref={:?} save={:?} fields={:?} toks={:?} docs=[", self.lang, self.ref_field, self.save, self.fields, self.toks);
        for d in &self.docs {
            s += &format!("{:?}, ", d);
            if s.len() > 20000 {
                s += "…";
                break;
            }
        }
        s.push(']');
        s
    }
    pub fn hash(&self) -> u64 {
        crate::util::hash_str(&self.describe())
    }
}

/// The emitted index, read back by the monitor's own parser.
pub struct Parsed {
    pub j: J,
    pub fields: Vec<String>,
    pub post: BTreeMap<String, Postings>,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub info: BTreeMap<String, BTreeMap<String, i64>>,
    pub save: bool,
    pub length: i64,
}

pub fn read(js: &str) -> Result<Parsed, String> {
    let j = json::parse(js)?;
    let fields = j.get("fields")?.arr()?.iter().map(|x| x.str().map(|s| s.to_string())).collect::<Result<Vec<_>, _>>()?;
    let mut post = BTreeMap::new();
    for (f, v) in j.get("index")?.obj()? {
        post.insert(f.clone(), json::flatten(v).map_err(|e| format!("field {:?}: {}", f, e))?);
    }
    let ds = j.get("documentStore")?;
    let mut docs = BTreeMap::new();
    for (r, d) in ds.get("docs")?.obj()? {
        let mut m = BTreeMap::new();
        for (k, v) in d.obj()? {
            m.insert(k.clone(), v.str()?.to_string());
        }
        docs.insert(r.clone(), m);
    }
    let mut info = BTreeMap::new();
    for (r, d) in ds.get("docInfo")?.obj()? {
        let mut m = BTreeMap::new();
        for (k, v) in d.obj()? {
            m.insert(k.clone(), v.int()?);
        }
        info.insert(r.clone(), m);
    }
    Ok(Parsed { fields, post, docs, info, save: ds.get("save")?.bool()?, length: ds.get("length")?.int()?, j })
}
