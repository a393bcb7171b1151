'use strict';
// One request per line, one answer per line.  Modes: c10 (load and search an index as
// elasticlunr.js 0.9.5 does), c11 (English processing and index building), c18 (the bundled
// Arabic plugin).
const fs = require('fs');
const path = require('path');
const el = require('./elasticlunr_ref.js');

const mode = process.argv[2];
const repo = process.argv[3] || '/repo';
const obj = () => Object.create(null);
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const show = (s) => { const t = JSON.stringify(s); return t === undefined ? 'nothing' : t.length > 200 ? t.slice(0, 200).toWellFormed() + '…' : t; };

// ---------------------------------------------------------------- building an index

function addToken(root, token, ref, tf) {
  // token[i]: one UTF-16 code unit at a time
  let n = root;
  for (let i = 0; i < token.length; i++) {
    const k = token[i];
    if (!own(n, k)) { n[k] = obj(); n[k].docs = obj(); n[k].df = 0; }
    n = n[k];
  }
  if (!own(n.docs, ref)) n.df += 1;
  n.docs[ref] = { tf };
}

function build(spec) {
  const index = obj();
  for (const f of spec.fields) { const r = obj(); r.docs = obj(); r.df = 0; index[f] = { root: r }; }
  const store = { docs: obj(), docInfo: obj(), length: 0, save: spec.save };
  for (const [ref, vals] of spec.docs) {
    const doc = obj();
    doc[spec.ref] = ref;
    spec.fields.forEach((f, i) => { doc[f] = vals[i]; });
    if (!own(store.docs, ref)) store.length++;
    store.docs[ref] = spec.save ? doc : obj();
    for (const f of spec.fields) {
      const toks = el.enTokens(doc[f]);
      if (!own(store.docInfo, ref)) store.docInfo[ref] = obj();
      store.docInfo[ref][f] = toks.length;
      const cnt = new Map();
      for (const t of toks) cnt.set(t, (cnt.get(t) || 0) + 1);
      for (const [t, c] of cnt) addToken(index[f].root, t, ref, Math.sqrt(c));
    }
  }
  return { version: '0.9.5', fields: spec.fields, ref: spec.ref, documentStore: store, index, pipeline: ['trimmer', 'stopWordFilter', 'stemmer'] };
}

function differ(a, b, at) {
  // a: expected, b: observed
  if (a === b) return null;
  if (typeof a !== typeof b || a === null || b === null || Array.isArray(a) !== Array.isArray(b)) return `${at}: expected ${show(a)}, observed ${show(b)}`;
  if (typeof a !== 'object') return `${at}: expected ${show(a)}, observed ${show(b)}`;
  const ka = Object.keys(a), kb = Object.keys(b);
  for (const k of ka) if (!own(b, k)) return `${at}: ${show(k)} is missing (expected ${show(a[k])})`;
  for (const k of kb) if (!own(a, k)) return `${at}: ${show(k)} is unexpected (${show(b[k])})`;
  if (Array.isArray(a) && a.length !== b.length) return `${at}: length ${a.length} / ${b.length}`;
  for (const k of ka) { const d = differ(a[k], b[k], at.length > 300 ? at : at + '.' + k); if (d) return d; }
  return null;
}

function c11(q) {
  const out = {};
  if (q.texts) out.tokens = q.texts.map((t) => el.enTokens(t));
  if (q.spec) {
    const want = build(q.spec);
    const got = JSON.parse(q.json);
    delete got.lang;
    out.diff = differ(want, got, '$');
  }
  if (q.lower) {
    // the code points whose lower case this platform and the caller disagree about
    out.lower = q.lower.map(([a, b]) => [a, b, a.toLowerCase()]).filter((x) => x[1] !== x[2]).map((x) => x[0]);
  }
  return out;
}

// ---------------------------------------------------------------- loading and searching

const REG = { en: ['trimmer', 'stopWordFilter', 'stemmer'], ar: ['stemmer-ar'], ja: ['trimmer-ja', 'stemmer-ja'] };
const registered = (code) => REG[code] || [`trimmer-${code}`, `stopWordFilter-${code}`, `stemmer-${code}`];

function getNode(ix, token) {
  let root = ix.root;
  for (let i = 0; i < token.length; i++) {
    if (!own(root, token[i])) return undefined;
    root = root[token[i]];
  }
  return root;
}
function getNodeByCodePoint(ix, token) {
  let root = ix.root;
  for (const c of token) {
    if (!own(root, c)) return undefined;
    root = root[c];
  }
  return root;
}
const getDocs = (ix, t) => { const n = getNode(ix, t); return n ? n.docs : {}; };
const getDf = (ix, t) => { const n = getNode(ix, t); return n ? n.df : 0; };
const getTf = (ix, t, r) => { const n = getNode(ix, t); return n && own(n.docs, r) ? n.docs[r].tf : 0; };
function expandToken(ix, token, memo, root) {
  if (token === null || token === '') return [];
  memo = memo || [];
  if (root === undefined) { root = getNode(ix, token); if (root === undefined) return memo; }
  if (root.df > 0) memo.push(token);
  for (const key of Object.keys(root)) {
    if (key === 'docs' || key === 'df') continue;
    expandToken(ix, token + key, memo, root[key]);
  }
  return memo;
}
function merge(acc, sc, op) {
  if (!acc) return sc;
  const out = obj();
  if (op === 'AND') { for (const d of Object.keys(sc)) if (own(acc, d)) out[d] = acc[d] + sc[d]; return out; }
  for (const d of Object.keys(acc)) out[d] = acc[d];
  for (const d of Object.keys(sc)) out[d] = own(out, d) ? out[d] + sc[d] : sc[d];
  return out;
}
// `src` answers docs(term) -> [refs], tf, df, len, n, expand(term)
function fieldSearch(src, query, op, expand) {
  let scores = null;
  const docTokens = obj();
  for (const token of query) {
    const keys = expand ? src.expand(token) : [token];
    const ts = obj();
    for (const key of keys) {
      let docs = src.docs(key);
      const idf = 1 + Math.log(src.n() / (src.df(key) + 1));
      if (scores && op === 'AND') docs = docs.filter((d) => own(scores, d));
      if (key === token) for (const d of docs) (docTokens[d] = docTokens[d] || []).push(key);
      for (const d of docs) {
        const len = src.len(d);
        const norm = len !== 0 ? 1 / Math.sqrt(len) : 1;
        const pen = key !== token ? (1 - (key.length - token.length) / key.length) * 0.15 : 1;
        const s = src.tf(key, d) * idf * norm * pen;
        ts[d] = own(ts, d) ? ts[d] + s : s;
      }
    }
    scores = merge(scores, ts, op);
  }
  scores = scores || obj();
  for (const d of Object.keys(scores)) if (own(docTokens, d)) scores[d] = scores[d] * docTokens[d].length / query.length;
  return scores;
}
const astral = (t) => /[\ud800-\udfff]/.test(t);

function c10(q) {
  let known = 0, knownEx = null, terms = 0, searches = 0, hits = 0;
  const ix = JSON.parse(q.json);
  const bad = (m) => ({ diff: m });
  if (q.code !== null) {
    const want = registered(q.code);
    if (JSON.stringify(ix.pipeline) !== JSON.stringify(want)) return bad(`pipeline ${show(ix.pipeline)} cannot be loaded, the plugin registers ${show(want)}`);
  }
  if (!Array.isArray(ix.fields) || JSON.stringify(ix.fields) !== JSON.stringify(q.fields)) return bad(`fields are ${show(ix.fields)}`);
  if (ix.ref !== q.ref) return bad(`ref is ${show(ix.ref)}`);
  const st = ix.documentStore;
  const n = Object.keys(q.tokens).length;
  for (const f of q.fields) {
    if (f === q.ref) continue;
    if (!own(ix.index, f)) return bad(`field ${show(f)} has no inverted index`);
    const inv = ix.index[f];
    // from the documents themselves
    const post = new Map();
    for (const d of Object.keys(q.tokens)) {
      if (!own(q.tokens[d], f)) continue;
      const m = q.tokens[d][f];
      for (const t of m) {
        if (!post.has(t)) post.set(t, new Map());
        const p = post.get(t);
        p.set(d, (p.get(d) || 0) + 1);
      }
    }
    for (const [t, p] of post) {
      terms++;
      let node = getNode(inv, t);
      if (node === undefined && astral(t)) {
        node = getNodeByCodePoint(inv, t);
        if (node !== undefined && q.known) { known++; knownEx = knownEx || `term ${show(t)} of field ${show(f)}`; }
        else return bad(`term ${show(t)} of field ${show(f)} (outside the BMP) is not reachable`);
      }
      if (node === undefined) return bad(`term ${show(t)} of field ${show(f)} is not reachable`);
      const got = Object.keys(node.docs);
      if (got.length !== p.size || got.some((d) => !p.has(d))) return bad(`term ${show(t)} of field ${show(f)} lists ${show(got)}, expected ${show([...p.keys()])}`);
      for (const [d, c] of p) if (node.docs[d].tf !== Math.sqrt(c)) return bad(`weight of ${show(t)} in field ${show(f)} for ${show(d)} is ${node.docs[d].tf}, expected sqrt(${c})`);
      if (node.df !== p.size) return bad(`document frequency of ${show(t)} in field ${show(f)} is ${node.df}, expected ${p.size}`);
    }
    const all = [...post.keys()];
    const viaIndex = {
      docs: (t) => Object.keys(getDocs(inv, t)), tf: (t, d) => getTf(inv, t, d), df: (t) => getDf(inv, t),
      len: (d) => (own(st.docInfo, d) && own(st.docs, d) && own(st.docInfo[d], f) ? st.docInfo[d][f] : 0), n: () => st.length, expand: (t) => expandToken(inv, t),
    };
    const brute = {
      docs: (t) => (post.has(t) ? [...post.get(t).keys()] : []), tf: (t, d) => Math.sqrt(post.get(t).get(d)), df: (t) => (post.has(t) ? post.get(t).size : 0),
      len: (d) => (own(q.tokens[d], f) ? q.tokens[d][f] : []).length, n: () => n, expand: (t) => (t === '' ? [] : all.filter((x) => x.startsWith(t))),
    };
    for (const { terms: qt, op, expand } of q.queries) {
      const query = qt.map((x) => (typeof x === 'number' ? all[x % Math.max(1, all.length)] || 'zzz' : x)).map((x) => x);
      if (query.some(astral) || (expand && query.some((t) => brute.expand(t).some(astral)))) continue;
      const a = fieldSearch(viaIndex, query, op, expand), b = fieldSearch(brute, query, op, expand);
      searches++;
      const ka = Object.keys(a).sort(), kb = Object.keys(b).sort();
      hits += kb.length;
      if (JSON.stringify(ka) !== JSON.stringify(kb)) return bad(`searching ${show(query)} (${op}${expand ? ', expand' : ''}) in field ${show(f)} finds ${show(ka)}, the documents containing it are ${show(kb)}`);
      for (const d of ka) if (!(Math.abs(a[d] - b[d]) <= 1e-9 * Math.max(1, Math.abs(b[d])))) return bad(`searching ${show(query)} (${op}${expand ? ', expand' : ''}) in field ${show(f)} scores ${show(d)} ${a[d]}, computed from the documents ${b[d]}`);
    }
  }
  return { diff: null, known, knownEx, terms, searches, hits };
}

// ---------------------------------------------------------------- Arabic

let arStem = null;
function loadAr() {
  const src = fs.readFileSync(path.join(repo, 'js/lunr.ar.js'), 'utf8');
  const lunr = { Pipeline: { registerFunction() {} } };
  const m = { exports: {} };
  new Function('module', 'exports', 'self', 'define', src)(m, m.exports, {}, undefined);
  m.exports(lunr);
  return lunr.ar.stemmer;
}
function c18(q) {
  if (!arStem) arStem = loadAr();
  return { stems: q.tokens.map((t) => { const r = arStem(t); return r === undefined || r === null ? '' : r; }) };
}

const handler = { c10, c11, c18 }[mode];
let parts = [];
// split at \n only (readline would also split at U+2028)
process.stdin.setEncoding('utf8');
process.stdin.resume();
process.stdin.on('data', (d) => {
  let i, from = 0;
  while ((i = d.indexOf('\n', from)) >= 0) {
    parts.push(d.slice(from, i));
    from = i + 1;
    const line = parts.join('');
    parts = [];
    let r;
    try { r = handler(JSON.parse(line)); } catch (e) { r = { oracle_error: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(r).toWellFormed() + '\n');
  }
  if (from < d.length) parts.push(d.slice(from));
});
process.stdin.on('end', () => process.exit(0));
