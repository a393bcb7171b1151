'use strict';
// Reference consumer/producer: the parts of elasticlunr.js 0.9.5 (the version this crate
// says it is compatible with) that decide what an index contains and what a search on it
// returns.  Written down from the published algorithm; nothing here reads the Rust sources.

const EN_STOP = require('./stop_en.json');
const EN_STOP_SET = new Set(EN_STOP);

const SEPARATOR = /[\s\-]+/;
function tokenizer(str) {
  return str.toString().trim().toLowerCase().split(SEPARATOR);
}

function trimmer(token) { return token.replace(/^\W+/, '').replace(/\W+$/, ''); }
function stopWordFilter(token) { if (token && !EN_STOP_SET.has(token)) return token; }

const stemmer = (function () {
  const step2list = {
    ational: 'ate', tional: 'tion', enci: 'ence', anci: 'ance', izer: 'ize', bli: 'ble',
    alli: 'al', entli: 'ent', eli: 'e', ousli: 'ous', ization: 'ize', ation: 'ate',
    ator: 'ate', alism: 'al', iveness: 'ive', fulness: 'ful', ousness: 'ous', aliti: 'al',
    iviti: 'ive', biliti: 'ble', logi: 'log',
  };
  const step3list = {
    icate: 'ic', ative: '', alize: 'al', iciti: 'ic', ical: 'ic', ful: '', ness: '',
  };
  const c = '[^aeiou]', v = '[aeiouy]', C = c + '[^aeiouy]*', V = v + '[aeiou]*';
  const re_mgr0 = new RegExp('^(' + C + ')?' + V + C);
  const re_mgr1 = new RegExp('^(' + C + ')?' + V + C + V + C);
  const re_meq1 = new RegExp('^(' + C + ')?' + V + C + '(' + V + ')?$');
  const re_s_v = new RegExp('^(' + C + ')?' + v);
  const re_1a = /^(.+?)(ss|i)es$/, re2_1a = /^(.+?)([^s])s$/;
  const re_1b = /^(.+?)eed$/, re2_1b = /^(.+?)(ed|ing)$/;
  const re_1b_2 = /.$/, re2_1b_2 = /(at|bl|iz)$/;
  const re3_1b_2 = new RegExp('([^aeiouylsz])\\1$');
  const re4_1b_2 = new RegExp('^' + C + v + '[^aeiouwxy]$');
  const re_1c = /^(.+?[^aeiou])y$/;
  const re_2 = /^(.+?)(ational|tional|enci|anci|izer|bli|alli|entli|eli|ousli|ization|ation|ator|alism|iveness|fulness|ousness|aliti|iviti|biliti|logi)$/;
  const re_3 = /^(.+?)(icate|ative|alize|iciti|ical|ful|ness)$/;
  const re_4 = /^(.+?)(al|ance|ence|er|ic|able|ible|ant|ement|ment|ent|ou|ism|ate|iti|ous|ive|ize)$/;
  const re2_4 = /^(.+?)(s|t)(ion)$/;
  const re_5 = /^(.+?)e$/, re_5_1 = /ll$/;
  const re3_5 = new RegExp('^' + C + v + '[^aeiouwxy]$');

  return function porterStemmer(w) {
    let fp, stem, suffix;
    if (w.length < 3) return w;
    const firstch = w.substr(0, 1);
    if (firstch === 'y') w = firstch.toUpperCase() + w.substr(1);

    if (re_1a.test(w)) w = w.replace(re_1a, '$1$2');
    else if (re2_1a.test(w)) w = w.replace(re2_1a, '$1$2');

    if (re_1b.test(w)) {
      fp = re_1b.exec(w);
      if (re_mgr0.test(fp[1])) w = w.replace(re_1b_2, '');
    } else if (re2_1b.test(w)) {
      fp = re2_1b.exec(w);
      stem = fp[1];
      if (re_s_v.test(stem)) {
        w = stem;
        if (re2_1b_2.test(w)) w = w + 'e';
        else if (re3_1b_2.test(w)) w = w.replace(re_1b_2, '');
        else if (re4_1b_2.test(w)) w = w + 'e';
      }
    }

    if (re_1c.test(w)) { fp = re_1c.exec(w); w = fp[1] + 'i'; }

    if (re_2.test(w)) {
      fp = re_2.exec(w); stem = fp[1]; suffix = fp[2];
      if (re_mgr0.test(stem)) w = stem + step2list[suffix];
    }
    if (re_3.test(w)) {
      fp = re_3.exec(w); stem = fp[1]; suffix = fp[2];
      if (re_mgr0.test(stem)) w = stem + step3list[suffix];
    }
    if (re_4.test(w)) {
      fp = re_4.exec(w); stem = fp[1];
      if (re_mgr1.test(stem)) w = stem;
    } else if (re2_4.test(w)) {
      fp = re2_4.exec(w); stem = fp[1] + fp[2];
      if (re_mgr1.test(stem)) w = stem;
    }
    if (re_5.test(w)) {
      fp = re_5.exec(w); stem = fp[1];
      if (re_mgr1.test(stem) || (re_meq1.test(stem) && !re3_5.test(stem))) w = stem;
    }
    if (re_5_1.test(w) && re_mgr1.test(w)) w = w.replace(re_1b_2, '');
    if (firstch === 'y') w = firstch.toLowerCase() + w.substr(1);
    return w;
  };
})();

function pipelineRun(queue, tokens) {
  const out = [];
  for (let token of tokens) {
    for (const fn of queue) {
      token = fn(token);
      if (token === undefined || token === null) break;
    }
    if (token !== undefined && token !== null) out.push(token);
  }
  return out;
}
const enQueue = [trimmer, stopWordFilter, stemmer];
function enTokens(text) { return pipelineRun(enQueue, tokenizer(text)); }

module.exports = { tokenizer, trimmer, stopWordFilter, stemmer, pipelineRun, enQueue, enTokens };
