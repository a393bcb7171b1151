#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

LIB, INV, STORE, PIPE, CFG = 'src/lib.rs', 'src/inverted_index.rs', 'src/document_store.rs', 'src/pipeline.rs', 'src/config.rs'
LMOD, COM, EN, AR, ZH, JA = 'src/lang/mod.rs', 'src/lang/common.rs', 'src/lang/en.rs', 'src/lang/ar.rs', 'src/lang/zh.rs', 'src/lang/ja.rs'

p('C01', 'A term is indexed for a document field exactly when the text contains it',
  'After any sequence of documents with distinct references has been added, the emitted index lists document d under term t of field f if and only if tokenizing d\'s text for f and running the pipeline over it yields t. Nothing is lost, nothing is invented, and no term leaks between fields or between documents.',
  ['inputs', 'histories'], 'Every sequence of documents with distinct references, every set of fields, every text, every language.',
  'The tests look at three one-document indexes and two fixtures; a field leak of exactly this kind shipped until 3.1.0.',
  [LIB, INV], [('per-field token frequency map feeds one posting per distinct token', 'src/lib.rs Index::add_doc'), ('trie insertion character by character', 'src/inverted_index.rs IndexItem::add_token')],
  ['Index::to_json'], [('index', 'field -> trie of postings', 'src/lib.rs Index')])
p('C02', 'Term frequencies and document frequencies in the index are exact',
  'In the emitted index, the weight of term t for document d in field f is the square root (as a double) of the number of times t occurs among the field\'s processed tokens, and the document frequency of t in f is the number of documents listed under it. This holds at any scale: long texts, heavily repeated words, many documents, many fields.',
  ['inputs', 'histories'], 'Every sequence of documents with distinct references; repetition counts and document counts from 1 to tens of thousands.',
  'Tests check counts 1 and 3 in one document; ranking silently degrades when counts are wrong for other sizes.',
  [LIB, INV], [('count per token, then sqrt', 'src/lib.rs Index::add_doc'), ('doc_freq incremented once per new document', 'src/inverted_index.rs IndexItem::add_token')],
  ['Index::to_json'])
p('C03', 'The inverted index answers like a map under any add/remove history',
  'After any sequence of adding and removing (document, token) pairs on an inverted index, the documents, the term frequency (the last one given) and the document frequency it reports for every token are those of a plain map from token to documents, and a token is known exactly when it is a prefix of a token ever added. Removing a pair affects that pair only; removing what is not there changes nothing.',
  ['histories', 'inputs'], 'Every sequence of add/remove operations over arbitrary Unicode tokens (non-empty, prefixes of each other, in and outside the BMP) and references.',
  'Unit tests apply at most five operations on two or three ASCII tokens.',
  [INV], [('recursive removal keeps doc_freq and docs in step', 'src/inverted_index.rs IndexItem::remove_token'), ('lookup walks the trie', 'src/inverted_index.rs IndexItem::get_node')],
  ['InvertedIndex::{has_token,get_docs,get_term_frequency,get_doc_frequency}', 'its JSON'])
p('C04', 'Document texts are stored verbatim, or not at all when saving is off',
  'With document saving on, every added document is stored under its reference with each provided field\'s text unchanged, plus the reference itself under the reference field\'s name. With saving off, the output registers every document but holds none of its text.',
  ['inputs', 'histories', 'configurations'], 'Every document sequence, every text (empty, huge, any Unicode, control characters), every reference-field name, saving on and off.',
  'Tests store two short ASCII documents and never serialize an index with saving off.',
  [LIB, STORE], [('document map filled from the given values', 'src/lib.rs Index::add_doc'), ('an empty map is stored when saving is off', 'src/document_store.rs DocumentStore::add_doc')],
  ['Index::to_json documentStore.docs', 'DocumentStore::get_doc'])
p('C05', 'The document count always equals the number of stored documents',
  'After any history of adding, re-adding and removing documents, the published document count equals the number of distinct documents currently held, and membership, emptiness, lookup and the emitted JSON all agree with it.',
  ['histories'], 'Every sequence of add/re-add/remove operations on a document store, and of document additions (with repeated references) on an index.',
  'The count is a redundant counter kept beside the map; tests compare them after at most three operations and never after a re-add.',
  [STORE, LIB], [('length adjusted only when membership changes', 'src/document_store.rs add_doc/remove_doc')],
  ['DocumentStore::{len,is_empty,has_doc,get_doc}', 'documentStore.length in the JSON'], [('length', 'published document count', 'src/document_store.rs DocumentStore')])
p('C06', 'Recorded field lengths equal the number of indexed tokens',
  'For every document and every provided field other than the reference field, the recorded field length is the number of tokens (with repetitions) that processing the field\'s text yields, and no other length is recorded. On a document store, the length reported for a document and field is the last one recorded since the reference was last removed (held or not), and zero for documents it does not hold.',
  ['inputs', 'histories'], 'Every document sequence and text; every add/remove/record-length history of a document store.',
  'Tests record two lengths by hand; nothing checks the lengths an index records. elasticlunr.js divides scores by the square root of these numbers.',
  [LIB, STORE], [('add_field_length(tokens.len())', 'src/lib.rs Index::add_doc'), ('doc_info is removed with the document', 'src/document_store.rs remove_doc')],
  ['documentStore.docInfo in the JSON', 'DocumentStore::get_field_length'])
p('C07', 'Re-adding a reference updates the document instead of duplicating it',
  'Adding a document again with identical content leaves the emitted index byte for byte unchanged. Adding it with different content replaces its stored text, its field lengths for the fields given and the weights of the terms the new text contains, and still counts it once in the document count and once in each term\'s document frequency.',
  ['histories'], 'Every history in which references repeat, any number of times and interleaved with other documents.',
  'Only the bare inverted index is tested with a repeated reference; no test re-adds a document to an index.',
  [LIB, INV, STORE], [('doc_freq grows only for a new reference', 'src/inverted_index.rs add_token'), ('map insertion replaces', 'src/document_store.rs add_doc, add_field_length')],
  ['Index::to_json'])
p('C08', 'Documents are independent: insertion order and neighbours do not matter',
  'For documents with distinct references, the emitted index is the same bytes whatever order they are added in. Each document contributes to an index exactly what it contributes to an index of its own: postings and lengths are the union over documents, and document frequencies are the sums.',
  ['histories', 'inputs'], 'Every set of documents with distinct references and every permutation of it.',
  'Tests build each index once in one order.',
  [LIB, INV, STORE], [('ordered maps keyed by reference/term', 'BTreeMap throughout'), ('no state carried from one add_doc to the next', 'src/lib.rs Index::add_doc')],
  ['Index::to_json of permuted and of single-document indexes'])
p('C09', 'The emitted JSON is always valid and complete elasticlunr.js index JSON',
  'Whatever the references, field names, texts and settings are, both serializations are valid JSON denoting the same value, without duplicate keys, and carry exactly the structure elasticlunr.js 0.9.5 loads: version, fields in order, reference field, pipeline names, one term trie per field whose nodes have documents, document frequency and one-character children, and the document store with saved flag, documents, lengths and count, plus the language name.',
  ['inputs', 'configurations'], 'Every index: names, references and texts drawn from all of Unicode including quotes, control characters and names that collide with structural keys.',
  'Two fixtures of plain text are compared by value; escaping, odd keys and the compact/pretty pair are never examined.',
  [LIB, INV, STORE, PIPE], [('serde renames and flatten', 'src/lib.rs Index, src/inverted_index.rs IndexItem::serialize'), ('pipeline serialized as names', 'src/pipeline.rs')],
  ['Index::to_json', 'Index::to_json_pretty', 'serde_json::to_value(&Index)'])
p('C10', 'elasticlunr.js can load the index and find every document by its terms',
  'For every index, a consumer that follows elasticlunr.js 0.9.5 can load the JSON (every pipeline function it names is the one the language plugin registers), reaches every indexed term by walking the trie one JavaScript string element at a time, and reads there each document\'s weight and the document frequency. Searching for a term returns exactly the documents that contain it, with the scores elasticlunr.js computes from the documents themselves.',
  ['inputs', 'histories'], 'Every index and every query made of indexed and non-indexed terms, all languages.',
  'No test runs a consumer of the format at all.',
  [INV, LIB, LMOD], [('children keyed by character', 'src/inverted_index.rs IndexItem'), ('stage names', 'src/lang/*.rs make_pipeline')],
  ['Index::to_json loaded by a JavaScript consumer'])
p('C11', 'English processing equals elasticlunr.js token for token',
  'For every text (U+0085, which only one of the two platforms calls white space, aside) the English tokenizer, trimmer, stop word filter and stemmer yield exactly the token sequence that elasticlunr.js 0.9.5 yields, so that a term indexed here is the term the JavaScript search computes for the same word. Consequently an English index equals the one elasticlunr.js would build itself from the same documents.',
  ['inputs'], 'Every word and every text.',
  'About 170 words and one chapter of prose are compared; five stemmer divergences or panics were fixed in the last releases, each found in the field.',
  [EN, LMOD, COM], [('hand-written Porter stemmer over bytes', 'src/lang/en.rs PorterStemmer'), ('whitespace/hyphen tokenizer', 'src/lang/mod.rs tokenize_whitespace')],
  ['Pipeline::run(Language::tokenize(text))', 'Index::to_json'])
p('C12', 'No text makes any part of the library panic, abort or hang',
  'For every language and every document text, tokenizing, running the pipeline or any single stage of it, adding the document, querying and serializing the result complete without panicking, aborting or looping. The same holds for every lookup and removal with arbitrary arguments.',
  ['inputs', 'histories'], 'Every Unicode string as text, token, reference, field name, language name or code; tokens from empty to very long.',
  'The stemmer panicked on "ion", "eing" and "aतed" in released versions while the tests passed; the shipped fuzz target covers English only and is not run by the tests.',
  [EN, LMOD, COM, AR, ZH, JA, LIB, INV, STORE], [('index arithmetic in the stemmer guarded by length checks', 'src/lang/en.rs'), ('unwrap() only on infallible results', 'src/lang/*.rs'), ('recursive trie', 'src/inverted_index.rs')],
  ['panics, process aborts, CPU time per text'])
p('C13', 'Built-in languages only emit well-formed index terms',
  'For every text and every built-in language, each token that comes out of tokenizer and pipeline is non-empty and contains no white space; for the languages that split on white space it also contains no hyphen and is already in lower case. Hence a query, which elasticlunr.js lower-cases and splits the same way, can always be equal to an indexed term.',
  ['inputs'], 'Every text in every built-in language.',
  'Fixtures contain ordinary prose only.',
  [LMOD, COM, EN, AR, ZH, JA], [('lowercasing and splitting before the pipeline', 'src/lang/mod.rs tokenize_whitespace'), ('empty results dropped', 'src/lang/common.rs filters')],
  ['Pipeline::run(Language::tokenize(text))'])
p('C14', 'Words split at every white space and hyphen, lower-cased, in order, none lost',
  'For every language that separates words by white space, tokenizing a text yields exactly its maximal runs of characters other than white space, U+FEFF and the hyphen-minus, each lower-cased, in order and with repetitions. Tokenizing two texts joined by a separator therefore yields the tokens of the first followed by the tokens of the second.',
  ['inputs'], 'Every text, in each of the seventeen languages using this tokenizer.',
  'Four ASCII sentences are tested.',
  [LMOD, 'src/lang/*.rs'], [('split/filter/lowercase', 'src/lang/mod.rs tokenize_whitespace')],
  ['Language::tokenize', 'lang::tokenize_whitespace'])
p('C15', 'Trimming removes only surrounding non-word characters',
  'For every language with a trimmer, a token is reduced to what remains after removing its leading and trailing characters that are not word characters of the language\'s script, the interior being kept unchanged; a token without word characters disappears. Surrounding a word with such characters never changes which term it is indexed under.',
  ['inputs'], 'Every token, in every language with a trimmer; the word characters are letters of the language\'s script(s) (ASCII letters, digits and underscore for English).',
  'Six English and one Japanese example are tested.',
  [COM, EN, 'src/lang/*.rs'], [('anchored regex replace', 'src/lang/common.rs RegexTrimmer'), ('trim_matches', 'src/lang/en.rs trimmer')],
  ['the trimmer stage of Language::make_pipeline', 'Pipeline::run'])
p('C16', 'Stop words, and only stop words, are dropped from the index',
  'For every language with a stop word list, a word of the list (as published for this version), alone or surrounded by punctuation, in any letter case that lower-cases to it, yields no term. Any other word that has word characters yields a term: being similar to, a prefix or an extension of a stop word never drops it.',
  ['inputs'], 'Every word of each of the seventeen lists and every other word.',
  'Tests touch the handful of stop words present in fixtures.',
  [COM, EN, ZH, 'src/lang/*.rs'], [('exact set membership', 'src/lang/common.rs StopWordFilter')],
  ['the stop word stage', 'Pipeline::run(Language::tokenize(text))'])
p('C17', 'Each language stems with its own Snowball algorithm after trimming and filtering',
  'For each Snowball-based language, the term a word is indexed under is the result of that language\'s Snowball stemmer applied to the trimmed word, provided the trimmed word is not a stop word; Korean words are indexed as trimmed, unstemmed. Order and presence of the three steps are the same for every word.',
  ['inputs'], 'Every word in each of the fourteen Snowball languages and Korean.',
  'One page of prose per language.',
  [COM, 'src/lang/*.rs'], [('RustStemmer with a per-language algorithm', 'src/lang/common.rs RustStemmer'), ('queue order', 'src/lang/*.rs make_pipeline')],
  ['Pipeline::run', 'stages of Language::make_pipeline'])
p('C18', 'Arabic normalization equals the bundled JavaScript',
  'For every Arabic text, the terms are exactly those the bundled JavaScript language plugin produces for its words: every elongation mark and diacritic removed and every variant of alef replaced by the plain alef, at all positions, nothing else changed.',
  ['inputs'], 'Every text.',
  'A page of mostly unvocalized text; a word with two marks is not in it.',
  [AR, 'js/lunr.ar.js'], [('regex replacement', 'src/lang/ar.rs Stemmer::filter')],
  ['Pipeline::run(Language::tokenize(text))', 'js/lunr.ar.js run by node'])
p('C19', 'Chinese terms are the search-mode segments of the text, trimmed and filtered',
  'For every text, the Chinese terms are the segments jieba\'s search mode cuts the text into, in order, trimmed to ideographs and Latin letters at both ends, minus the stop words and the segments with nothing left; each is a substring of the text.',
  ['inputs'], 'Every text.',
  'One page of prose.',
  [ZH], [('jieba cut_for_search', 'src/lang/zh.rs tokenize')],
  ['Language::tokenize', 'Pipeline::run'])
p('C20', 'Japanese terms are the content words of the text, trimmed',
  'For every text, the Japanese terms are the morphemes of the text in decompose mode, in order, without particles, auxiliary verbs, symbols and unknown words, trimmed to word characters at both ends; each is a substring of the text. All Japanese language objects with the default configuration behave alike.',
  ['inputs'], 'Every text.',
  'Two pages of prose.',
  [JA], [('lindera in decompose mode with part-of-speech filter', 'src/lang/ja.rs tokenize')],
  ['Language::tokenize', 'Pipeline::run'])
p('C21', 'A pipeline applies its functions in order to every token, and drops on None',
  'For every list of functions and every list of tokens, running a pipeline yields, in the order of the input, for each token the result of passing it through all functions in order; a token for which a function returns nothing is dropped and reaches no later function. The serialized pipeline lists the functions\' names in the same order.',
  ['inputs', 'configurations'], 'Every pipeline of user-supplied functions (dropping, growing, emptying tokens) and every token list, including duplicates and empty tokens.',
  'Only built-in three-stage pipelines are run in tests.',
  [PIPE], [('run loop', 'src/pipeline.rs Pipeline::run'), ('Serialize', 'src/pipeline.rs')],
  ['an event log of every function call', 'Pipeline::run result', 'JSON'])
p('C22', 'Each field is tokenized by its own tokenizer, and the reference field not at all',
  'For every mix of fields with and without a custom tokenizer, the tokens indexed for a field come from that field\'s custom tokenizer if it has one and from the language\'s tokenizer otherwise, applied to that field\'s text unchanged, and always pass through the language\'s pipeline. A field named like the reference field is stored but never tokenized nor indexed.',
  ['configurations', 'inputs'], 'Every sequence of builder calls mixing both kinds of fields, every language implementation, every reference-field name.',
  'No test uses a custom tokenizer, a custom language or a custom reference field.',
  [LIB], [('parallel vectors of fields and tokenizers', 'src/lib.rs IndexBuilder/Index'), ('ref field skipped', 'src/lib.rs Index::add_doc')],
  ['an event log of tokenizer and pipeline calls', 'Index::to_json'])
p('C23', 'Fields keep their order and duplicate fields are always rejected',
  'Building an index panics if and only if two fields have exactly the same name, whichever way they were added. Otherwise the index reports and emits the fields in the order they were added, and values passed to it are matched to fields in that order; the reference name, save setting and language are those last set.',
  ['configurations', 'inputs'], 'Every sequence of builder calls and every constructor; names that differ only by case or white space, empty names, many fields.',
  'One duplicate through one constructor is tested; field order was broken until 3.0.0.',
  [LIB], [('contains check in both add methods', 'src/lib.rs IndexBuilder')],
  ['Index::get_fields', 'Index::to_json', 'panics'])
p('C24', 'The language registry is complete and consistent in every feature configuration',
  'In every feature configuration, the list of languages is English plus exactly the enabled ones, each once; looking a language up by its own name, or by its own code in any ASCII letter case, returns that language, and looking up anything else returns nothing. Names and codes are the documented ones.',
  ['configurations', 'inputs'], 'Every subset of the eighteen language features; every string as name or code.',
  'Tests run with all features only and iterate the list without using the lookups.',
  [LMOD, 'Cargo.toml', 'src/lang/*.rs'], [('impl_language macro', 'src/lang/mod.rs')],
  ['lang::languages', 'lang::from_name', 'lang::from_code', 'Language::{name,code}'])
p('C25', 'Results are deterministic, stateless and independent of concurrent use',
  'The same documents and settings give byte-identical JSON in every run, process and thread, also while other indexes are being built concurrently. What a tokenizer or pipeline returns for a text depends on the text alone, not on what the same or another instance processed before.',
  ['histories', 'schedules', 'inputs'], 'Every history of earlier work on shared and fresh instances, every interleaving of independent builds on several threads, every process.',
  'Tests build each index once per process and never reuse a pipeline.',
  [LIB, PIPE, LMOD, COM, EN], [('ordered maps in everything serialized', 'src/*.rs'), ('filters without interior state', 'src/lang/common.rs')],
  ['to_json from repeated, concurrent and separate-process builds'])
p('C26', 'Search options serialize to the configuration elasticlunr.js reads, and back',
  'Every search configuration serializes to JSON with exactly the elasticlunr.js keys and values (boolean model "OR"/"AND", expansion flag, per-field settings with unset ones omitted) and deserializes to an equal value, in any key order and with unset per-field settings omitted or null. Unknown boolean models are rejected.',
  ['inputs', 'configurations'], 'Every combination of settings for any number of arbitrarily named fields.',
  'Two literal configurations are serialized; deserialization is never tested.',
  [CFG], [('serde attributes', 'src/config.rs')],
  ['serde_json to/from SearchOptions'])
p('C27', 'What is serialized can be loaded back unchanged',
  'Every inverted index and every document store deserializes from its own JSON to an equal value that serializes to the same bytes and continues to behave identically under further operations. An index, whose type claims to be deserializable, loads from the JSON it emits.',
  ['inputs', 'histories'], 'Every reachable inverted index (tokens up to 100 characters, the depth serde_json reads by default) and document store; every index of a built-in language.',
  'No test deserializes any of these types.',
  [INV, STORE, LIB, PIPE], [('derived Deserialize with flattened children', 'src/inverted_index.rs'), ('derived Deserialize', 'src/document_store.rs, src/lib.rs, src/pipeline.rs')],
  ['serde_json round trip'])

p('C28', 'Safe use never causes undefined behaviour, memory errors or data races',
  'Whatever safe calls a program makes, from one thread or several, the library makes no out-of-bounds or use-after-free access, no data race and has no other undefined behaviour, and every string it returns is valid UTF-8. Inverted indexes and document stores can be read by several threads at the same time, and every reader sees the same contents; independent work on several threads gives what it gives alone.',
  ['inputs', 'schedules', 'histories'], 'Every text, every sequence of calls, every interleaving of threads.',
  'No test runs under a sanitizer or uses more than one thread at a time on purpose; the stemmer works on bytes of UTF-8.',
  [EN, INV, STORE, LIB, PIPE, LMOD, COM, CFG], [('byte-wise stemmer buffer turned back into a string', 'src/lang/en.rs get'), ('no unsafe code, no shared mutable state', 'src')],
  ['returned strings and values', 'AddressSanitizer, ThreadSanitizer and Miri reports'])
p('C29', 'Work and memory stay in proportion to the input, and dropped values are released',
  'For words of up to some twenty characters, adding, updating, serializing, loading and removing documents takes CPU time and memory in proportion to the amount of text, up to a logarithmic factor: adding, looking up or removing one document or token does not slow down in proportion to how much there is already. Adding and removing the same documents over and over does not make the structures grow, and once everything made is dropped no memory stays allocated.',
  ['inputs', 'histories'], 'Every collection of documents of any size, every language, every history.',
  'Tests index two or three short documents.',
  [LIB, INV, STORE, PIPE, LMOD, COM, EN], [('ordered maps, one pass over the tokens', 'src/lib.rs Index::add_doc'), ('one tree step per character', 'src/inverted_index.rs')],
  ['CPU time, allocations, bytes held of the public operations at growing sizes'])
p('C30', 'Loading JSON never panics and yields exactly the value it denotes',
  'Whatever the bytes, reading an inverted index, a document store or a search configuration from JSON gives a value or an error, never a panic. JSON that denotes such a value is accepted in any order of members, with any white space, escapes and notation of numbers, with unknown members beside the known ones of a document store or configuration, from a string, from bytes, from a reader or from a parsed value, and the loaded value is exactly the one denoted. If a member of an inverted index or document store is missing or has the wrong type, or a key of a tree node that should be one character is not, it is rejected.',
  ['inputs'], 'Every text; every inverted index (tokens up to 100 characters), document store and configuration in every notation.',
  'No test deserializes any of these types, least of all from JSON somebody else wrote.',
  [INV, STORE, CFG], [('derived Deserialize', 'src/inverted_index.rs, src/document_store.rs, src/config.rs')],
  ['serde_json from_str, from_slice, from_reader, from_value', 'queries on the loaded value'])
p('C31', 'Equivalent ways of making things give equal things',
  'An index is the same whether made by Index::new, Index::with_language or IndexBuilder, in whatever order the builder is called (the last setting counts, fields keep their order), and whichever containers, string types or iterators its fields and values come in. A language behaves the same whether made by new, by default, by cloning, by code, by name or taken from the list of languages, and clones of document stores and wrapped functions behave like the original and are independent of it. Two inverted indexes are equal exactly if they have the same tree with the same documents and frequencies, however they came about.',
  ['inputs', 'configurations', 'histories'], 'Every configuration, order of calls, container and history.',
  'Tests build an index in one way each and hardly use clones, defaults or equality.',
  [LIB, LMOD, COM, STORE, INV, PIPE, ZH, JA], [('IndexBuilder, Index::new, with_language, add_doc', 'src/lib.rs'), ('impl_language', 'src/lang/mod.rs'), ('derived Clone, Default, PartialEq', 'src/*.rs')],
  ['Index::to_json', 'Language, PipelineFn', '==, clone'])
p('C32', 'A panic in the user\'s code while adding a document leaves the index usable',
  'If a tokenizer, pipeline function, iterator or value of the user panics in the middle of adding a document, or more values are given than there are fields, and the panic is caught, the index still serializes, every other document keeps its stored fields, lengths and terms, every document frequency is still the number of documents listed, and adding the same document again gives the index in which nothing failed.',
  ['fault_sequences', 'inputs', 'histories'], 'Every call of user code as the point of failure, repeated failures, every document and configuration, first additions and additions in place of an earlier version.',
  'No test injects a failure.',
  [LIB, INV, STORE, PIPE], [('Index::add_doc works field by field', 'src/lib.rs'), ('InvertedIndex::add_token', 'src/inverted_index.rs')],
  ['Index::to_json after a caught panic'])
p('C33', 'The reusable stages do what they are made for, in any language built from them',
  'A StopWordFilter drops exactly the tokens equal to one of the words it was made with and passes every other one unchanged; a RegexTrimmer removes the characters outside its class from both ends; a RustStemmer gives the Snowball stem of its algorithm; what is left empty is dropped, and each reports the name it was given. The white-space tokenizer splits at white space and hyphens and lower-cases. A language a user puts together from them, in any order, indexes exactly the terms these stages yield one after another.',
  ['inputs', 'configurations'], 'Every list of words, class of characters, algorithm, order of stages and text.',
  'Tests only use the stages as the built-in languages configure them.',
  [COM, LMOD, PIPE, LIB], [('StopWordFilter, RegexTrimmer, RustStemmer', 'src/lang/common.rs'), ('tokenize_whitespace', 'src/lang/mod.rs'), ('Pipeline::run', 'src/pipeline.rs')],
  ['PipelineFn::filter', 'Index::to_json'])
p('C34', 'What a program gets does not depend on enabled features or build profile',
  'For every set of enabled language features and every build profile (with or without optimization, debug assertions and overflow checks), an enabled language tokenizes, processes and indexes every text alike. Inverted indexes, document stores, the reusable stages and search options behave alike in every such build.',
  ['configurations', 'inputs', 'histories'], 'Every subset of the language features, every profile, every text and history of operations.',
  'The tests run in one configuration (all features, debug assertions on), which is not the one anybody ships.',
  [LIB, LMOD, COM, EN, INV, STORE, PIPE, CFG], [('cfg(feature) on modules and registry only', 'src/lang/mod.rs, Cargo.toml'), ('no side effects in assertions', 'src/*.rs')],
  ['outputs of the same workload in different builds'])
p('C35', 'Serializing gives the same value by every route and fails cleanly',
  'An index, inverted index, document store or search configuration gives the same JSON as a string, as bytes, pretty-printed, as a parsed value, into any writer, nested in other values and, for an index, by to_json, and any other serializer sees the same value with exactly the announced number of members, each once. When the writer or the serializer fails, at whatever point, an error is reported and nothing panics; serializing changes nothing.',
  ['fault_sequences', 'inputs', 'histories'], 'Every value, every kind of serializer (human readable or not), every point of failure.',
  'Tests serialize to one string and never to a writer that fails.',
  [LIB, INV, STORE, PIPE, CFG], [('IndexItem: Serialize by hand', 'src/inverted_index.rs'), ('Pipeline: Serialize by hand', 'src/pipeline.rs'), ('derived Serialize', 'src/lib.rs, src/document_store.rs, src/config.rs'), ('to_json, to_json_pretty', 'src/lib.rs')],
  ['serde_json routes', 'calls a recording Serializer receives'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w', encoding='utf8') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
