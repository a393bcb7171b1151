#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'runtime monitor: recorded indexing runs against a reference model of the postings, both directions',
 'C02': 'runtime monitor: emitted weights and frequencies against counts taken from the documents',
 'C03': 'runtime monitor: add/remove histories against a map model after every step',
 'C04': 'runtime monitor: stored documents against the values given',
 'C05': 'runtime monitor: conservation of the document count over histories',
 'C06': 'runtime monitor: recorded field lengths against an independent token count, over histories',
 'C07': 'runtime monitor: metamorphic comparison (order of documents, other fields, other documents)',
 'C08': 'runtime monitor: histories with removals against the index of the documents that remain',
 'C09': 'runtime monitor: independent strict JSON parser and shape checker on every emitted index',
 'C10': 'runtime monitor: an independent reader of elasticlunr.js\'s format loads and searches every emitted index (node)',
 'C11': 'runtime monitor: differential against elasticlunr.js\'s English pipeline and index (node)',
 'C12': 'runtime monitor: panic, abort, stack-overflow and CPU-time watch over hostile texts',
 'C13': 'runtime monitor: pipeline output against a reference composition of stages',
 'C14': 'runtime monitor: tokens against a reference splitter, and split/join law',
 'C15': 'runtime monitor: trimmer output against a reference trimmer',
 'C16': 'runtime monitor: stop-word decisions against the frozen published lists',
 'C17': 'runtime monitor: stems against Snowball called directly, or identity',
 'C18': 'runtime monitor: differential against the bundled JavaScript stemmer (node)',
 'C19': 'runtime monitor: segmentation against jieba called directly plus the documented filtering',
 'C20': 'runtime monitor: morphemes against lindera called directly plus the documented filtering',
 'C21': 'runtime monitor: event log of recording pipeline functions against the trace specification',
 'C22': 'runtime monitor: event log of recording tokenizers and pipelines against the trace specification',
 'C23': 'runtime monitor: builder histories against a set model',
 'C24': 'runtime monitor: registry observed in many feature builds against the documented table',
 'C25': 'runtime monitor: byte comparison across repetitions, threads, processes and histories',
 'C26': 'runtime monitor: search options against a model of elasticlunr.js\'s configuration format, round trips',
 'C28': 'AddressSanitizer and ThreadSanitizer builds of the monitors, Miri with several scheduling seeds, UTF-8 check of every returned string',
 'C29': 'runtime monitor: CPU time, allocations and live bytes of every operation at growing sizes (counting allocator)',
 'C30': 'runtime monitor: JSON written, broken and damaged at random, loaded four ways, against the value it denotes',
 'C31': 'runtime monitor: things made in two equivalent ways, compared',
 'C32': 'runtime monitor with injected panics in user code; index compared with one in which nothing failed',
 'C33': 'runtime monitor: stages with random parameters against their definition and the rust-stemmers crate',
 'C34': 'runtime monitor: one workload\'s results compared between builds with other features and profiles',
 'C35': 'runtime monitor: every route of serialization compared; failing writers, recording and failing serializers',
 'C27': 'runtime monitor: loaded structures against the originals, then both driven on alike',
}
NOTE = 'Held on the executions of this run only (see coverage); trusts the monitor\'s reference model'
EXTRA = {'C10': ' and a JavaScript reader written from elasticlunr.js 0.9.5', 'C11': ' and a JavaScript copy of elasticlunr.js 0.9.5\'s algorithms, checked against the fixtures', 'C18': ' and js/lunr.ar.js',
         'C17': ' and the rust-stemmers crate', 'C19': ' and the jieba-rs crate', 'C20': ' and the lindera crate', 'C16': ' and the stop-word lists frozen from the pinned commit after comparison with the fixtures'}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: everything the properties speak about is visible through the public API and the JSON. Every check builds /verif/mon (or /verif/regcheck) against /repo\'s working tree with cargo --offline.'}
for p in props:
    i = p['id']
    m['checks'].append({'property': i, 'quick_cmd': f'VERIF_TIER=quick python3 run.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 run.py {i}',
                        'evidence_file': f'evidence/{i}.json', 'technique': T[i], 'level': 'exploration', 'level_note': NOTE + EXTRA.get(i, '') + '.'})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
