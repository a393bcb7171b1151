#!/usr/bin/env python3
"""Runs one check: builds the monitors against /repo's working tree, drives them, judges, writes evidence.

usage: run.py PROPERTY        (VERIF_SEED, VERIF_TIER from the environment)
       run.py --setup
exit: 0 held on everything explored; 1 VIOLATION line printed; 2 no verdict (harness error)
"""
import json, os, random, re, resource, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(HERE, 'target')
EVID = os.path.join(HERE, 'evidence')
SEED = int(os.environ.get('VERIF_SEED') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
T0 = time.time()

CJK = {'C12', 'C13', 'C15', 'C16', 'C19', 'C20', 'C25', 'C29', 'C31'}
# how much more than the monitor's own default number of cases
SCALE = {'C01': 4, 'C02': 4, 'C03': 5, 'C04': 3, 'C05': 2, 'C06': 5, 'C07': 1, 'C08': 2, 'C09': 1.5, 'C10': 2.5, 'C11': 5,
         'C12': 1.3, 'C13': 8, 'C14': 5, 'C15': 10, 'C16': 10, 'C17': 6, 'C18': 4, 'C19': 8, 'C20': 1.5, 'C21': 12, 'C22': 3,
         'C23': 12, 'C25': 2, 'C26': 15, 'C27': 20, 'C28': 2, 'C29': 1, 'C30': 12, 'C31': 4, 'C32': 3, 'C33': 6, 'C35': 1.5}
RULE = {
    'C01': 'a case is a sequence of documents (0..40, sometimes up to 300) with random fields, language or test language, reference field, save flag and tokenizers; its output is compared in both directions with postings computed from the documents; non-trivial: at least one posting; distinct by scenario hash',
    'C02': 'as C01, weights and frequencies compared; non-trivial: at least one posting; distinct by scenario hash',
    'C03': 'a case is a random history of add/remove operations on an inverted index, queried against a map after the steps; non-trivial: changes the map more than once; distinct by operation history',
    'C04': 'a case is a sequence of documents with hostile texts; non-trivial: a document is stored; distinct by scenario hash',
    'C05': 'a case is a history of additions, updates and removals with counts checked after steps; non-trivial: more than one step; distinct by history',
    'C06': 'a case is a sequence of documents, or a history of operations on a document store, with every recorded length compared; non-trivial: a length is recorded; distinct by hash',
    'C07': 'a case is an index brought to some state, then one document set added twice in two orders or split over fields; non-trivial: contains documents; distinct by hash',
    'C08': 'a case is a history of add/update/remove with comparison to the index built from the remaining documents; non-trivial: at least one document; distinct by hash',
    'C09': 'a case is an index, whose JSON in both forms is parsed by an independent strict parser and checked for shape; non-trivial: at least one document; distinct by scenario hash',
    'C10': 'a case is an index loaded by a JavaScript reader of elasticlunr.js\'s format, every term looked up and queries scored against brute force; non-trivial: at least one term; distinct by scenario hash',
    'C11': 'an evaluation is a text (or a whole document set) processed by the library and by elasticlunr.js\'s algorithm in node; non-trivial: yields a token; distinct by text',
    'C12': 'a case is a text given to every tokenizer/stage/index operation; non-trivial: non-empty; distinct by text',
    'C13': 'a case is a text through a language pipeline; non-trivial: yields a term; distinct by text',
    'C14': 'a case is a text through white-space tokenizers, compared with a reference and split/joined; non-trivial: yields a token; distinct by text',
    'C15': 'a case is a token through a trimmer; non-trivial: something was trimmed or kept; distinct by token and language',
    'C16': 'a case is a token through a stop-word filter (every listed word, and variants of them); non-trivial: non-empty; distinct by token and language',
    'C17': 'a case is a token through a stemmer, compared with Snowball or identity; non-trivial: non-empty; distinct by token and language',
    'C18': 'an evaluation is an Arabic or mixed token stemmed by the library and by the bundled JavaScript in node; non-trivial: non-empty; distinct by token',
    'C19': 'a case is a text of Chinese/mixed characters compared with jieba plus the documented filtering; non-trivial: yields more than one term; distinct by text',
    'C20': 'a case is a text of Japanese/mixed characters compared with lindera plus the documented filtering; non-trivial: yields more than one term; distinct by text',
    'C21': 'a case is a pipeline of 0..1000 recording functions run on tokens; non-trivial: at least one token and function; distinct by composition and tokens',
    'C22': 'a case is a builder with recording tokenizers and language; non-trivial: a recorder saw a text; distinct by event log',
    'C23': 'a case is a history of builder calls with close field names; non-trivial: at least one field; distinct by history',
    'C24': 'an evaluation is one string looked up in one feature configuration; non-trivial: all but the empty string; distinct by string and configuration',
    'C25': 'a case is a scenario built repeatedly (again, on other threads during other builds, in other processes) or texts processed by kept and fresh instances in different orders; non-trivial: has documents/texts; distinct by output',
    'C26': 'a case is a search configuration serialized and read back, or a JSON text read and compared; non-trivial: not the default; distinct by value',
    'C28': 'an evaluation is one step (language, index, inverted index, store, options, registry, single stage, shared reading, parallel work) executed in a build with AddressSanitizer or ThreadSanitizer, or in Miri; non-trivial: it ended without a panic; distinct by a digest of every value seen',
    'C29': 'a case is a workload (one of 14 families, a language) measured at sizes n, 4n and 16n and repeated with other texts; every one is non-trivial; distinct by family, language and size',
    'C30': 'an evaluation is a JSON text (written in a random order of members, white space, escapes and numbers; broken in one place; or damaged) read as an inverted index, document store or search configuration by one of four ways; non-trivial: not empty; distinct by text',
    'C31': 'a case is an index made in two ways, a language object compared with its counterpart on texts, or a store/inverted index and its clone or twin; non-trivial: has documents or terms; distinct by content',
    'C32': 'a case is a sequence of documents, some of which are first added with a panic injected at a random call of the user\'s code; non-trivial: something failed; distinct by scenario hash',
    'C34': 'an evaluation is one line of a workload (a text, stages, an index, an inverted index, a store) in one language in one build; non-trivial: all; distinct by line, language and result',
    'C35': 'a case is an index, inverted index, document store or search configuration serialized by every route, into failing writers and with a recording serializer that fails at random calls; non-trivial: not empty; distinct by JSON',
    'C33': 'an evaluation is a token through a stop word filter, trimmer or stemmer made with random parameters, or a text through a language made of them; non-trivial: changed or listed; distinct by token and parameters',
    'C27': 'a case is an inverted index, document store or index serialized and loaded, then driven on; non-trivial: non-empty; distinct by JSON',
}


def log(*a):
    print(*a, flush=True)


def die(msg):
    log('HARNESS-ERROR: ' + msg)
    sys.exit(2)


def known_findings(prop):
    """{sig: text} of this property's recorded, unrepaired findings."""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8') as f:
        for line in f:
            m = re.match(r'KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def cargo(crate, target, args, profile_args=('--release',), must=True):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--offline', *profile_args, *args], cwd=os.path.join(HERE, crate), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode and must:
        log(p.stdout[-4000:])
        die('the monitors do not build against /repo')
    return p


def build_mon(cjk):
    t = os.path.join(TARGET, 'cjk') if cjk else TARGET
    cargo('mon', t, ['--features', 'cjk'] if cjk else [])
    return os.path.join(t, 'release', 'mon')


def replay_file(prop, obj):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%d.json' % (prop, TIER, SEED))
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(obj, f, indent=1, ensure_ascii=True)
    return p


def evidence(prop, cov, violations, assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    e = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'exploration', 'coverage': cov,
         'assumptions': list(assumptions), 'wall_s': round(time.time() - T0, 2), 'violations': violations}
    with open(os.path.join(EVID, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(e, f, indent=1, ensure_ascii=True)
        f.write('\n')


def violation(prop, what, obj, cov):
    obj = dict(obj, property=prop, seed=SEED, tier=TIER, what=what)
    p = replay_file(prop, obj)
    evidence(prop, cov, 1)
    log(what[:1500])
    log('VIOLATION property=%s replay=%s' % (prop, p))
    sys.exit(1)


def limits():
    # a runaway allocation ends this process, not another one
    resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_mon(mon, prop, known, extra, timeout):
    """Returns (returncode, summary or None, stdout, stderr)."""
    out = os.path.join(TARGET, 'out-%s.json' % prop)
    if os.path.exists(out):
        os.remove(out)
    cmd = [mon, prop, '--seed', str(SEED), '--tier', TIER, '--threads', str(max(2, min(8, os.cpu_count() or 8))),
           '--known', ','.join(sorted(known)), '--oracle', os.path.join(HERE, 'oracle'), '--repo', REPO, '--out', out, *extra]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits, cwd=HERE)
    except subprocess.TimeoutExpired:
        return 'timeout', None, '', ''
    s = None
    if os.path.exists(out):
        with open(out, encoding='utf-8') as f:
            s = json.load(f)
    return p.returncode, s, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def death(rc, err):
    """How the process died, if the library can be at fault; None when it says nothing."""
    if rc in (-signal.SIGKILL, 137) or 'memory allocation of' in err:
        return None
    if isinstance(rc, int) and rc < 0:
        name = signal.Signals(-rc).name
        if 'overflowed its stack' in err:
            name += ' (stack overflow)'
        return name
    return None


def main_mon(prop):
    known = known_findings(prop)
    mon = build_mon(prop in CJK)
    built = time.time() - T0
    wall = 600 if TIER == 'thorough' else 240
    scale = SCALE.get(prop, 1) if TIER == 'quick' else 1
    scale *= float(os.environ.get('VERIF_SCALE') or '1')
    journal = os.path.join(TARGET, 'journal-' + prop)
    rc, s, out, err = run_mon(mon, prop, known, ['--wall', str(wall), '--scale', str(scale), '--journal', journal], wall + 400)
    rerun = '%s %s --seed %d --tier %s --known %s --case ' % (mon, prop, SEED, TIER, ','.join(sorted(known)) or '-')
    empty = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': RULE[prop], 'samples': []}
    if rc == 3:
        m = re.search(r'HANG case=(\d+) cpu=(\d+)', out)
        case = m.group(1)
        if prop not in ('C12', 'C29'):
            die('case %s did not end within %s s of CPU time; termination is C12\'s business' % (case, m.group(2)))
        # once more, alone, before calling it a hang
        rc2, s2, out2, err2 = run_mon(mon, prop, known, ['--case', case], 600)
        if rc2 == 1 and s2 is not None:
            rc, s, out, err = rc2, s2, out2, err2
        elif rc2 != 3:
            die('case %s used much CPU time once, but not again' % case)
        if rc == 3:
            violation(prop, 'case %s does not end: it used more than %s s of CPU time, twice' % (case, m.group(2)), {'case': int(case), 'rerun': rerun + case}, empty)
    if s is None or rc not in (0, 1):
        how = death(rc, err)
        if how is None:
            log(err[-3000:])
            die('monitor ended with %s' % rc)
        # which case was it?
        with open(journal, 'rb') as f:
            b = f.read()
        cand = sorted({x - 1 for (x,) in struct.iter_unpack('<Q', b[:len(b) // 8 * 8]) if x})
        for c in cand:
            rc2, _, _, err2 = run_mon(mon, prop, known, ['--case', str(c)], 300)
            how2 = death(rc2, err2)
            if how2:
                violation(prop, 'the library killed the process (%s) in case %d' % (how2, c), {'case': c, 'stderr': err2[-2000:], 'rerun': rerun + str(c)}, empty)
        log(err[-3000:])
        die('the process died (%s), but none of the cases %s does it again' % (how, cand))

    cov = {'evaluations': s['evaluations'], 'distinct_nontrivial': s['distinct_nontrivial'], 'rule': RULE[prop], 'samples': s['samples'],
           'cases_run': s['cases_run'], 'cases_planned': s['cases_planned'], 'ran_to_the_end': s['complete'],
           'observed': s['counters'], 'generator_dictionary': s['dictionary'], 'monitor_wall_s': round(s['wall_s'], 2), 'build_s': round(built, 2)}
    if s['known']:
        cov['known_findings_seen'] = {k: {'times': v[0], 'example': v[1][:300]} for k, v in s['known'].items()}
    if s.get('violation'):
        v = s['violation']
        violation(prop, v['what'], {'case': v['case'], 'detail': v['detail'], 'rerun': rerun + str(v['case'])}, cov)
    if rc != 0:
        die('monitor exit %s without a violation' % rc)
    if s['evaluations'] == 0 or s['distinct_nontrivial'] < 2 or (not s['complete'] and s['cases_run'] * 50 < s['cases_planned']):
        die('too little was observed: %s of %s cases' % (s['cases_run'], s['cases_planned']))
    seen = {k: v[0] for k, v in s['known'].items()}
    if prop == 'C12':
        seen.update(long_token(mon, known, cov))
        seen.update(long_sentence(mon, known, cov))
    evidence(prop, cov, 0)
    for k in sorted(seen):
        if k not in known:
            die('unlisted finding %s reported as known' % k)
        log('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    log('OK property=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, s['evaluations'], s['distinct_nontrivial'], time.time() - T0))


def long_token(mon, known, cov):
    """The listed finding: one very long word overflows the stack. Shorter ones must not."""
    seen = {}
    r = []
    for n in (3000, 10000, 400000):
        p = subprocess.run([mon, 'long-token', str(n), 'x'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, timeout=300)
        err = p.stderr.decode('utf-8', 'replace')
        how = death(p.returncode, err)
        r.append({'characters': n, 'result': how or p.returncode})
        if p.returncode == 0:
            continue
        if how and 'overflow' in how and n > 10000 and 'long-token' in known:
            seen['long-token'] = 1
        elif how or p.returncode == 1:
            cov['long_tokens'] = r
            violation('C12', 'indexing a word of %d characters: %s' % (n, how or 'panic'), {'rerun': '%s long-token %d x' % (mon, n), 'stderr': err[-1500:]}, cov)
        else:
            die('long-token: exit %s' % p.returncode)
    cov['long_tokens'] = r
    return seen


def san_build(kind, share):
    """Builds the monitors (or the Miri crate) with a sanitizer; returns (CompletedProcess, how to run it)."""
    tgt = 'x86_64-unknown-linux-gnu'
    d = os.path.join(TARGET, kind)
    env = dict(os.environ, CARGO_TARGET_DIR=d, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env.pop('RUSTFLAGS', None)
    feats = ['share'] if share else ['safety']
    crate = 'mon'
    if kind == 'asan':
        env['RUSTFLAGS'] = '-Zsanitizer=address'
        cmd = ['build', '--release', '--target', tgt]
        feats.append('cjk')
    elif kind == 'tsan':
        env['RUSTFLAGS'] = '-Zsanitizer=thread'
        cmd = ['build', '--release', '-Zbuild-std', '--target', tgt]
    else:
        crate = 'miri'
        feats = ['share'] if share else []
        env['MIRIFLAGS'] = '-Zmiri-ignore-leaks'
        cmd = ['miri', 'run', '--target', tgt]
    cmd = ['cargo', '+nightly', *cmd, '--offline', *(['--features', ','.join(feats)] if feats else [])]
    if kind == 'miri':
        # builds, and runs nothing much
        p = subprocess.run([*cmd, '--', '0', '0'], cwd=os.path.join(HERE, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p, (cmd, env, os.path.join(HERE, crate))
    p = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p, os.path.join(d, tgt, 'release', 'mon')


def san_verdict(text, rc):
    """What a sanitizer says in this output, or None."""
    for pat in (r'ERROR: AddressSanitizer: (?!stack-overflow|out of memory|allocation-size)[^\n]*', r'WARNING: ThreadSanitizer: (?!thread leak)[^\n]*', r'error: Undefined Behavior:[^\n]*',
                r'unsafe precondition\(s\) violated[^\n]*', r'attempted to [^\n]* uninitialized[^\n]*'):
        m = re.search(pat, text)
        if m:
            return m.group(0)
    if isinstance(rc, int) and rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) and 'overflowed its stack' not in text:
        return 'killed by ' + signal.Signals(-rc).name
    if re.search(r'(double free|corrupted|invalid pointer|malloc\(\)|free\(\))', text) and rc == -signal.SIGABRT:
        return 'the heap is corrupted'
    return None


def main_c28():
    from concurrent.futures import ThreadPoolExecutor
    prop = 'C28'
    thorough = TIER == 'thorough'
    built = {}
    with ThreadPoolExecutor(3) as ex:
        for kind, r in zip(('asan', 'tsan', 'miri'), ex.map(lambda k: san_build(k, True), ('asan', 'tsan', 'miri'))):
            built[kind] = r
    share = True
    if any(p.returncode and 'between threads safely' in p.stdout for p, _ in built.values()):
        # the structures cannot be shared any more; then nobody shares them
        share = False
        for kind in built:
            built[kind] = san_build(kind, False)
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': RULE[prop], 'samples': [], 'structures_shared_between_threads': share}
    for kind, (p, _) in built.items():
        if p.returncode:
            v = san_verdict(p.stdout, p.returncode)
            if v is None:
                log(p.stdout[-4000:])
                die('the %s build failed' % kind)
    cov['build_s'] = round(time.time() - T0, 1)
    scale = SCALE[prop] * float(os.environ.get('VERIF_SCALE') or '1') if not thorough else 1
    for kind, opts in (('asan', 'ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=86'), ('tsan', 'TSAN_OPTIONS=halt_on_error=1:exitcode=86:report_signal_unsafe=0')):
        out = os.path.join(TARGET, 'out-%s-%s.json' % (prop, kind))
        if os.path.exists(out):
            os.remove(out)
        wall = 700 if thorough else 120
        cmd = [built[kind][1], prop, '--seed', str(SEED), '--tier', TIER, '--threads', '8', '--known', '-', '--repo', REPO, '--wall', str(wall), '--scale', str(scale if kind == 'asan' else scale * 0.7), '--out', out]
        k, v = opts.split('=', 1)
        env = dict(os.environ)
        env[k] = v
        try:
            q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=wall + 200, cwd=HERE, env=env)
        except subprocess.TimeoutExpired:
            die('%s run did not end' % kind)
        err = q.stderr.decode('utf-8', 'replace')
        said = san_verdict(err, q.returncode)
        s = None
        if os.path.exists(out):
            with open(out, encoding='utf-8') as f:
                s = json.load(f)
        rerun = '%s=%s %s' % (k, v, ' '.join(cmd))
        if said:
            violation(prop, '%s build: %s' % (kind, said), {'report': err[:8000], 'rerun': rerun}, cov)
        if s and s.get('violation'):
            v = s['violation']
            violation(prop, '%s build: %s' % (kind, v['what']), {'case': v['case'], 'detail': v['detail'], 'rerun': rerun + ' --case %d' % v['case']}, cov)
        if q.returncode or s is None:
            log(err[-3000:])
            die('%s run ended with %s' % (kind, q.returncode))
        cov['evaluations'] += s['evaluations']
        cov['distinct_nontrivial'] = max(cov['distinct_nontrivial'], s['distinct_nontrivial'])
        cov[kind] = {'steps': s['evaluations'], 'distinct': s['distinct_nontrivial'], 'ran_to_the_end': s['complete'], 'observed': s['counters'], 'wall_s': round(s['wall_s'], 1)}
        cov['samples'] += s['samples'][:3]
        if s['cases_run'] < 200:
            die('too little was observed in the %s build' % kind)
    (cmd, env, cwd) = built['miri'][1]
    procs = 64 if thorough else 8
    steps = 60 if thorough else 10

    def one(i):
        e = dict(env, MIRIFLAGS='-Zmiri-ignore-leaks -Zmiri-seed=%d' % (SEED * 100 + i))
        c = [*cmd, '--', str(SEED * 64 + i), str(steps)]
        try:
            q = subprocess.run(c, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=3000 if thorough else 400)
        except subprocess.TimeoutExpired as x:
            return c, e, 'timeout', (x.stdout or b'').decode('utf-8', 'replace'), ''
        return c, e, q.returncode, q.stdout, q.stderr
    digests, done, late, bykind = set(), 0, 0, {}
    with ThreadPoolExecutor(8) as ex:
        for c, e, rc, out, err in ex.map(one, range(procs)):
            rerun = 'cd %s && MIRIFLAGS="%s" CARGO_TARGET_DIR=%s %s' % (cwd, e['MIRIFLAGS'], e['CARGO_TARGET_DIR'], ' '.join(c))
            said = san_verdict(err, rc)
            m = re.search(r'^VIOL (.*)', out, re.M)
            if said or m:
                violation(prop, 'Miri: ' + (said or m.group(1)), {'report': err[-8000:], 'rerun': rerun}, cov)
            st = re.findall(r'^STEP kind=(\d+) digest=(\w+)', out, re.M)
            done += len(st)
            digests |= set(st)
            for k, _ in st:
                bykind[k] = bykind.get(k, 0) + 1
            if rc == 'timeout':
                late += 1
            elif rc:
                log(err[-3000:])
                die('Miri ended with %s' % rc)
    if done < 20:
        die('too little was observed in Miri')
    cov['evaluations'] += done
    cov['distinct_nontrivial'] += len(digests)
    cov['miri'] = {'processes (each with a scheduling seed of its own)': procs, 'steps': done, 'distinct': len(digests), 'cut_off_by_time': late, 'steps_by_kind': bykind}
    evidence(prop, cov, 0)
    log('OK property=C28 evaluations=%d distinct=%d wall=%.1fs' % (cov['evaluations'], cov['distinct_nontrivial'], time.time() - T0))


def long_sentence(mon, known, cov):
    """The listed finding: the path cost of one very long Japanese sentence overflows in lindera."""
    r, seen = [], {}
    for n in (20000, 200000):
        p = subprocess.run([mon, 'long-sentence', str(n), '\u3090\u3099 '], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, timeout=300)
        err = p.stderr.decode('utf-8', 'replace')
        r.append({'words': n, 'result': p.returncode})
        if p.returncode == 0:
            continue
        if n > 50000 and 'lindera-core' in err and 'overflow' in err and 'long-sentence' in known:
            seen['long-sentence'] = 1
        elif p.returncode == 101 or death(p.returncode, err):
            cov['long_sentences'] = r
            violation('C12', 'a Japanese sentence of %d words: %s' % (n, (death(p.returncode, err) or 'panic')), {'rerun': '%s long-sentence %d "\u3090\u3099 "' % (mon, n), 'stderr': err[-1500:]}, cov)
        else:
            die('long-sentence: exit %s' % p.returncode)
    cov['long_sentences'] = r
    return seen


CODES = 'ar da de du es fi fr hu it ja ko no pt ro ru sv tr zh'.split()


def main_c24():
    rnd = random.Random(SEED * 7919 + 24)
    light = [c for c in CODES if c not in ('ja', 'zh')]
    configs = [[], ['languages']] + [[c] for c in CODES]
    if TIER == 'thorough':
        configs += [[c for c in CODES if c != x] for x in CODES]
        configs += [sorted(rnd.sample(CODES, rnd.randint(2, 16))) for _ in range(60)]
        nrand = 400000
    else:
        configs += [sorted(rnd.sample(light, rnd.randint(2, 14))) for _ in range(5)]
        configs += [sorted(rnd.sample(light, rnd.randint(1, 8)) + [x]) for x in ('ja', 'zh')]
        nrand = 40000
    target = os.path.join(TARGET, 'reg')
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': RULE['C24'], 'samples': [], 'configurations': 0, 'languages_found': 0, 'lookups_that_found_nothing': 0}
    deadline = T0 + (3000 if TIER == 'thorough' else 600)
    for cf in configs:
        if time.time() > deadline:
            break
        p = cargo('regcheck', target, ['--bin', 'regcheck'] + (['--features', ','.join(cf)] if cf else []), profile_args=(), must=False)
        if p.returncode:
            # is it the library that does not compile in this configuration, or the harness?
            if cf and re.search(r'could not compile `elasticlunr-rs`', p.stdout) and cov['configurations'] > 0:
                violation('C24', 'the library does not compile with the features %s' % ','.join(cf), {'features': cf, 'compiler': p.stdout[-3000:]}, cov)
            log(p.stdout[-3000:])
            die('regcheck does not build with features %s' % cf)
        try:
            q = subprocess.run([os.path.join(target, 'debug', 'regcheck'), str(SEED), str(nrand)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            die('regcheck did not end')
        out, err = q.stdout.decode('utf-8', 'replace'), q.stderr.decode('utf-8', 'replace')
        m = re.search(r'^OK enabled=(\d+) listed=(\d+) hits=(\d+) misses=(\d+) strings=(\d+)', out, re.M)
        v = re.search(r'^VIOL (.*)', out, re.M)
        rerun = 'cd %s/regcheck && cargo run --offline --features "%s" -- %d %d' % (HERE, ','.join(cf), SEED, nrand)
        if v:
            violation('C24', 'with the features [%s]: %s' % (','.join(cf), v.group(1)), {'features': cf, 'rerun': rerun}, cov)
        if q.returncode == 101 and "panicked at /repo/" in err.replace(REPO, '/repo'):
            violation('C24', 'with the features [%s] the registry panics: %s' % (','.join(cf), err[-600:]), {'features': cf, 'rerun': rerun}, cov)
        if q.returncode or not m:
            log(out[-1000:], err[-2000:])
            die('regcheck ended with %s' % q.returncode)
        cov['configurations'] += 1
        cov['evaluations'] += int(m.group(3)) + int(m.group(4))
        cov['distinct_nontrivial'] += int(m.group(3)) + int(m.group(5)) - 1
        cov['languages_found'] += int(m.group(2))
        cov['lookups_that_found_nothing'] += int(m.group(4))
        if cov['configurations'] in (1, 2, 7, 21, 26):
            cov['samples'].append({'features': ','.join(cf), 'result': m.group(0)})
    if cov['configurations'] < 20:
        die('only %d configurations could be looked at' % cov['configurations'])
    cov['configurations_planned'] = len(configs)
    evidence('C24', cov, 0)
    log('OK property=C24 configurations=%d lookups=%d wall=%.1fs' % (cov['configurations'], cov['evaluations'], time.time() - T0))


def main_c34():
    """The same workload in builds with other features and profiles; every pair of builds must agree on what both have."""
    from concurrent.futures import ThreadPoolExecutor
    rnd = random.Random(SEED * 7919 + 34)
    light = [c for c in CODES if c not in ('ja', 'zh')]
    thorough = TIER == 'thorough'
    builds = [(['languages'], 'dev'), (['languages'], 'release'), ([], 'dev'), ([], 'release')] + [([c], 'dev') for c in CODES]
    if thorough:
        builds += [([c for c in CODES if c != x], 'dev') for x in CODES]
        builds += [(sorted(rnd.sample(CODES, rnd.randint(2, 16))), rnd.choice(['dev', 'release'])) for _ in range(40)]
    else:
        builds += [(sorted(rnd.sample(light, rnd.randint(2, 14))), 'dev') for _ in range(3)]
        builds += [(sorted(rnd.sample(light, rnd.randint(1, 8)) + [x]), 'dev') for x in ('ja', 'zh')]
        builds += [(sorted(rnd.sample(light, rnd.randint(2, 14))), 'release')]
    n = 60000 if thorough else 8000
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': RULE['C34'], 'samples': [], 'builds': 0, 'builds_with_debug_assertions': 0,
           'builds_without': 0, 'results_compared_with_another_build': 0, 'configurations_that_do_not_compile': 0}
    mon = build_mon(False)
    work = os.path.join(TARGET, 'c34')
    os.makedirs(work, exist_ok=True)
    corpus = os.path.join(work, 'corpus-%d.txt' % SEED)
    if subprocess.run([mon, 'corpus', str(SEED), str(n), corpus, REPO]).returncode:
        die('the workload could not be written')
    target = os.path.join(TARGET, 'reg')
    deadline = T0 + (3000 if thorough else 600)

    def drive(exe, cf, prof):
        try:
            q = subprocess.run([exe, corpus], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        if q.returncode:
            return None, 'ended with %s: %s' % (q.returncode, q.stderr.decode('utf-8', 'replace')[-500:])
        return dict((tuple(l.split(' ')[:2]), l.split(' ')[2]) for l in q.stdout.decode().splitlines()), None

    jobs = []
    with ThreadPoolExecutor(6) as pool:
        for i, (cf, prof) in enumerate(builds):
            if time.time() > deadline:
                break
            p = cargo('regcheck', target, ['--bin', 'digest'] + (['--features', ','.join(cf)] if cf else []), profile_args=('--release',) if prof == 'release' else (), must=False)
            if p.returncode:
                if i > 0 and re.search(r'could not compile `elasticlunr-rs`', p.stdout):
                    cov['configurations_that_do_not_compile'] += 1     # C24 reports that
                    continue
                log(p.stdout[-3000:])
                die('digest does not build with features %s' % cf)
            exe = os.path.join(work, 'digest-%d' % i)
            with open(os.path.join(target, 'debug' if prof == 'dev' else 'release', 'digest'), 'rb') as f, open(exe, 'wb') as o:
                o.write(f.read())
            os.chmod(exe, 0o755)
            jobs.append((cf, prof, exe, pool.submit(drive, exe, cf, prof)))
        results = [(cf, prof, exe, *j.result()) for cf, prof, exe, j in jobs]
    first = {}
    seen = set()
    for cf, prof, exe, res, err in results:
        if res is None:
            die('the workload with features %s (%s): %s' % (cf, prof, err))
        cov['builds'] += 1
        cov['builds_with_debug_assertions' if prof == 'dev' else 'builds_without'] += 1
        cov['evaluations'] += len(res)
        for k, h in sorted(res.items(), key=lambda x: (int(x[0][0]), x[0][1])):
            if k not in first:
                first[k] = (h, cf, prof, exe)
                seen.add((k, h))
                continue
            cov['results_compared_with_another_build'] += 1
            h0, cf0, prof0, exe0 = first[k]
            if h != h0:
                show = [subprocess.run([e, corpus, k[0], k[1]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode('utf-8', 'replace') for e in (exe0, exe)]
                at = next((i for i, (x, y) in enumerate(zip(*show)) if x != y), min(map(len, show)))
                with open(corpus, encoding='utf-8') as f:
                    line = f.read().split('\n')[int(k[0])]
                violation('C34', 'a build with the features [%s] (%s) and one with [%s] (%s) disagree (language %s): %r / %r' % (
                    ','.join(cf0), prof0, ','.join(cf), prof, k[1], show[0][max(0, at - 60):at + 100], show[1][max(0, at - 60):at + 100]),
                    {'input': line[:20000], 'language': k[1], 'builds': [[cf0, prof0], [cf, prof]], 'outputs': [x[:5000] for x in show]}, cov)
    cov['distinct_nontrivial'] = len(seen)
    cov['samples'] = [{'line': int(k[0]), 'language': k[1], 'digest': h} for k, h in sorted(seen)[:5]]
    for _, _, exe, _, _ in results:
        os.remove(exe)
    os.remove(corpus)
    if cov['builds'] < 15:
        die('only %d builds could be looked at' % cov['builds'])
    cov['builds_planned'] = len(builds)
    evidence('C34', cov, 0)
    log('OK property=C34 builds=%d compared=%d wall=%.1fs' % (cov['builds'], cov['results_compared_with_another_build'], time.time() - T0))


def main():
    a = sys.argv[1:]
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if a == ['--setup']:
        build_mon(False)
        build_mon(True)
        cargo('regcheck', os.path.join(TARGET, 'reg'), [], profile_args=())
        for prof in ((), ('--release',)):
            cargo('regcheck', os.path.join(TARGET, 'reg'), ['--features', 'languages', '--bin', 'digest'], profile_args=prof)
        log('built')
        return
    if len(a) != 1 or a[0] not in RULE:
        die('usage: run.py PROPERTY')
    e = os.path.join(EVID, a[0] + '.json')
    if os.path.exists(e):
        os.remove(e)
    if a[0] == 'C34':
        return main_c34()
    if a[0] == 'C24':
        main_c24()
    elif a[0] == 'C28':
        main_c28()
    else:
        main_mon(a[0])


if __name__ == '__main__':
    main()
