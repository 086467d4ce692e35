#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  --  decides one property of /repo's current working tree.

1. extract: every function of /repo/src is copied mechanically next to its contract (extract/, contracts/);
2. verify: Verus has to accept every obligation of the extracted text;
3. search: the bounded oracle (harness/) runs the real crate; it supplies the failing input for a failed
   obligation and stands in (labelled bounded) for what is not under contract.
"""
import sys, os, json, re, subprocess, time, tempfile, shutil, threading, fcntl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XECS_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from cones import CONES, LEMMAS  # noqa

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b'').decode('utf8', 'replace'), (x.stderr or b'').decode('utf8', 'replace')

def build(what, target):
    """cargo build of extract/ or harness/, one at a time per target directory; returns (binary, error)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, target + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ['cargo', '+stable', 'build', '--offline', '-q'] + (['--release'] if what == 'harness' else [])
        rc, o, e = sh(cmd, 600, {'CARGO_TARGET_DIR': os.path.join(BUILD, target)}, os.path.join(HERE, what))
        if rc != 0: return None, (o + e)[-4000:]
        return os.path.join(BUILD, target, 'release/xecs-oracle' if what == 'harness' else 'debug/xecs-extract'), None

def contract_files():
    d = os.path.join(HERE, 'contracts')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.vc')]

def fn_ranges(lines):
    """line number -> crate function, from the extractor's markers"""
    cur, mod, out = None, '', []
    for l in lines:
        m = re.match(r'\s*// @src (\S+) (\d+) (\d+) (.*)$', l)
        if m: cur = (m.group(4).strip(), f'{m.group(1)}:{m.group(2)}')
        else:
            if l.startswith('pub mod '): mod = l.split()[2]; cur = None
            m = re.match(r'\s*(?:pub )?(?:open |closed |broadcast |uninterp )*(proof|spec|axiom) fn (\w+)', l)
            if mod == 'clients':
                m2 = re.match(r'pub (?:open spec |proof )?fn (\w+)', l)
                if m2: cur = ('clients::' + m2.group(1), 'contracts/90_clients.vc')
            elif m: cur = ('(lemma)', m.group(2))
        out.append(cur)
    return out

def run_verus(src, work, extra=(), multi='3'):
    t = time.time()
    rc, o, e = sh(['verus', src, '--num-threads', '8', '--output-json', '--time-expanded', '--multiple-errors', multi, '--error-format=json', *extra], 600, cwd=work)
    try: d = json.loads(o[o.index('{'):])
    except Exception: d = None
    errs = []
    for l in e.split('\n'):
        if not l.startswith('{'): continue
        try: x = json.loads(l)
        except Exception: continue
        if x.get('level', '').startswith('error') and not x['message'].startswith('aborting due to'): errs.append(x)
    return {'json': d, 'errors': errs, 'rc': rc, 'wall': time.time() - t, 'stderr': e}

PROOF_ERR = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|arithmetic (underflow|overflow)|decreases not satisfied|index out of bounds|recommendation|could not prove|not satisfied|failed|unable to prove|bounds|division by zero|termination')
LIMIT_ERR = re.compile(r'[Rr]esource limit|rlimit|timed? ?out|not all errors')

def verify(work, extra=()):
    """extract and verify; functions whose text the verifier does not accept on this tree keep only their contract, and are named"""
    ext, why = [], []
    for _ in range(6):
        r = verify_once(work, extra, ext)
        new = [f for f in r.get('outside', []) if f not in ext]
        if not new: break
        ext += new; why += r['reasons'][:1]
    if ext:
        r['external'] = ext
        r['reasons'] = ['outside what Verus accepts, bodies not verified: ' + ', '.join(ext)] + [w for w in why[:2]] + r['reasons']
        if r['status'] == 'proved': r['status'] = 'unknown'
    return r

def reshaped(was, now):
    """loops or closures added, removed, of another kind, or in another order: the invariants no longer sit where they were written for;
    more locals carried through a loop, or its returns made breaks: the invariants say nothing about them"""
    cut = lambda l: [x.rsplit(' #', 1)[0] for x in l]
    load = lambda x: [int(n) for n in x.rsplit(' #', 1)[1].split(',')] if ' #' in x else [0, 0, 0]
    w, n = cut(was), cut(now)
    if [x.split(' ')[0] for x in w] != [x.split(' ')[0] for x in n]: return True
    if any(y[0] > x[0] or y[1] > x[1] and y[2] < x[2] for x, y in ((load(a), load(b)) for a, b in zip(was, now))): return True
    return any(n[i] != w[i] and n[i] in w and w.index(n[i]) != i for i in range(len(n)))

def verify_once(work, extra, ext):
    r = {'status': 'unknown', 'failed': {}, 'limited': [], 'reasons': [], 'stats': {}}
    xt, err = build('extract', 'xt')
    if not xt: r['reasons'].append('the extractor does not build: ' + err); return r
    src, rep = os.path.join(work, 'xecs_verified.rs'), os.path.join(work, 'report.json')
    rc, o, e = sh([xt, os.path.join(REPO, 'src'), src, rep] + [c for c in contract_files() if not ('90_clients' in c and any(f.startswith('clients::') for f in ext))], 120, {'XT_EXTERNAL': '\n'.join(ext)} if ext else None)
    if rc != 0: r['reasons'].append('extraction failed: ' + (o + e)[-1500:]); return r
    report = json.load(open(rep)); r['report'] = report
    exp = json.load(open(os.path.join(HERE, 'contracts', 'expected.json')))
    st = []
    new = [f for f in report['functions'] if f not in exp['shape'] and f not in exp['bodiless']]
    for f in new: st.append((f, 'function without a contract'))
    for f in exp['shape']:
        if f not in report['shape']: st.append((f, 'function under contract no longer there'))
        elif reshaped(exp['shape'][f], report['shape'][f]): st.append((f, f"loops/closures were {exp['shape'][f]}, now {report['shape'][f]}"))
    for k in ('missing', 'unsupported', 'loops_without_invariant'):
        for x in report[k]:
            if x not in exp[k]: st.append((x, k))
    st += [(f, 'body not verified') for f in ext]
    r['structure'] = st; r['renamed'] = report.get('renamed', [])
    v = run_verus(src, work, extra)
    lines = open(src).read().split('\n'); fr = fn_ranges(lines)
    r['lines'] = lines
    if v['json'] is None or 'verification-results' not in v['json']:
        r['reasons'].append('Verus gave no result: ' + v['stderr'][-800:]); return r
    vr = v['json']['verification-results']
    if v['json'].get('times-ms'):
        t = v['json']['times-ms']
        r['stats'] = {'verus_verified': vr.get('verified', 0), 'verus_errors': vr.get('errors', 0), 'wall_ms': t.get('total'), 'cpu_ms': t.get('estimated-cpu-time'),
                      'smt_ms': t.get('smt', {}).get('smt-run'), 'rlimit': t.get('smt', {}).get('rlimit-run')}
        fb = {}
        for m in t.get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                x = fb.setdefault(f['function'], {'ms': 0, 'ok': True, 'queries': 0}); x['ms'] += f['time']; x['ok'] &= f['success']; x['queries'] += 1
        r['functions'] = fb
    compile_errs, outside = [], set()
    for x in v['errors']:
        spans = [(s['line_start'], s['is_primary'], s.get('label') or '') for s in x['spans']]
        text = x.get('rendered') or x['message']
        if LIMIT_ERR.search(x['message']):
            fs = {fr[l - 1] for l, _, _ in spans if fr[l - 1]}
            r['limited'] += [f[0] for f in fs]; continue
        if vr.get('encountered-vir-error') or x.get('code') or not PROOF_ERR.search(x['message']):
            compile_errs.append(text[:1500])
            fs = {fr[l - 1][0] for l, p, _ in spans if fr[l - 1] and p} or {fr[l - 1][0] for l, _, _ in spans if fr[l - 1]}
            outside |= fs; continue
        # the function whose body the obligation belongs to: prefer the exit / call site over the (trait) contract text
        cand = [l for l, p, lab in spans if re.search(r'at this exit|end of the function body|at this call|at this loop exit|called here', lab)] or [l for l, p, _ in spans if p] or [l for l, _, _ in spans]
        f = next((fr[l - 1] for l in cand if fr[l - 1]), None)
        r['failed'].setdefault(f[0] if f else '(lemma)', []).append({'obligation': x['message'], 'at': f[1] if f else '', 'text': text})
    if compile_errs: r['outside'] = sorted(outside)
    if compile_errs: r['reasons'].append('the extracted text is outside what Verus accepts: ' + compile_errs[0])
    r['limited'] = sorted(set(r['limited']) - set(r['failed']))
    loops = lambda l: sum(x != 'closure' for x in l)
    least = exp['min_verified'] - sum(max(0, loops(exp['shape'][f]) - loops(report['shape'].get(f, []))) for f in exp['shape'])   # Verus counts every loop
    if vr.get('encountered-vir-error') or compile_errs: r['status'] = 'unknown'
    elif r['failed']: r['status'] = 'failed'
    elif r['limited']: r['status'] = 'unknown'; r['reasons'].append('solver limit in ' + ', '.join(r['limited']))
    elif vr.get('success') and vr.get('verified', 0) >= least and not any(k in ('function under contract no longer there', 'unsupported') or k == 'missing' and ' ' not in f for f, k in st): r['status'] = 'proved'
    else: r['status'] = 'unknown'; r['reasons'].append(f"{vr.get('verified')} accepted, at least {least} expected")
    if st: r['reasons'].append('changed structure: ' + '; '.join(f'{a} ({b})' for a, b in st[:6]))
    return r

MODULES = ['clients', 'world', 'entity', 'component', 'resource', 'query', 'query::with', 'query::without', 'sparse_set', 'group'] + [f'group::{k}{q}' for k in ('full_owning', 'partial_owning', 'non_owning') for q in ('', '::query')]

def probe(work):
    """vacuity: `assert(false)` at the start of every body and loop must fail everywhere"""
    w = os.path.join(work, 'probe'); os.makedirs(w)
    xt, _ = build('extract', 'xt')
    src, rep = os.path.join(w, 'xecs_probe.rs'), os.path.join(w, 'report.json')
    rc, o, e = sh([xt, os.path.join(REPO, 'src'), src, rep] + contract_files(), 120, {'XT_PROBE': '1'})
    if rc != 0: return None
    text = open(src).read().split('\n'); fr = fn_ranges(text)
    opening = None
    for i, l in enumerate(text):
        if fr[i] and fr[i][0].startswith('clients::'):
            if re.match(r'pub (proof )?fn ', l): opening = i
            elif opening is not None and l.startswith('{'): text[i] = '{ assert(false); /* vx_probe */' + l[1:]; opening = None
    open(src, 'w').write('\n'.join(text))
    want = [i + 1 for i, l in enumerate(text) if 'vx_probe' in l]
    # probes that follow a failed one in the same query stay quiet: take the failed ones out and look again
    left, hit, mods = list(want), [], []
    for _ in range(6):
        v = run_verus(src, w, multi='10', extra=[y for m in mods for y in ('--verify-only-module', m)])
        if not v['json'] or not v['json'].get('times-ms'): return None
        got = {s['line_start'] for x in v['errors'] if 'assertion failed' in x['message'] for s in x['spans']}
        now = [l for l in left if any(l <= g <= l + 1 for g in got)]
        hit += now; left = [l for l in left if l not in now]
        if not left or not now: break
        for l in now: text[l - 1] = re.sub(r'assert\(false\);?', '', text[l - 1])
        open(src, 'w').write('\n'.join(text))
        mods = sorted({re.sub(r'::\w+$', '', f) if f.startswith('clients') else f.rsplit('::', 2)[0] for f in ((fr[l - 1] or ('',))[0] for l in left)} & set(MODULES))
    silent = sorted({(fr[l - 1] or ('?',))[0] for l in want if l not in hit})
    return {'probes': len(want), 'reached': len(hit), 'silent': silent}

TRUST = re.compile(r'external_body|assume_specification|\baxiom fn|\bassume\(|\badmit\(|uninterp|external_fn|exec_allows')
def trusted(lines):
    out = []
    for i, l in enumerate(lines):
        if TRUST.search(l) and not l.strip().startswith('//') and not l.strip().startswith('/*'):
            s = l.strip()
            if s.startswith('#[verifier::external_body]') and len(s) < 30 and i + 1 < len(lines): s = s + ' ' + lines[i + 1].strip()
            out.append(re.sub(r'\s+', ' ', s)[:170])
    return sorted(set(out))

# ---------------------------------------------------------------- bounded search on the real crate
BUDGET = {'quick': (6, 1500000, 50000, 45), 'hunt': (3, 100, 3000000, 120), 'thorough': (8, 8000000, 120000, 420)}   # hunt comes after quick or thorough: only new random histories
def explore(prop, seed, budget, work):
    binp, err = build('harness', 'oracle')
    if not binp: return {'error': 'the oracle does not build against /repo: ' + err}
    d, ex, rnd, secs = BUDGET[budget]
    def once(tr):
        return sh([binp, 'explore', prop, str(seed), str(d), str(ex), str(rnd), str(secs), '8'] + ([tr] if tr else []), secs + 200)
    rc, o, e = once(None)
    last = [l for l in o.split('\n') if l.startswith('{')]
    if last and rc in (0, 1):
        j = json.loads(last[-1]); j['bin'] = binp; j['bounds'] = f'histories of up to {d} operations over the scope of the property (at most {ex} of them), {rnd} seeded longer random histories, {secs} s'
        return j
    # the crate killed the process: run again leaving traces, then replay each
    td = os.path.join(work, 'trace'); os.makedirs(td, exist_ok=True)
    once(td)
    for f in sorted(os.listdir(td)):
        t = open(os.path.join(td, f)).read().split(' ', 2)
        if len(t) < 3: continue
        rc2, o2, e2 = sh([binp, 'replay', prop, t[0], t[1], t[2]], 60)
        if rc2 not in (0, 3): return {'bin': binp, 'bounds': '', 'failure': {'kind': 'crash', 'seed': int(t[0]), 'every': t[1] == '1', 'history': t[2], 'at': 0, 'what': f'the process running the history ended with status {rc2}'}}
    return {'error': f'the oracle ended with status {rc}: {(o + e)[-500:]}'}

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='xecs-check-')
    try: return decide(prop, tier, seed, t0, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, seed, t0, work):
    res = {}
    th = [threading.Thread(target=lambda: res.__setitem__('x', explore(prop, seed, tier, work))), threading.Thread(target=lambda: res.__setitem__('v', verify(work)))]
    for t in th: t.start()
    for t in th: t.join()
    v, x = res.get('v') or {'status': 'unknown', 'failed': {}, 'reasons': ['verification crashed'], 'limited': [], 'stats': {}}, res.get('x') or {'error': 'search crashed'}
    # an obligation discharged in either of two runs is discharged (the solver is incomplete, not unsound)
    if (v['limited'] or v['failed']) and v.get('functions'):
        w2 = os.path.join(work, 'again'); os.makedirs(w2)
        v2 = verify(w2, extra=['--smt-option', 'smt.random_seed=3', '--rlimit', '60'])
        if v2['status'] == 'proved': v = v2
        elif v2['status'] == 'failed':
            for f in list(v['failed']):
                if f not in v2['failed'] and f not in v2['limited']: del v['failed'][f]
            if not v['failed']: v['status'] = 'unknown'; v['reasons'].append('obligations fail only for some solver seeds')
    cone = [re.compile(c) for c in CONES[prop]]
    def in_cone(f): return f == '(lemma)' or f.replace('clients::', '') in LEMMAS.get(prop, []) or any(c.search(f) for c in cone)
    mine = {f: e for f, e in v['failed'].items() if in_cone(f)}
    st = v.get('structure', [])
    touched = {a.split(' ')[0] for a, _ in st} | {a.split(': ')[0] for a in v.get('renamed', [])}
    helper = any(b == 'function without a contract' for _, b in st)
    # a lemma is about the contracts, not about the code: the code cannot break it
    hard = {f: e for f, e in mine.items() if f not in touched and not helper and f != '(lemma)' and not f.startswith('clients::')}
    # the longer search: an obligation failed, or the proof does not speak about this tree
    if (mine or v['status'] != 'proved' and v['reasons']) and not x.get('failure'):
        y = explore(prop, seed + 7, 'hunt', work)
        if y.get('failure') or x.get('error'): x = y
        elif not y.get('error'): x['hunt_runs'] = y.get('runs')
    pr = None
    if v['status'] == 'proved': pr = probe(work)
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f'{prop}.txt')
    if os.path.exists(rpath): os.unlink(rpath)
    lines = v.get('lines', [])
    fb = v.get('functions', {})
    def short(f): return f.replace('out::', '').replace('xecs_verified::', '')
    contracted = [f for f in (v.get('report') or {}).get('functions', []) if f not in set((v.get('report') or {}).get('uncontracted', []))]
    stubbed = (v.get('report') or {}).get('stubbed', [])
    mineF = [f for f in contracted if any(c.search(f) for c in cone)]
    proved_here = [f for f in mineF if f not in stubbed]
    stats = v['stats']
    level = LEVEL(prop)
    out = []
    viol = 0; verdict = 'held'
    if x.get('failure'):
        f = x['failure']; viol = 1; verdict = 'violated'
        with open(rpath, 'w') as w:
            w.write(f"property {prop}\nfails on the real crate: {f['what']}\nhistory: {f['history']}\nreplay: {BUILD}/oracle/release/xecs-oracle replay {prop} {f['seed']} {1 if f['every'] else 0} \"{f['history']}\"\n")
            for fn, es in mine.items():
                for e in es[:3]: w.write(f"\nfailed obligation: {e['obligation']} in {fn} ({e['at']})\n{e['text']}\n")
        for fn, es in mine.items(): out.append(f"failed obligation: {es[0]['obligation']} in {fn} ({es[0]['at']})")
        out.append(f"counterexample on the real crate: {f['history']} -> {f['what']}")
        out.append(f'VIOLATION property={prop} replay={rpath}')
    elif hard:
        viol = 1; verdict = 'violated'
        with open(rpath, 'w') as w:
            w.write(f'property {prop}\nobligations that were discharged on the unchanged code and fail now; no failing input was found\n')
            for fn, es in hard.items():
                for e in es: w.write(f"\nfailed obligation: {e['obligation']} in {fn} ({e['at']})\n{e['text']}\n")
        for fn, es in hard.items(): out.append(f"failed obligation: {es[0]['obligation']} in {fn} ({es[0]['at']})")
        out.append(f'VIOLATION property={prop} replay={rpath} no-failing-input-found')
    else:
        if v['status'] == 'proved': out.append(f"proved: Verus accepted all {stats.get('verus_verified')} functions and lemmas ({len(proved_here)} under contract for {prop})")
        elif v['failed'] and not mine and not v['reasons']: out.append(f"the obligations of {prop} are discharged; failing elsewhere: {', '.join(sorted(v['failed']))}")
        else: out.append(f"PROOF NOT RE-ESTABLISHED on this tree ({'; '.join(v['reasons'])[:700] or 'obligation fails in changed code'}); the bounded search below stands in")
        if x.get('error'): out.append('bounded search gave no result: ' + x['error'][:500])
        else: out.append(f"bounded search: {x.get('runs')} histories of the real crate, no violation")
        if pr and pr['silent']: out.append('vacuity probe did not fail in: ' + ', '.join(pr['silent']))
    known = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(known):
        for l in open(known):
            if l.startswith('KNOWN-FINDING:') and f'property={prop} ' in l: out.append(l.strip())
    cov = {
        'obligations': stats.get('verus_verified', 0) + stats.get('verus_errors', 0), 'discharged': stats.get('verus_verified', 0),
        'checker_cmd': 'verus xecs_verified.rs (extracted from /repo/src on this run)',
        'trusted_base': trusted(lines),
        'proof_status': v['status'], 'proof_reasons': v['reasons'], 'failed_obligations': {f: [e['obligation'] for e in es] for f, es in v['failed'].items()},
        'functions_under_contract_for_this_property': proved_here, 'declared_but_trusted_bodies': [f for f in mineF if f in stubbed],
        'lemmas': LEMMAS.get(prop, []),
        'solver': {'back_end': 'Verus, Z3', 'smt_ms': stats.get('smt_ms'), 'cpu_ms': stats.get('cpu_ms'), 'wall_ms': stats.get('wall_ms'), 'rlimit': stats.get('rlimit')},
        'extraction_rules': (v.get('report') or {}).get('rules'), 'dropped_by_extraction': (v.get('report') or {}).get('dropped'),
        'vacuity_probe': pr,
        'bounded_search': {k: x.get(k) for k in ('runs', 'steps', 'distinct_nontrivial', 'exhaustive_depth', 'exhaustive_total', 'exhaustive_complete', 'exhaustive_alphabet', 'exhaustive_prefixes', 'foreign_failures', 'bounds', 'hunt_runs', 'error') if k in x},
        'evaluations': int(x.get('runs') or 0), 'distinct_nontrivial': int(x.get('distinct_nontrivial') or 0),
        'rule': 'bounded search: histories of public operations on a World compared with a reference model after every operation; non-trivial: distinct history in which the property\'s own operation acts on existing state',
        'samples': x.get('samples', [])[:5],
        'explanation': 'obligations counts Verus verification units (functions, loops merged in, and lemmas) of the extracted crate; the bounded search is labelled bounded and not counted as proved',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as w: json.dump(ev, w, indent=1)
    print('\n'.join(out)); sys.stdout.flush()
    return 1 if viol else 0

def LEVEL(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        return next(c['level'] for c in m['checks'] if c['property'] == prop)
    except Exception: return 'proof'

ASSUMPTIONS = [
    'the shim contracts for std and parking_lot (00_prelude.vc) describe the real ones: Vec, Option, HashMap keyed by TypeId, NonZeroUsize, TypeId, RwLock',
    'locks: a guard is the reference it hands out, writes made through it are in the storage when it is dropped; waiting, contention and deadlock are not modelled (one thread, no guard held across a call that locks the same storage)',
    'raw pointers kept beside their guard point into the guarded value while the guard lives (PtrMut); given_back: while a mutable query holds a storage, what it writes through the pointer is what the storage holds when the guard is dropped, and nobody else adds or removes components of that type meanwhile (the iterators are proved to keep their side: stamp)',
    'World::query precondition fine(): no part of a query writes a component type another part of it reads or writes (the real call would wait for itself)',
    'the four downcasts of component.rs and resource.rs (bodies pinned) are sound when the storage has that type; the map from TypeId to storage keeps that (proved)',
    'Entity and Entities handles carry live ids (they are only made by create_entity, create_entities, entity and entities, and removal needs &mut World)',
    'machine arithmetic is checked, except that fewer than usize::MAX ids are handed out in total (create_entities: next + n fits)',
    'an owning group ties up two different component types; a group naming one type twice waits for itself and is outside the contracts',
    'allocation does not fail; Debug/Display impls, the scheduler module (empty) and #[cfg(test)] code are outside',
]

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); sys.exit(2)
