#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

1. builds the extractor (vx) and the replay crate against /repo's working tree,
2. extracts /repo's functions and their contracts into one Verus file and has Verus discharge every obligation
   of the functions this property depends on,
3. runs the replay crate (bounded search for a failing input on the real crate): it supplies the failing input of a
   rejected obligation, and stands in (bounded) for functions without a contract.
"""
import json, os, re, subprocess, sys, time, hashlib, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PROPS = ['C%02d' % i for i in range(1, 26)]
# functions a property depends on that carry no contract of their own: decided by the bounded check only
from bounded import BOUNDED, TRUSTED

def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = 124; d = lambda x: x.decode(errors='replace') if isinstance(x, bytes) else (x or '')
        r.stdout = d(e.stdout); r.stderr = d(e.stderr) + '\ntimeout'
        return r

def build():
    e = dict(os.environ, RUSTFLAGS='--cfg dbml_verif')
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, ['cargo', 'build', '--offline', '--quiet'], 400, cwd=V + '/vx')
        b = ex.submit(sh, ['cargo', 'build', '--offline', '--quiet'], 400, cwd=V + '/replay', env=e)
        return a.result(), b.result()

# ---------------------------------------------------------------- replay
def replay(seed, ms, stop, out):
    b = V + '/replay/target/debug/replay'
    if os.path.exists(out): os.unlink(out)
    sh([b, '--seed', str(seed), '--ms', str(ms), '--threads', '8', '--stop', stop, '--out', out], ms / 1000 + 60)
    try: return json.load(open(out))
    except Exception: return None

# ---------------------------------------------------------------- what the extraction keeps
def exval(work, seed, ms, n, have_replay):
    """runs the extracted text (the one the proofs are about, without its contracts) beside the crate, and the grammar
    functions beside pest, on generated documents"""
    run, docs, out = work + '/run.rs', work + '/docs.bin', work + '/exval.json'
    for f in (run, run + '.gram', docs, out):
        if os.path.exists(f): os.unlink(f)
    if not have_replay: return {'not_run': 'no documents'}
    r = sh([V + '/vx/target/debug/vx', '--repo', REPO, '--contracts', V + '/contracts', '--out', work + '/run-gen.rs', '--run', run], 60)
    if not os.path.exists(run + '.gram'): return {'not_run': 'extraction failed'}
    sh([V + '/replay/target/debug/replay', '--dump', docs, '--n', str(n), '--seed', str(seed)], 300)
    r = sh(['cargo', 'build', '--offline', '--quiet'], 400, cwd=V + '/exval', env=dict(os.environ, RUSTFLAGS='--cfg dbml_verif', EXVAL_RUN=run, CARGO_TARGET_DIR=V + '/replay/target'))
    if r.returncode: return {'not_run': 'the extracted text is not complete on this tree (a function outside the language): ' + ' '.join(l for l in r.stderr.split('\n') if l.startswith('error'))[:300]}
    r = sh([V + '/replay/target/debug/exval', '--docs', docs, '--ms', str(ms), '--threads', '4', '--out', out], ms / 1000 + 60)
    try: return json.load(open(out))
    except Exception: return {'not_run': 'no result: ' + r.stderr[-200:]}

# ---------------------------------------------------------------- proof
def rejected(vr, msgs):
    """the verifier did not get as far as the obligations: its type check, or rustc's, refuses the text"""
    return bool(vr.get('encountered-vir-error') or 'verified' not in vr or any((m.get('code') or {}).get('code', '').startswith('E') for m in msgs if m.get('level') == 'error'))


class Proof:
    def __init__(s, work):
        s.work, s.gen = work, work + '/gen.rs'
        s.stubs = {}          # fn -> reason: body outside the verifier's reach
        s.fatal = None
        s.errors = []         # {fn, what, tags, line, text, sure}
        s.fn_ms, s.wall, s.cmd = {}, 0.0, ''
        s.lemmas = []         # lemmas about the specifications that the verifier rejects
        s.limits = {}         # fn -> tool limit (crash, resource limit)
        s.soft = {}           # fn -> reason: its contract may not fit its loops or callees; counts where it is discharged all the same
        s.verified = None
        s.unfold = False      # unfold the shapes of all rules, not only of those a function names
        s.nogram = False      # the lemmas about the grammar are left out: the generated file is rejected with them
        s.gram = {}           # outcome of the lemmas about the grammar

    def extract(s):
        cmd = [V + '/vx/target/debug/vx', '--repo', REPO, '--contracts', V + '/contracts', '--out', s.gen]
        if s.stubs: cmd += ['--stub', ','.join(sorted(s.stubs))]
        if s.nogram: cmd += ['--no-grammar-proof']
        if s.unfold: cmd += ['--unfold-all']
        if os.path.exists(s.gen + '.json'): os.unlink(s.gen + '.json')
        r = sh(cmd, 60)
        try: s.j = json.load(open(s.gen + '.json'))
        except Exception: s.fatal = 'extraction failed: ' + (r.stderr or r.stdout)[-400:]; return False
        if s.j['fatal']: s.fatal = 'extraction failed: %s' % str(s.j['fatal'])[:400]; return False
        s.fns = {f['key']: f for f in s.j['fns']}
        s.src = open(s.gen).read().split('\n')
        return True

    def fn_at(s, line):
        for f in s.j['fns']:
            if f['gen_start'] <= line <= f['gen_end']: return f
        return None

    def clause_at(s, line):
        for c in s.j['clauses']:
            if c['a'] <= line <= c['b']: return c
        return None

    def relevant(s, prop):
        if prop == 'C01': own = {k for k, f in s.fns.items() if f['contract']}
        else: own = {k for k, f in s.fns.items() if prop in f['tags'] and f['contract']}
        seen, todo = set(), sorted(own)
        while todo:
            k = todo.pop()
            if k in seen or k not in s.fns: continue
            seen.add(k)
            todo += [c for c in s.fns[k]['calls'] if c in s.fns and s.fns[c]['contract']]
        return own, seen

    def verus(s, mods, extra=(), timeout=600, root=False):
        cmd = ['verus', s.gen, '--triggers-mode', 'silent', '--multiple-errors', '12', '--output-json', '--time-expanded', '--error-format=json']
        if '--rlimit' not in extra: cmd += ['--rlimit', '60']
        if '--num-threads' not in extra: cmd += ['--num-threads', '8' if len(mods) > 1 else '1']
        cmd += list(extra)
        for m in mods: cmd += ['--verify-only-module', m]
        if root: cmd += ['--verify-root']
        r = sh(cmd, timeout, cwd=s.work)
        s.cmd = 'verus gen.rs --triggers-mode silent --rlimit 60 --verify-only-module f_<function> (per function of this property)'
        msgs = []
        for l in r.stderr.split('\n'):
            if l.startswith('{'):
                try: msgs.append(json.loads(l))
                except Exception: pass
        try: j = json.loads(r.stdout[r.stdout.index('{'):])
        except Exception: j = None
        crash = 'panicked at' in r.stderr or r.returncode == 124 or j is None
        return msgs, j, crash, r

    def run(s, prop, deadline):
        t0 = time.time()
        for rnd in range(8):
            if not s.extract(): return
            s.soft = {}
            for k, f in s.fns.items():
                if k in s.stubs or not f['contract']: continue
                if f['stub']: s.stubs.setdefault(k, f['reason'])
                elif f['lost_loops']: s.soft[k] = 'loops of the contract no longer found: %s' % f['lost_loops']
                elif f['uncontracted_loops'] : s.soft[k] = 'loops without invariant: %s' % f['uncontracted_loops']
                elif any(c in s.fns and not s.fns[c]['contract'] for c in f['calls']):
                    s.soft[k] = 'calls functions without contract: %s' % [c for c in f['calls'] if c in s.fns and not s.fns[c]['contract']]
            s.own, s.rel = s.relevant(prop)
            mods = [s.fns[k]['module'] for k in sorted(s.rel) if k not in s.stubs]
            if not mods: break
            with cf.ThreadPoolExecutor(2) as ex:
                g = ex.submit(s.grammar)
                msgs, j, crash, r = s.verus(mods, timeout=max(60, deadline - time.time()), root=True)
                s.gram = g.result()
            vr = (j or {}).get('verification-results', {})
            errs = [m for m in msgs if m.get('level', '').startswith('error') and m.get('spans')]
            if not crash and rejected(vr, errs):
                # type errors: the function is not in the subset the verifier takes
                bad = {}
                for m in errs:
                    f = None
                    for sp in m['spans']:
                        f = f or s.fn_at(sp['line_start'])
                    if f is None or f['key'] in s.stubs: continue
                    bad[f['key']] = 'outside the verifier\'s language: ' + m['message'][:160]
                if not bad and not s.nogram: s.nogram = True; continue
                if not bad: s.fatal = 'generated file rejected: ' + '; '.join(m['message'][:200] for m in errs[:3]) + (r.stderr[-300:] if not errs else ''); return
                s.stubs.update(bad); continue
            if crash:
                # one process per function, so that a crash of the verifier is pinned to one of them
                with cf.ThreadPoolExecutor(8) as ex:
                    for k, (msgs, j, crash, r) in ex.map(lambda k: (k, s.verus([s.fns[k]['module']], timeout=200)), [k for k in sorted(s.rel) if k not in s.stubs]):
                        if crash or rejected((j or {}).get('verification-results', {}), msgs): s.limits[k] = 'the verifier crashed'
                        else: s.collect(msgs, j)
            else: s.collect(msgs, j)
            if s.lemmas:
                # a contract that rests on a lemma which does not hold proves nothing
                msgs, j, crash, r = s.verus([], ['--rlimit', '200', '--smt-option', 'smt.random_seed=7'], timeout=200, root=True)
                s.lemmas = []; s.collect(msgs, j or {})
                if s.lemmas or crash: s.fatal = 'lemma not proved: ' + '; '.join(s.lemmas[:3]); s.errors = []; return
            # what is not discharged in such a function says nothing about the code: its contract does not fit the text any more
            for k in {e['fn'] for e in s.errors} | set(s.limits):
                if k in s.soft: s.limits[k] = s.soft[k]
            s.errors = [e for e in s.errors if e['fn'] not in s.soft]
            s.retry(deadline)
            break
        s.wall = time.time() - t0

    def grammar(s):
        """the lemmas that every accepted text yields a tree of the shape the contracts start from; where one is not
        discharged (a grammar beyond the generated proofs), that shape is an assumption of this run"""
        g = s.j['grammar']
        out = {'rules': g['rules'], 'discharged': 0, 'not_discharged': [], 'solver_ms': 0}
        if g['error']: out['assumed'] = 'shape of the parse tree: ' + g['error']; return out
        mods, extra = ['peg'] + g['mods'], ['--num-threads', '4']
        for rnd in range(2):
            msgs, j, crash, r = s.verus(mods, extra, timeout=200)
            vr = (j or {}).get('verification-results', {})
            errs = [m for m in msgs if m.get('level') == 'error' and m.get('spans')]
            out['solver_ms'] += round(sum(m['time-micros'] for m in (j or {}).get('times-ms', {}).get('smt', {}).get('smt-run-module-times', [])) / 1000)
            if not crash and not rejected(vr, errs):
                out['discharged'] = vr['verified']
                out['not_discharged'] = ['%s: %s' % (m['message'][:120], s.text(m['spans'][0]['line_start'])[:160]) for m in errs]
                if not errs: return out
            extra = ['--num-threads', '4', '--rlimit', '200', '--smt-option', 'smt.random_seed=7']
        out['assumed'] = 'shape of the parse tree: lemmas about the grammar not discharged on this tree'
        return out

    def collect(s, msgs, j):
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            s.fn_ms[m['module']] = s.fn_ms.get(m['module'], 0) + m['time-micros'] / 1000
        for m in msgs:
            if m.get('level') != 'error' or not m.get('spans'): continue
            spans = m['spans']
            prim = [x for x in spans if x['is_primary']] or spans
            fn = None
            for x in spans:
                f = s.fn_at(x['line_start'])
                if f is not None and f['gen_start'] <= x['line_start'] <= f['gen_end']:
                    # the failing function is the one whose body the error runs through
                    if x['line_start'] >= f['gen_body'] or fn is None: fn = f
            if fn is None: s.lemmas.append('%s: %s' % (m['message'][:120], s.text(prim[0]['line_start'])[:200])); continue
            if 'rlimit' in m['message'] or 'Resource limit' in m['message']: s.limits[fn['key']] = m['message'][:120]; continue
            e = {'fn': fn['key'], 'what': m['message'], 'tags': None, 'clause': '', 'line': prim[0]['line_start']}
            if 'precondition' in m['message']:
                pre = next((x for x in spans if (x.get('label') or '').startswith('failed precondition')), None) or prim[0]
                inside = s.fn_at(pre['line_start'])
                call = next((x for x in spans if x is not pre), pre)
                e['line'] = call['line_start']
                e['clause'] = s.text(pre['line_start'])
                if inside is None: e['tags'] = ['C01']
                else:
                    c = s.clause_at(pre['line_start'])
                    e['tags'] = (c or {}).get('tags') or None
            elif any(w in m['message'] for w in ('overflow', 'underflow', 'decreases', 'divide', 'recursion', 'termination')): e['tags'] = ['C01']; e['clause'] = s.text(prim[0]['line_start'])
            else:
                e['clause'] = s.text(prim[0]['line_start'])
                c = s.clause_at(prim[0]['line_start'])
                if c: e['tags'] = c['tags'] or None; e['kind'] = c['what']
            s.errors.append(e)

    def text(s, l): return s.src[l - 1].strip()[:400] if 0 < l <= len(s.src) else ''

    def retry(s, deadline):
        """a second attempt with a larger budget, another seed and all shapes unfolded, so that an unstable proof does not raise an alarm"""
        todo = sorted({e['fn'] for e in s.errors} | set(s.limits))
        todo = [k for k in todo if k in s.rel and k not in s.stubs and k not in s.soft]
        if not todo or time.time() > deadline - 60 or len(todo) > 12: return
        s.unfold = True
        if not s.extract(): s.fatal = s.fatal or 'extraction failed'; return
        def one(k): return k, s.verus([s.fns[k]['module']], ['--rlimit', '200', '--smt-option', 'smt.random_seed=7'], timeout=200)
        with cf.ThreadPoolExecutor(8) as ex:
            for k, (msgs, j, crash, r) in ex.map(one, todo):
                if crash or rejected((j or {}).get('verification-results', {}), msgs): continue
                old, s.errors = [e for e in s.errors if e['fn'] == k], [e for e in s.errors if e['fn'] != k]
                was = s.limits.pop(k, None)
                s.collect(msgs, j)
                if k in s.limits and old: s.errors += old

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    work = '%s/out/%s' % (V, prop)
    os.makedirs(work, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    for f in os.listdir(work):
        if f.startswith('replay-'): os.unlink(os.path.join(work, f))
    deadline = t0 + (420 if tier == 'quick' else 3000)
    a, b = build()
    if a.returncode: print('vx does not build\n' + a.stderr[-2000:]); return 2
    have_replay = b.returncode == 0
    if not have_replay:
        r = sh(['cargo', 'check', '--offline', '--quiet'], 300, cwd=REPO, env=dict(os.environ, CARGO_TARGET_DIR=work + '/chk'))
        if r.returncode: print('/repo does not compile\n' + r.stderr[-2000:]); return 2
        print('note: the replay crate does not build against this tree; proof only\n' + b.stderr[-600:])

    p = Proof(work)
    p.own, p.rel, p.fns, p.j = set(), set(), {}, {'clauses': []}
    with cf.ThreadPoolExecutor(1) as ex:
        x = ex.submit(exval, work, seed, *{'quick': (10000, 2000), 'thorough': (120000, 40000)}[tier], have_replay)
        p.run(prop, deadline)
        p.exval = x.result()
    d = p.exval.get('disagreements', {})
    if d.get('extraction') or d.get('model'):
        # what was verified is not what runs: nothing the verifier says about it counts on this tree
        p.fatal = p.fatal or 'the extracted text does not behave as the crate does: %s' % p.exval['first'][0]['what'][:300]
        p.errors = []
    mine = [e for e in p.errors if e['fn'] in p.own]
    sure = [e for e in mine if e['tags'] and prop in e['tags']]
    shared = [e for e in mine if not e['tags']]
    if prop == 'C01': shared = []

    ms = {'quick': 15000, 'thorough': 600000}[tier]
    rep = replay(seed, ms, prop, work + '/replay.json') if have_replay else None
    if have_replay and rep is None: print('the replay crate gave no result'); return 2
    viol = dict(rep['violations']) if rep else {}
    if prop not in viol and (sure or shared) and rep:
        more = replay(seed + 1000, 60000, prop, work + '/replay2.json')
        if more:
            for k, v in more['violations'].items(): viol.setdefault(k, v)
            rep['evaluations'] += more['evaluations']; rep['distinct'] += more['distinct']

    # ------------------------------------------------------------ verdict
    known = known_findings(prop)
    lines, nviol = [], 0
    if prop in viol and any(k in viol[prop]['input'] for k in known):
        for k in known: lines.append('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
        del viol[prop]
    failed = sure + shared
    if prop in viol:
        path = save(work, prop, viol[prop], failed, p)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path)); nviol = 1
        print('%s: %s' % (prop, viol[prop]['what']))
        print('--- input\n%s\n---' % viol[prop]['input'][:1500])
    else:
        # an obligation that serves several properties, where the running code breaks another one of them: that one's violation
        rest = sure + [e for e in shared if not any(q in viol for q in p.fns[e['fn']]['tags'])]
        if rest:
            path = save(work, prop, None, rest, p)
            for e in rest[:6]: print('failed obligation: %s: %s: %s' % (e['fn'], e['what'], e['clause']))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); nviol = 1
    for k in sorted(set(p.stubs) | set(p.limits)):
        if k in p.own: print('bounded only: %s: %s' % (k, p.stubs.get(k) or p.limits.get(k)))
    if p.fatal: print('proof not available on this tree (bounded check only): ' + p.fatal)

    evidence(prop, tier, seed, t0, p, rep, failed, nviol)
    for l in lines: print(l)
    if not nviol: print('%s holds on everything explored (%s)' % (prop, tier))
    return 1 if nviol else 0

def known_findings(prop):
    out = {}
    for l in open(V + '/known-findings.txt'):
        m = re.match(r'finding: property=(C\d\d) input=(".*?[^\\]") (.*)', l)
        if m and m.group(1) == prop: out[json.loads(m.group(2))] = m.group(3)
    return out

def save(work, prop, v, errs, p):
    path = '%s/replay-%s.txt' % (work, prop)
    with open(path, 'w') as f:
        f.write('property %s\n' % prop)
        if v:
            f.write('what: %s\nrun: replay/target/debug/replay --file <file holding the input below>  (or feed it to dbml_rs::parse_dbml)\n' % v['what'])
            open(work + '/replay-input.dbml', 'w').write(v['input'])
            f.write('input file: %s/replay-input.dbml\n=====input=====\n%s\n=====end=====\n' % (work, v['input']))
        for e in errs:
            k = p.fns[e['fn']]
            f.write('failed obligation in %s (%s:%s)\n  %s\n  clause: %s\n  generated line %d: %s\n' % (e['fn'], k['file'], k['line'], e['what'], e['clause'], e['line'], p.text(e['line'])))
        if errs: f.write('checker: %s\ngenerated file: %s\n' % (p.cmd, p.gen))
    return path

def evidence(prop, tier, seed, t0, p, rep, failed, nviol):
    own = sorted(p.own)
    bad = {e['fn'] for e in p.errors}
    out_of_reach = {k: (p.stubs.get(k) or p.limits.get(k)) for k in own if k in p.stubs or k in p.limits}
    obl, dis = 0, 0
    errlines = {e['clause'] for e in p.errors}
    for k in own:
        f = p.fns[k]
        cl = [c for c in p.j['clauses'] if f['gen_start'] <= c['a'] <= f['gen_end'] and c['what'] != 'requires' and (prop in c['tags'] or not c['tags'])]
        n = len(cl) + 1      # + the body: every call's precondition, index, overflow and termination obligation
        obl += n
        if k in out_of_reach or p.fatal: continue
        miss = sum(1 for c in cl if any(p.text(l) in errlines for l in range(c['a'], c['b'] + 1)))
        body = any(e['fn'] == k and not any(f['gen_start'] <= c['a'] and p.text(c['a']) == e['clause'] for c in cl) for e in p.errors)
        dis += n - miss - (1 if body else 0)
    bnd = BOUNDED.get(prop, [])
    proved = bool(own) and not bnd
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': p.cmd or 'verus (nothing to discharge)',
        'trusted_base': TRUSTED,
        'functions_under_contract': own,
        'contracts_relied_on': sorted(p.rel - p.own),
        'failed_obligations': ['%s: %s: %s' % (e['fn'], e['what'], e['clause']) for e in failed],
        'back_end': 'Verus 0.2026.09.13 / Z3',
        'solver_ms': round(sum(p.fn_ms.values())), 'proof_wall_s': round(p.wall, 1),
        'out_of_reach_on_this_tree': out_of_reach,
        'bounded_functions': bnd,
        'extraction_drops': p.j.get('dropped', []),
        'grammar_shapes': p.j.get('shape_ok', 0),
        'grammar_lemmas': p.gram,
        'extraction_run_beside_the_crate': p.exval,
    }
    if p.fatal: cov['proof_unavailable'] = p.fatal
    if rep:
        cov.update({'evaluations': rep['evaluations'], 'distinct_nontrivial': rep['distinct'],
            'rule': 'random documents (grammar-directed generator with a known tree, rule-breaking mutations, random edits of the text), run through the real crate and compared with an independent oracle; distinct texts longer than 20 bytes count. Bounded: this many documents, no claim beyond them.',
            'exercised_this_property': rep['exercised'].get(prop, 0), 'accepted': rep['accepted'], 'unparsable': rep['unparsable'],
            'samples': rep['samples'][:3]})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if proved else 'exploration', 'coverage': cov,
          'assumptions': TRUSTED + ([p.gram['assumed']] if p.gram.get('assumed') else []) + (['the grammar functions are not those of pest: ' + p.exval['first'][0]['what']] if p.exval.get('disagreements', {}).get('grammar') else []) + (['bounded, not proved: ' + ', '.join(bnd)] if bnd else []),
          'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)

if __name__ == '__main__': sys.exit(main())
