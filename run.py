#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, re, shutil, tempfile, subprocess, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from sxlib import V

def parse_stats(p):
    st = {'reach': {}, 'labels': {}, 'notes': [], 'cov': []}
    if not os.path.exists(p): return None
    for l in open(p, errors='replace'):
        l = l.rstrip('\n'); k, _, r = l.partition(' ')
        if k == 'reach': a = r.rsplit(' ', 1); st['reach'][a[0]] = int(a[1])
        elif k == 'label': a = r.split(' ', 1); st['labels'][a[1]] = int(a[0])
        elif k == 'note': st['notes'].append(r)
        elif k == 'cov': st['cov'].append(r)
        elif r: st[k] = float(r) if '.' in r else int(r)
    return st

def parse_ce(p):
    out = []
    if not os.path.exists(p): return out
    for blk in re.split(r'^CE\n', open(p, errors='replace').read(), flags=re.M):
        if not blk.strip(): continue
        d = {'text': blk, 'kind': '', 'label': '', 'trail': '', 'detail': '', 'fn': ''}
        for l in blk.split('\n'):
            k, _, r = l.partition(' ')
            if k in d and k != 'text': d[k] = r
        out.append(d)
    return out

def known():
    r = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) harness=(\S+) label=(\S+) trail=/(.*?)/ (.*)', l)
            if m: r.append(m.groups())
    return r

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(V + '/checks.json'))[prop]
    budget = float(os.environ.get('SX_BUDGET', 600 if tier == 'quick' else 3000))
    t0 = time.time()
    try: eng = sxlib.engine()
    except sxlib.BuildError as e: print('ERROR: cannot build the engine: %s' % e); sys.exit(2)
    base = '/tmp' if os.access('/tmp', os.W_OK) else V + '/build'
    work = tempfile.mkdtemp(prefix='sx_%s_' % prop, dir=base)
    rc = 2
    try: rc = go(prop, tier, seed, cfg, budget, eng, work, t0)
    except sxlib.BuildError as e:
        print('ERROR: cannot build: %s' % e); rc = 2
    finally:
        if not os.environ.get('SX_KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('work', work)
    sys.exit(rc)

def go(prop, tier, seed, cfg, budget, eng, work, t0):
    objs = sxlib.build_lib(work, eng)
    hs = cfg['harness'] if tier == 'quick' else cfg.get('harness_thorough', cfg['harness'])
    jobs = []
    for h in hs:
        if isinstance(h, str): h = {'file': h}
        jobs.append(dict(h))
    only = os.environ.get('SX_ONLY')
    if only: jobs = [j for j in jobs if only in j['file']]
    kn = [k for k in known() if k[0] == prop]
    sem = threading.Semaphore(3); lock = threading.Lock(); buildsem = threading.Semaphore(4)
    def work1(i, j):
        with sem:
            try:
                src = V + '/harness/' + j['file'] + '.c'
                defs = list(j.get('defs', [])) + (['-DSX_THOROUGH'] if tier == 'thorough' else [])
                wd = '%s/j%d' % (work, i); os.makedirs(wd)
                for n in ('src', 'internal.txt'): os.symlink(work + '/' + n, wd + '/' + n)
                exe = sxlib.build_harness(wd, eng, objs, src, defs)
                env = dict(os.environ); env['SX_QT'] = str(j.get('qt', 6 if tier == 'quick' else 30)); env['OMP_NUM_THREADS'] = '1'
                env['SX_KNOWN'] = ' '.join(k[2] for k in kn if k[1] == j['file'])
                env['TMPDIR'] = wd
                secs = min(j.get('secs', 10**6), budget)
                with open(wd + '/log', 'w') as lf:
                    p = subprocess.Popen([exe, wd + '/o', str(j.get('slots', 4)), str(secs)], stdout=lf, stderr=lf, cwd=wd, env=env, start_new_session=True)
                    try: p.wait(timeout=secs + 60)
                    except subprocess.TimeoutExpired:
                        try: os.killpg(p.pid, 9)
                        except ProcessLookupError: pass
                        p.wait()
                j['st'] = parse_stats(wd + '/o.stats'); j['ce'] = parse_ce(wd + '/o.ce'); j['wd'] = wd; j['defs_'] = defs
            except sxlib.BuildError as e: j['err'] = str(e)
    ths = [threading.Thread(target=work1, args=(i, j)) for i, j in enumerate(jobs)]
    [t.start() for t in ths]; [t.join() for t in ths]
    errs = [j for j in jobs if 'err' in j]
    if errs: raise sxlib.BuildError('%s: %s' % (errs[0]['file'], errs[0]['err']))
    # counterexamples
    rep = None; viol = []; inconc = []; knownhits = set()
    for j in jobs:
        seen = {}
        for c in j['ce']:
            kf = [k for k in kn if k[1] == j['file'] and k[2] == c['label'].replace(' ', '_') and re.search(k[3], c['trail'])]
            if kf: knownhits.add(kf[0]); continue
            n = seen.get(c['label'], 0)
            if n >= 4 or any(v[0] is j and v[1]['label'] == c['label'] for v in viol): continue
            seen[c['label']] = n + 1
            if rep is None: rep = sxlib.build_replay_lib(work)
            ok, out = replay(work, j, c, rep)
            if ok: viol.append((j, c, out))
            else: inconc.append('%s: counterexample for "%s" did not reproduce on the real build (%s)' % (j['file'], c['label'], out.strip().split('\n')[-1][:120]))
    os.makedirs(V + '/evidence', exist_ok=True)
    lines = []
    for k in sorted(knownhits): print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k[4], k[2]))
    if viol:
        rd = '%s/evidence/replay_%s' % (V, prop); shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        for i, (j, c, out) in enumerate(viol):
            fn = '%s/%s_%d.txt' % (rd, j['file'], i)
            open(fn, 'w').write('property %s\nharness harness/%s.c %s\n%s\n--- replay on the real code:\n%s\n' % (prop, j['file'], ' '.join(j['defs_']), c['text'], out))
            print('  counterexample: harness %s, claim "%s" (%s) at [%s]' % (j['file'], c['label'], c['detail'], c['trail']))
            lines.append('VIOLATION property=%s replay=%s' % (prop, fn))
    tot = {}
    funcs = set(); notes = []; reach = {}; vac = []; labels = {}
    for j in jobs:
        st = j['st']
        if st is None: inconc.append('%s: no statistics written' % j['file']); continue
        for k, v in st.items():
            if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
        funcs |= set(st['cov']); notes += ['%s: %s' % (j['file'], n) for n in st['notes']]
        for l, n in st['labels'].items(): labels[j['file'] + ':' + l] = n
        text = open(V + '/harness/' + j['file'] + '.c').read()
        want = set(re.findall(r'sx_reach\("([^"]+)"\)', text))
        if j.get('expect_reach'): want = set(j['expect_reach'])
        for w in want:
            if not st['reach'].get(w): vac.append('%s: witness %s not reached' % (j['file'], w))
        reach[j['file']] = st['reach']
    bad = inconc + vac + notes
    for n in bad[:30]: print('  note: ' + n)
    cov = {'explanation': 'Symbolic execution of the real library code compiled from /repo now (LLVM IR), every path within the bounds; each claim is an exact-real-arithmetic assertion decided per path by the algebraic normaliser or z3. Bounds: ' + cfg['bounds'] + ' Outside the claim: floating-point rounding, larger shapes, true thread concurrency.',
           'harnesses': [j['file'] + (' ' + ' '.join(j.get('defs', [])) if j.get('defs') else '') for j in jobs], 'functions_encoded': sorted(funcs), 'paths_completed': tot.get('paths', 0), 'paths_infeasible': tot.get('infeasible', 0), 'paths_abandoned': tot.get('abandoned', 0), 'claims_inconclusive': tot.get('inconclusive', 0), 'forks': tot.get('forks', 0), 'stopped_by_time': tot.get('timeouts', 0),
           'claims_proved_by_normal_form': tot.get('chk_alg', 0), 'claims_proved_by_z3': tot.get('chk_z3', 0), 'claims_decided_on_concrete_path_values': tot.get('chk_conc', 0), 'claims_refuted': tot.get('chk_fail', 0), 'memory_errors': tot.get('crashes', 0),
           'solver_queries': tot.get('queries', 0), 'solver_sat': tot.get('sat', 0), 'solver_unsat': tot.get('unsat', 0), 'solver_unknown': tot.get('unknown', 0), 'solver_seconds': round(tot.get('solver_s', 0), 2), 'max_symbols_in_a_query': tot.get('max_atoms', 0), 'max_branch_depth': tot.get('max_depth', 0), 'reachability_witnesses': reach, 'claims': labels, 'notes': bad[:60], 'known_findings_hit': len(knownhits),
           'exhaustive': not (tot.get('abandoned', 0) or tot.get('inconclusive', 0) or tot.get('timeouts', 0) or inconc or vac)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': cfg.get('assumptions', []) + ['doubles are exact reals (decimal literals read exactly)', 'GSL routines follow the reference models in engine/models.c', 'OpenMP regions run sequentially'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    print('%s %s: %d paths, %d+%d+%d claims proved (normal form, z3, concrete), %d refuted, %d abandoned, %d inconclusive, %d queries %.1fs solver, %.1fs wall' % (prop, tier, tot.get('paths', 0), tot.get('chk_alg', 0), tot.get('chk_z3', 0), tot.get('chk_conc', 0), tot.get('chk_fail', 0), tot.get('abandoned', 0), tot.get('inconclusive', 0) + len(inconc), tot.get('queries', 0), tot.get('solver_s', 0), time.time() - t0))
    for l in lines: print(l)
    return 1 if viol else 0

def replay(work, j, c, rep):
    out = ''
    cef = j['wd'] + '/replay.txt'; open(cef, 'w').write(c['text'])
    for san in ((1, 0) if c['kind'] == 'crash' else (0, 1)):
        exe = '%s/r%s_%s' % (j['wd'], 'A' if san else '', j['file'])
        if not os.path.exists(exe):
            try: sxlib.build_replay(j['wd'], V + '/harness/' + j['file'] + '.c', rep[san], san, j['defs_'])
            except sxlib.BuildError as e: return False, 'replay build failed: %s' % e
        try:
            p = subprocess.run([exe, cef], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, text=True, errors='replace', cwd=j['wd'], env=dict(os.environ, OMP_NUM_THREADS='1'))
            o, r = p.stdout[-6000:], p.returncode
        except subprocess.TimeoutExpired as e: o, r = 'REPLAY timed out', -99
        out += '[%s build] exit %d\n%s\n' % ('ASAN' if san else 'plain', r, o[-3000:])
        if r == 3: return True, out
        if r < 0 and r != -99 or (r == 5): return True, out + 'crash'
        if 'exit-called' in o and c['label'] == 'no-exit': return True, out
        if r == -99 and c['label'] == 'termination': return True, out
    return False, out
if __name__ == '__main__': main()
