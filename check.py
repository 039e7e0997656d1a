#!/usr/bin/env python3
"""check.py PROP [--thorough] [--case NAME] [-v]: discharge the contracts of one property on /repo's working tree."""
import os, sys, json, time, subprocess, multiprocessing as mp, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
ENV = dict(os.environ, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR='/opt/venv/mplconfig')
TRUSTED = [
    'contracts assumed for numpy/scipy/cvxpy/matplotlib functions (vc/nparr.py, vc/npfun.py, vc/models.py): definitions over exact real/complex arithmetic; LAPACK-type results (eigh, svd, inv, roots, sqrtm, find_peaks, argmin ties ...) are uninterpreted functions of their argument with the axioms listed in DESIGN.md',
    'machine arithmetic treated as mathematical reals/integers (no rounding, overflow or NaN propagation)',
    'the semantics of the Python subset in vc/interp.py and vc/loops.py, the term algebra in vc/terms.py and vc/prove.py',
    'z3 (linear/nonlinear arithmetic and uninterpreted functions, per-query timeout; unknown counts as not proved)',
]

def sym_job(args):
    prop, name, tier, pks = args
    from vc import interp as IP, models, world, prove, loops
    import contracts
    c = contracts.load_all()[prop][name]
    t0 = time.time()
    try:
        pkg = IP.Package(REPO, models.build())
        IP.PKG[0] = pkg
        np = pkg.import_('numpy')
        pkg.load('doatools')
    except Exception as e:
        return name, {'obligations': {}, 'fails': [], 'unsupported': [('load', '%s: %s' % (type(e).__name__, str(e)[:300]), None)], 'paths': 0, 'hints': [], 'reached': 0, 'time': time.time() - t0,
                      'functions': {}, 'stats': dict(prove.STATS), 'loops': dict(loops.COUNT), 'infeasible': 0, 'mode': 'none'}
    pkg.calls.clear()
    dl = t0 + c.deadline
    np = world_np(pkg)
    if c.sym == 'full':
        r = world.explore(c.fn, pkg, np, None, c.max_paths, dl)
        r['mode'] = 'unbounded'
        if r['unsupported'] and not r['fails']:
            r2 = bounded(world, c, pkg, np, None)
            r['bounded'] = r2
            r['hints'] += r2['hints'][:30]
    elif c.sym == 'shapes':
        # shapes 'symbolic': array sizes stay symbolic, only the lengths named in why are bounded
        r = world.explore(c.fn, pkg, np, None, c.max_paths, dl) if c.shapes == 'symbolic' else bounded(world, c, pkg, np, c.shapes)
        r['mode'] = 'bounded shapes'
    else:
        r = {'obligations': {}, 'fails': [], 'unsupported': [], 'paths': 0, 'hints': [], 'reached': 0, 'time': 0, 'infeasible': 0, 'mode': 'concrete only'}
    r['functions'] = {k: v for k, v in pkg.calls.items()}
    r['stats'] = dict(prove.STATS)
    r['loops'] = dict(loops.COUNT)
    return name, r

def world_np(pkg):
    return pkg.import_('numpy')

def bounded(world, c, pkg, np, shapes):
    tot = None
    if shapes is None:
        def mk(s):
            def f(name, lo, hi):
                l = lo if isinstance(lo, int) else 1
                v = l + (sum(map(ord, name)) * (s + 1) + s) % 3
                return v if hi is None or not isinstance(hi, int) else min(v, hi)
            return {'*': f}
        shapes = [mk(s) for s in range(3)]
    else:
        shapes = [dict(s, **{'*': lambda name, lo, hi: lo if isinstance(lo, int) else 1}) for s in shapes]
    t0 = time.time()
    for s in shapes:
        r = world.explore(c.fn, pkg, np, s, c.max_paths, time.time() + c.deadline / (2 * len(shapes)))
        if tot is None: tot = r
        else:
            for k in ('fails', 'unsupported', 'hints'): tot[k] += r[k]
            for k in ('paths', 'reached', 'infeasible'): tot[k] += r[k]
            for k, v in r['obligations'].items():
                o = tot['obligations'].setdefault(k, [0, 0])
                o[0] += v[0]; o[1] += v[1]
    tot['time'] = time.time() - t0
    return tot

RLIMIT = 4000000

def run_sym(prop, names, tier, procs, verbose, effort=1):
    """one process per contract, with a hard limit"""
    import contracts
    cs = contracts.load_all()[prop]
    from vc import prove
    prove.RLIMIT[0] = RLIMIT * effort
    ctxm = mp.get_context('fork')
    res, running = {}, {}
    todo = sorted(names, key=lambda n: -cs[n].weight)
    from vc import interp, models, world      # import once before forking
    while todo or running:
        while todo and len(running) < procs:
            n = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(b, (prop, n, tier, None)))
            p.start()
            b.close()
            running[n] = (p, a, time.time())
        for n in list(running):
            p, a, t = running[n]
            done = None
            try:
                if a.poll(0.02): done = a.recv()
            except EOFError: done = (n, err('the verifier process ended without a result'))
            if done is None and time.time() - t > cs[n].deadline * 1.6 + 20:
                done = (n, err('time limit'))
            if done is not None:
                if p.is_alive() and done[1].get('error'): p.kill()
                p.join()
                res[n] = done[1]
                del running[n]
                if verbose: print('  %-40s %s' % (n, brief(done[1])), flush=True)
    return res

def err(msg):
    return {'obligations': {}, 'fails': [], 'unsupported': [('supported', msg, None)], 'paths': 0, 'hints': [], 'reached': 0, 'time': 0, 'functions': {}, 'stats': {}, 'loops': {}, 'infeasible': 0, 'mode': 'none', 'error': True}

def child(conn, a):
    try:
        signal.alarm(0)
        r = sym_job(a)
    except BaseException as e:
        r = (a[1], err('%s: %s' % (type(e).__name__, traceback.format_exc()[-700:])))
    conn.send(r)
    conn.close()
    os._exit(0)

def brief(r):
    ok = sum(v[0] for v in r['obligations'].values())
    bad = sum(v[1] for v in r['obligations'].values())
    return '%s paths=%d ok=%d fail=%d unsup=%d %.1fs' % (r['mode'], r['paths'], ok, bad - len([u for u in r['unsupported']]) if bad else 0, len(r['unsupported']), r.get('time', 0))

def run_conc(prop, jobs, seed, procs, timeout):
    chunks = [[] for _ in range(min(procs, len(jobs)) or 1)]
    for k, j in enumerate(sorted(jobs, key=lambda j: -j['budget'])): chunks[k % len(chunks)].append(j)
    ps = []
    for ch in chunks:
        if not ch: continue
        p = subprocess.Popen([VENV, os.path.join(HERE, 'vc', 'concrete.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd='/tmp')
        p.stdin.write(json.dumps({'repo': REPO, 'prop': prop, 'seed': seed, 'jobs': ch}).encode())
        p.stdin.close()
        ps.append((p, ch))
    import threading
    outs = {}
    def rd(i, p):
        e = []
        t = threading.Thread(target=lambda: e.append(p.stderr.read()))
        t.start()
        outs[i] = (p.stdout.read(), e)
        t.join()
    ts = [threading.Thread(target=rd, args=(i, p)) for i, (p, ch) in enumerate(ps)]
    for t in ts: t.start()
    end = time.time() + timeout
    for t in ts: t.join(max(0.1, end - time.time()))
    for p, ch in ps:
        if p.poll() is None: p.kill()
    for t in ts: t.join()
    res, problems = {}, []
    for i, (p, ch) in enumerate(ps):
        o, e = outs.get(i, (b'', []))
        try:
            d = json.loads(o)
            if 'import_error' in d: problems.append('import: ' + d['import_error'])
            res.update(d['cases'])
        except ValueError:
            problems.append('concrete runner: ' + (e[0].decode()[-400:] if e else 'no output'))
    return res, problems

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--case', action='append')
    ap.add_argument('--nosym', action='store_true')
    ap.add_argument('--noconc', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    t0 = time.time()
    import contracts
    cs = contracts.load_all()[prop]
    if a.replay:
        rp = json.load(open(a.replay))
        res, prob = run_conc(prop, [{'case': rp['case'], 'n': 1, 'budget': 60, 'replay': rp}], seed, 1, 200)
        print(json.dumps(res, indent=1), prob)
        sys.exit(1 if any(r['fails'] for r in res.values()) else 0)
    names = [n for n in cs if not a.case or n in a.case]
    procs = 8
    sym = {} if a.nosym else run_sym(prop, names, tier, procs, a.v)
    conc, problems = {}, []
    if not a.noconc:
        per = (6.0 if tier == 'quick' else 90.0)
        jobs = []
        for n in names:
            r = sym.get(n, {})
            hs = [h for _, _, h in r.get('fails', []) + (r.get('bounded') or {}).get('fails', []) if h] + [h for _, _, h in r.get('unsupported', []) if h] + r.get('hints', [])
            uniq = []
            for h in hs:
                if h and h not in uniq: uniq.append(h)
            bad = bool(r.get('fails') or r.get('unsupported'))
            jobs.append({'case': n, 'n': (150 if tier == 'quick' else 3000) * (8 if bad else 1), 'budget': per * cs[n].weight * (4 if bad else 1), 'hints': uniq[:40], 'min': 4})
        conc, problems = run_conc(prop, jobs, seed, procs, 420 if tier == 'quick' else 3600)
        # a second attempt with more solver work at the obligations that were not proved and for which no failing input was found
        again = [n for n, r in sym.items() if r['fails'] and not conc.get(n, {}).get('fails')]
        if again and time.time() - t0 + max(cs[n].deadline for n in again) * 1.6 < (700 if tier == 'quick' else 5000):
            for n, r in run_sym(prop, again, tier, procs, a.v, 4).items():
                if not r['fails'] and not r['unsupported'] and r['obligations']: sym[n] = r
    finish(prop, tier, seed, cs, names, sym, conc, problems, t0, a.v, partial=bool(a.case or a.nosym or a.noconc))

def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == prop: out.append(d)
    return out

def finish(prop, tier, seed, cs, names, sym, conc, problems, t0, verbose, partial):
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    kn = known(prop)
    used = set()
    def is_known(case, ob):
        for k, d in enumerate(kn):
            if d['case'] == case and ob in d['obligations']:
                used.add(k)
                return True
        return False
    viol = []
    for n in names:
        s, c = sym.get(n), conc.get(n)
        failing = []
        if s:
            seen = set()
            # obligations left open by the bounded fall-back decide nothing on their own: their models go to the concrete replay
            for nm, det, h in s['fails']:
                if nm not in seen and not is_known(n, nm):
                    seen.add(nm)
                    failing.append((nm, det, h))
        cf = []
        for f in (c or {}).get('fails', []):
            obs = [o for o in f['obligations'] if not is_known(n, o[0])]
            if obs: cf.append(dict(f, obligations=obs))
        if cf:
            f = cf[0]
            path = os.path.join(rd, '%s_%s.json' % (prop, n))
            json.dump({'property': prop, 'case': n, 'seed': f['seed'], 'hint': f['hint'], 'big': f.get('big', False), 'failed_obligations': f['obligations'], 'inputs': f['inputs'],
                       'verifier': [{'obligation': x[0], 'output': x[1]} for x in failing], 'functions': cs[n].fns,
                       'how': 'python3-vt check.py %s --replay %s' % (prop, path)}, open(path, 'w'), indent=1, default=str)
            viol.append((n, f['obligations'][0][0], path, True, f['obligations'][0][1]))
        elif failing:
            path = os.path.join(rd, '%s_%s.json' % (prop, n))
            json.dump({'property': prop, 'case': n, 'failed_obligations': [{'obligation': x[0], 'verifier_output': x[1], 'model': x[2]} for x in failing], 'functions': cs[n].fns,
                       'note': 'the verifier did not accept the obligation; no failing input was found by replaying its models and by sampling'}, open(path, 'w'), indent=1, default=str)
            viol.append((n, failing[0][0], path, False, failing[0][1]))
        elif s is not None and (c is None or (c['ok'] == 0)) and not s['obligations']:
            path = os.path.join(rd, '%s_%s.json' % (prop, n))
            json.dump({'property': prop, 'case': n, 'failed_obligations': [{'obligation': 'supported', 'verifier_output': str(s['unsupported'][:5])}], 'problems': problems}, open(path, 'w'), indent=1, default=str)
            viol.append((n, 'no obligation could be generated', path, False, str(s['unsupported'][:1]) + str(problems[:1])))
    # --- evidence
    ob = sum(v[0] + v[1] for r in sym.values() if r['mode'] == 'unbounded' for v in r['obligations'].values())
    dis = sum(v[0] for r in sym.values() if r['mode'] == 'unbounded' for v in r['obligations'].values())
    bob = sum(v[0] + v[1] for r in sym.values() for q in ([r] if r['mode'] == 'bounded shapes' else [r['bounded']] if r.get('bounded') else []) for v in q['obligations'].values())
    bdis = sum(v[0] for r in sym.values() for q in ([r] if r['mode'] == 'bounded shapes' else [r['bounded']] if r.get('bounded') else []) for v in q['obligations'].values())
    fns = {}
    for r in sym.values():
        for k, v in r['functions'].items(): fns[k] = fns.get(k, 0) + v
    ver = {}
    for n in names:
        for f in cs[n].fns: ver.setdefault(f, []).append(n)
    st = lambda k: sum(r['stats'].get(k, 0) for r in sym.values())
    unproved = {n: [u[:2] for u in r['unsupported'][:4]] for n, r in sym.items() if r['unsupported']}
    cov = {
        'obligations': ob, 'discharged': dis, 'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': TRUSTED,
        'contracts': {n: {'mode': r['mode'], 'about': cs[n].fns, 'paths': r['paths'], 'infeasible_paths': r['infeasible'], 'obligations': {k: v[0] for k, v in r['obligations'].items()}, 'seconds': round(r.get('time', 0), 2), **({'why_bounded': cs[n].why} if cs[n].sym != 'full' else {})} for n, r in sym.items()},
        'functions_under_contract': sorted(ver), 'functions_executed_symbolically': {k: fns[k] for k in sorted(fns)},
        'loops_summarised': sum(r['loops'].get('loops', 0) for r in sym.values()), 'loop_invariants_verified': sum(r['loops'].get('preserved', 0) for r in sym.values()),
        'solver': {'back_ends': 'term normaliser vc/prove.py; z3', 'z3_queries': st('queries'), 'z3_unsat': st('smt_unsat'), 'z3_unknown': st('unknown'), 'z3_seconds': round(st('solver_s'), 2)},
        'bounded': {'label': 'bounded, not counted as proved', 'bounded_shape_obligations': bob, 'bounded_shape_discharged': bdis,
                    'concrete_runs': sum(c['runs'] for c in conc.values()), 'concrete_ok': sum(c['ok'] for c in conc.values()), 'concrete_checks': sum(c['checks'] for c in conc.values()),
                    'concrete_runs_from_verifier_models': sum(c['hints'] for c in conc.values()), 'rejected_by_precondition': sum(c['skips'] for c in conc.values())},
        'not_proved': unproved, 'problems': problems,
    }
    import contracts
    # the main contracts of these properties are bounded stand-ins
    level = 'other' if prop in contracts.BOUNDED else 'proof'
    if level == 'other':
        cov['explanation'] = ('bounded symbolic execution of the real code: the contracts %s are discharged for all values but only for the listed shapes; contracts about '
                              'degenerate inputs are discharged for all sizes' % ', '.join(n for n, c in cs.items() if c.sym != 'full'))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ['see trusted_base', 'preconditions of each contract: stated in contracts/ (w.dim/w.scalar/w.arr ranges and w.assume)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not partial or not os.path.exists(os.path.join(HERE, 'evidence', prop + '.json')):
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    if verbose:
        for n, r in sym.items():
            for x in r['fails'][:6]: print('   FAIL %s/%s: %s  %s' % (n, x[0], x[1][:240], x[2]))
            for x in r['unsupported'][:4]: print('   UNSUPPORTED %s/%s: %s' % (n, x[0], x[1][:600]))
            for x in (r.get('bounded') or {}).get('fails', [])[:3]: print('   BFAIL %s/%s: %s' % (n, x[0], x[1][:400]))
            for x in (r.get('bounded') or {}).get('unsupported', [])[:3]: print('   BUNSUP %s/%s: %s' % (n, x[0], x[1][:400]))
        for n, c in conc.items():
            print('  conc %-36s runs=%d ok=%d skip=%d checks=%d fails=%d %.1fs' % (n, c['runs'], c['ok'], c['skips'], c['checks'], len(c['fails']), c.get('time', 0)))
            for f in c['fails'][:2]: print('     ', f['obligations'][:2], str(f['inputs'])[:300])
        print(problems)
    print('%s: %d obligations, %d discharged (%d bounded-shape), %d contracts, %d functions, %d concrete runs, %.1fs' % (prop, ob, dis, bdis, len(names), len(ver), cov['bounded']['concrete_runs'], time.time() - t0))
    for k in sorted(used): print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]['what']))
    if problems and not conc and not viol:
        path = os.path.join(rd, '%s_run.json' % prop)
        json.dump({'property': prop, 'problems': problems}, open(path, 'w'))
        viol.append(('run', 'the package could not be run', path, False, str(problems)))
    for n, o, path, conc_, det in viol:
        print('violated: contract %s, obligation "%s": %s' % (n, o, ' '.join(str(det)[:300].split())))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conc_ else ' no-failing-input-found'))
    sys.stdout.flush()
    os._exit(1 if viol else 0)

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':      # the same order of sets, hence the same queries, in every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    main()
