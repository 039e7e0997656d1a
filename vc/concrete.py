"""Runner of the concrete reading (executed by the interpreter which has the real dependencies)."""
import os, sys, json, time, zlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

def main():
    req = json.load(sys.stdin)
    real_out = os.dup(1)
    os.dup2(2, 1)
    from vc import cworld as C
    import contracts
    C.harvest(req['repo'])
    out = {'cases': {}}
    try: C.install(req['repo'])
    except Exception as e:
        out['import_error'] = '%s: %s' % (type(e).__name__, e)
        os.write(real_out, json.dumps(out).encode())
        return
    cs = contracts.load_all()[req['prop']]
    if req['prop'] in C.EXACT: C.TOL[0] = 1e-9
    for job in req['jobs']:
        c = cs[job['case']]
        r = {'runs': 0, 'ok': 0, 'skips': 0, 'checks': 0, 'fails': [], 'hints': 0, 'sample': None}
        out['cases'][job['case']] = r
        if 'replay' in job: todo = [(job['replay']['seed'], job['replay'].get('hint'), job['replay'].get('big', False))]
        else:
            base = zlib.crc32(('%s/%s/%d' % (req['prop'], c.name, req['seed'])).encode())
            todo = []
            hs = job.get('hints') or []
            for k in range(max(job['n'], 2 * len(hs))):
                if k < 2 * len(hs): todo.append((base + k, hs[k % len(hs)], False))
                else: todo.append((base + k, None, k % 3 == 2))
        t0 = time.time()
        seen = set()
        for k, (seed, hint, big) in enumerate(todo):
            if time.time() - t0 > job['budget'] and k >= job.get('min', 6): break
            res = C.run_case(c.fn, seed, hint, big)
            r['runs'] += 1
            if res[0] == 'ok': r['ok'] += 1; r['checks'] += res[1]; r['hints'] += hint is not None
            elif res[0] == 'skip': r['skips'] += 1
            else:
                names = tuple(sorted({n for n, d in res[1]}))
                if names not in seen:
                    seen.add(names)
                    r['fails'].append({'seed': seed, 'hint': hint, 'big': big, 'obligations': res[1], 'inputs': res[2]})
                if len(r['fails']) >= 3: break
        r['time'] = time.time() - t0
    os.write(real_out, json.dumps(out, default=str).encode())

if __name__ == '__main__': main()
