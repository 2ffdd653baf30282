#!/usr/bin/env python3
"""run.py <property> [tier]: decide one property on /repo's current working tree.

exit 0  no violation on anything analysed (undecided cells, if any, are listed in the evidence)
exit 1  VIOLATION line(s) printed
exit 2  the analysis itself could not be carried out (build failure, anchor gone)
"""
import json, multiprocessing, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, irparse, engine, props

HERE = build.HERE
EVID = os.path.join(HERE, 'evidence')
_M = None


def work(job):
    name, opts, budget = job
    try:
        hooks = None
        if 'hooks' in opts:
            opts = dict(opts)
            hooks = opts.pop('hooks')()
        r = engine.analyse(_M, name, opts, hooks, budget=budget)
    except Exception:
        return dict(name=name, error=traceback.format_exc()[-1500:])
    return dict(name=name, fails=dedup(r.fails), may=dedup(r.may), unknown=dedup(r.unknown), returns=r.returns,
                proved=r.proved, traces=r.traces, steps=r.steps, time=r.time, ends=r.ends, cells=r.cells,
                called=sorted(r.called), ext=sorted(r.ext), reached=sorted(r.reached))


def dedup(l):
    seen, out = {}, []
    for x in l:
        k = (x[0], x[1])
        if k in seen:
            seen[k] += 1
            continue
        seen[k] = 1
        out.append(x)
    return [list(map(js, x)) for x in out[:40]]


def js(x):
    if isinstance(x, dict):
        return {str(k): js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [js(v) for v in x]
    if isinstance(x, (int, str, type(None), bool)):
        return x
    return repr(x)


def known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def is_known(kf, prop, v):
    for k in kf:
        if k.get('status') != 'known' or k['property'] != prop or k['obligation'] != v['obligation'] or k['what'] != v['what']:
            continue
        rng = k.get('inputs', {})
        if all(n in v['inputs'] and v['inputs'][n][0] >= lo and v['inputs'][n][1] <= hi for n, (lo, hi) in rng.items()):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        rc = decide(prop, P, tier, seed, scratch, t0)
    except build.BuildError as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, str(e)[:3000]))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def decide(prop, P, tier, seed, scratch, t0):
    global _M
    violations, undecided, broken = [], [], []
    obs = []
    rules = []
    kf = known()
    b = build.Build(scratch)
    lib = b.library()
    thorough = tier == 'thorough'
    for hn, spec in enumerate(P.get('harness', [])):
        try:
            ll = b.harness(spec['files'], name='h%d' % hn, lib=lib, extra=spec.get('extra', []))
        except build.BuildError as e:
            if not spec.get('optional'):
                raise
            undecided.append(dict(obligation=str(spec['files']), what='does not compile any more', detail=str(e)[:500]))
            continue
        for d in b.dropped:
            undecided.append(dict(obligation=d, what='does not compile any more'))
        b.dropped = []
        _M = irparse.Module(ll)
        names = [n for n in engine.obligations(_M) if thorough or not n.startswith('@ob_deep_')]
        if not names:
            broken.append('no obligations in %s' % spec['files'])
            continue
        opts = spec.get('opts', {})
        budget = spec.get('budget', 100) * (4 if thorough else 1)
        jobs = [(n, opts, budget) for n in names]
        # the pool is bounded by the limit below; once a violation is established the rest gets only a little more time
        limit = t0 + (3000 if thorough else 640)
        todo = set(names)
        with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as pool:
            it = pool.imap_unordered(work, jobs, chunksize=1)
            while todo:
                try:
                    r = it.next(timeout=max(0.1, limit - time.time()))
                except multiprocessing.TimeoutError:
                    break
                except StopIteration:
                    break
                obs.append(r)
                todo.discard(r['name'])
                if r.get('fails') and any(not is_known(kf, prop, dict(obligation=r['name'], what=f[1], inputs=f[2])) for f in r['fails']):
                    limit = min(limit, time.time() + 15)
            pool.terminate()
        for n in sorted(todo):
            undecided.append(dict(obligation=n, what='not finished within the time limit'))
    for a in P.get('analyses', []):
        # E2: rules over the call graph / control flow of the whole library
        if '_L' not in P:
            P['_L'] = irparse.Module(b.module(lib, 'lib', passes='function(sroa,early-cse,simplifycfg)'))
        r = a(P['_L'], b)
        rules.append(r)
        for v in r['violations']:
            violations.append(dict(obligation=r['rule'], what=v['what'], inputs={}, where=v.get('where', []), key=v.get('key')))
        for u in r.get('undecided', []):
            undecided.append(dict(obligation=r['rule'], what=u))
        if r['instances'] < r.get('min_instances', 1):
            broken.append('%s: only %d instances' % (r['rule'], r['instances']))
    for w in P.get('witness', []):
        r = w(b)
        rules.append(r)
        for v in r['violations']:
            violations.append(dict(obligation=r['rule'], what=v['what'], inputs={}, where=v.get('where', [])))
    called = set()
    for r in obs:
        if r.get('error'):
            undecided.append(dict(obligation=r['name'], what='analysis error', detail=r['error']))
            continue
        called |= set(r['called'])
        for f in r['fails']:
            violations.append(dict(obligation=r['name'], what=f[1], kind=f[0], inputs=f[2], where=f[3]))
        for f in r['may']:
            undecided.append(dict(obligation=r['name'], what=f[1], kind=f[0], inputs=f[2], where=f[3]))
        for f in r['unknown']:
            undecided.append(dict(obligation=r['name'], what=f[1], kind=f[0], inputs=f[2], where=f[3]))
        if not r['fails'] and not r['proved']:
            undecided.append(dict(obligation=r['name'], what='no assertion was reached'))
    proved = sum(r.get('proved', 0) for r in obs)
    if obs and not proved and not violations:
        broken.append('no assertion could be decided')
    fresh, old = [], []
    for v in violations:
        k = is_known(kf, prop, v)
        (old if k else fresh).append(v)
    rep = None
    if fresh:
        rep = os.path.join(EVID, '%s.violation.json' % prop)
        json.dump(fresh, open(rep, 'w'), indent=1)
    else:
        try:
            os.unlink(os.path.join(EVID, '%s.violation.json' % prop))
        except FileNotFoundError:
            pass
    if os.environ.get('VP_CALLED'):
        open(os.environ['VP_CALLED'], 'a').write('\n'.join(sorted(called)) + '\n')
    lib_fns = sorted(c for c in called if 'fptu' in c or 'erthink' in c)
    expl = P['explain']
    cov = dict(explanation=expl, engine='abstract interpretation of the linked LLVM IR' if obs else 'IR rules',
               obligations=len(obs) + sum(r['instances'] for r in rules),
               obligations_fully_decided=sum(1 for r in obs if r.get('proved') and not r.get('fails') and not r.get('may') and not r.get('unknown')) + sum(r['instances'] - len(r['violations']) for r in rules),
               assertions_discharged=proved, input_cells=sum(r.get('cells', 0) for r in obs), traces=sum(r.get('traces', 0) for r in obs),
               library_functions_analysed=len(lib_fns), rules=[{k: v for k, v in r.items() if k != 'violations'} for r in rules],
               undecided=undecided[:60], undecided_count=len(undecided),
               per_obligation=[dict(name=r['name'], discharged=r.get('proved'), traces=r.get('traces'), time=round(r.get('time', 0), 2)) for r in sorted(obs, key=lambda r: r['name'])],
               samples=lib_fns[:40])
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'other'), coverage=js(cov), wall_s=round(time.time() - t0, 2),
              violations=len(fresh), assumptions=P.get('assume', props.TRUST))
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, v['obligation'], v['what']))
    for v in fresh[:25]:
        print('%s: %s inputs=%s' % (v['obligation'], v['what'], v['inputs']))
        for w in v['where'][:6]:
            print('    at', w)
    print('%s: %d obligations, %d assertions discharged, %d undecided, %d violations, %.1fs' % (prop, cov['obligations'], proved, len(undecided), len(fresh), time.time() - t0))
    for u in undecided[:8] if os.environ.get('VP_VERBOSE') else []:
        print('  undecided:', u)
    if fresh:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, '; '.join(broken)))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
