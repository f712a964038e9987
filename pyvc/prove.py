"""prove PROP --tier T --out F [--only NAME] [--native-only]"""
import argparse
import json
import os
import sys
import time
import warnings

warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HERE, os.path.join(REPO, 'src'), os.path.join(os.path.dirname(HERE), 'harness', 'stub')]
sys.setrecursionlimit(12000)
import thm  # noqa


def one(job):
    prop, name, budget, native_s, seed, what = job
    import random
    T, _ = thm.load(prop)
    th = [t for t in T if t.name == name][0]
    import models
    models.USED.clear()
    import symthm
    out = symthm.run(th, budget) if 's' in what else {'name': name, 'title': th.title, 'top': th.top, 'obls': {}, 'paths': 0, 'dead': 0, 'undecided': [], 'refuted': [], 'solver_s': 0, 'queries': 0, 'entered': {}, 'contracted': {}, 'discharged': 0, 'obligations': 0, 'bounded': th.bounded, 'used': {}, 'wall_s': 0}
    nat = None
    if th.native and 'n' in what:
        # replay what the solver refuted
        for r in out['refuted']:
            if r.get('inputs') is not None:
                try:
                    q = thm.run_native(th, random.Random(seed), r['inputs'])
                except Exception as e:
                    q = None
                if q is not None and q[0]:
                    nat = {'n': 1, 'failure': {'theorem': name, 'label': q[0][0][0], 'detail': q[0][0][1], 'inputs': {k: thm.tojson(v) for k, v in q[1].items()}}}
                    break
                if q is not None:
                    r['replayed_ok'] = True
        if nat is None:
            nat = thm.search(th, native_s * (4 if out['refuted'] or out['undecided'] else 1), seed)
    out['native'] = nat
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default='quick')
    a.add_argument('--out')
    a.add_argument('--only')
    a.add_argument('--what', default='sn')
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a.add_argument('--replay')
    a.add_argument('--procs', type=int, default=4)
    a.add_argument('--budget', type=float)
    a.add_argument('--native-s', type=float)
    o = a.parse_args()
    t0 = time.time()
    try:
        T, mod = thm.load(o.prop)
    except Exception as e:     # a function a theorem names is gone
        T, mod, fail = [], None, f'{type(e).__name__}: {e}'
    else:
        fail = None
    if o.replay:
        import random
        c = json.load(open(o.replay))['case']
        th = [t for t in T if t.name == c['theorem']][0]
        r = thm.run_native(th, random.Random(0), c['inputs'])
        print('outside the domain' if r is None else r[0] or 'holds')
        return 1 if r and r[0] else 0
    budget = o.budget or (60 if o.tier == 'quick' else 300)
    native_s = o.native_s or (1.5 if o.tier == 'quick' else 12)
    jobs = [(o.prop, t.name, budget, native_s, o.seed, o.what) for t in T if not o.only or t.name == o.only]
    results = []
    if o.only:
        results = [one(j) for j in jobs]
    else:
        import concurrent.futures as cf
        import multiprocessing as mp
        limit = 170 if o.tier == 'quick' else 640
        pool = mp.get_context('spawn').Pool(o.procs, maxtasksperchild=None)
        rs = [(j, pool.apply_async(one, (j,))) for j in jobs]
        for j, r in rs:
            try:
                results.append(r.get(max(1, t0 + limit - time.time())))
            except mp.TimeoutError:
                results.append({'name': j[1], 'undecided': [{'theorem': j[1], 'label': '*', 'why': 'no time left'}], 'refuted': [], 'obls': {}, 'paths': 0, 'dead': 0, 'solver_s': 0, 'queries': 0, 'entered': {}, 'contracted': {}, 'discharged': 0, 'obligations': 0, 'bounded': None, 'used': {}, 'native': None, 'title': '', 'top': False})
            except Exception as e:
                results.append({'name': j[1], 'undecided': [{'theorem': j[1], 'label': '*', 'why': f'{type(e).__name__}: {e}'[:300]}], 'refuted': [], 'obls': {}, 'paths': 0, 'dead': 0, 'solver_s': 0, 'queries': 0, 'entered': {}, 'contracted': {}, 'discharged': 0, 'obligations': 0, 'bounded': None, 'used': {}, 'native': None, 'title': '', 'top': False})
        pool.terminate()
    out = {'obligations': 0, 'discharged': 0, 'refuted': [], 'undecided': [], 'native_failures': [], 'theorems': [], 'trusted_base': [], 'functions': [], 'bounded': [],
           'solver_s': 0.0, 'paths': 0, 'covers': [], 'back_ends': {}, 'assumptions': []}
    if fail:
        out['undecided'].append('specification not attached: ' + fail)
    ent, con, used, q = {}, {}, {}, 0
    for r in results:
        out['obligations'] += r['obligations']
        out['discharged'] += r['discharged']
        out['solver_s'] += r['solver_s']
        out['paths'] += r['paths']
        q += r['queries']
        for d, src in ((ent, r['entered']), (con, r['contracted']), (used, r['used'])):
            for k, v in src.items():
                d[k] = d.get(k, 0) + v
        for x in r['refuted']:
            if x.get('replayed_ok') or x['label'].startswith('inv:') or r.get('inner'):
                # the real code satisfies the theorem on the solver's inputs, or it is a loop invariant that no longer fits the
                # loop, or a statement about the state inside a machine: nothing is shown against the property
                out['undecided'].append(f'{x["theorem"]}:{x["label"]}: {x["detail"]}')
                continue
            out['refuted'].append({'name': f'{x["theorem"]}:{x["label"]}', 'detail': x['detail'], 'inputs': x['inputs'], 'top': r['top']})
        for x in r['undecided']:
            out['undecided'].append(f'{x["theorem"]}:{x["label"]}: {x["why"]}')
        if r['obligations'] == 0 and not r['undecided'] and 's' in o.what:
            out['undecided'].append(f'{r["name"]}: no obligation was reached')
        n = r.get('native')
        if n and n['failure']:
            out['native_failures'].append(dict(n['failure'], top=r['top']))
        out['theorems'].append({'name': r['name'], 'states': r['title'], 'obligations': {k: v['discharged'] for k, v in r['obls'].items()}, 'paths': r['paths'],
                                'bounded': r['bounded'], 'native_runs': n['n'] if n else 0})
        if r['bounded']:
            out['bounded'].append(f'{r["name"]}: {r["bounded"]}')
        if r['paths'] and r['obligations']:
            out['covers'].append(f'{r["name"]}: {r["paths"]} feasible paths end with their obligations stated')
    out['back_ends'] = {'z3': __import__('z3').get_version_string(), 'queries': q}
    out['functions'] = [f'{k} (body executed symbolically)' for k in sorted(ent)] + [f'{k} (callers checked against its contract)' for k in sorted(con)]
    out['trusted_base'] = sorted(used)
    out['solver_s'] = round(out['solver_s'], 2)
    if mod is not None:
        out['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', []))
    if o.out:
        with open(o.out, 'w') as f:
            json.dump(out, f, ensure_ascii=False, indent=1)
    for r in results:
        n = r.get('native') or {}
        print(f'{r["name"]}: {r["discharged"]}/{r["obligations"]} on {r["paths"]} paths (+{r["dead"]} dead), {r.get("wall_s", 0):.1f} s, native {n.get("n")} skipped {n.get("skipped")}')
        for x in r['refuted'][:3]:
            print('   REFUTED', x['label'], '|', x['detail'], '|', json.dumps(x['inputs'], ensure_ascii=False)[:300])
        for x in r['undecided'][:4]:
            print('   UNDECIDED', x['label'], '|', x['why'][:250])
        if n.get('failure'):
            print('   NATIVE', str(n['failure'])[:500])
    if fail:
        print(fail)


if __name__ == '__main__':
    sys.exit(main())
