"""run.py PROP --seed N --tier T --seconds S --out FILE      search for failing inputs of PROP
   run.py --replay FILE                                        evaluate the recorded input again (exit 1: it fails)"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hl


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seconds', type=float, default=30)
    p.add_argument('--out')
    p.add_argument('--replay')
    p.add_argument('--shard', default='0/1')
    p.add_argument('--cases', help='JSON list of inputs to evaluate instead of generated ones')
    a = p.parse_args()
    hl.limit_memory()
    if a.replay:
        with open(a.replay, encoding='utf-8') as f:
            r = json.load(f)
        if 'case' not in r:
            print(json.dumps(r, ensure_ascii=False, indent=1))
            return 2
        mod = importlib.import_module('p_' + r['property'].lower())
        st, msg = hl.evaluate(mod, r['case'])
        print(st, msg or '')
        return 1 if st == 'violation' else 0
    mod = importlib.import_module('p_' + a.prop.lower())
    if a.cases:
        with open(a.cases, encoding='utf-8') as f:
            given = json.load(f)
        mod.cases = lambda rng, tier: iter(given)
    i, n = map(int, a.shard.split('/'))
    res = hl.run(mod, a.seed, a.tier, a.seconds, i, n)
    s = json.dumps(res, ensure_ascii=True, indent=1)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    else:
        for v in res['violations']:
            v['case'] = json.dumps(v['case'], ensure_ascii=True)[:1500]
        res.pop('samples')
        print(json.dumps(res, ensure_ascii=False, indent=1))
    return 1 if res['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
