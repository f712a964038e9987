"""C09 includes table: each object once, in the same order whatever order they are finished in"""
import os
import random

import hl
import synth
from p_c03 import parse, first_diff

MIN_CASES = 6


def cases(rng, tier):
    while True:
        g = synth.Gen(rng, payloads=False, code=False)
        s = g.spec(n=rng.choice([2, 4, 8, 14]), depth=rng.choice([1, 2, 3]))
        yield {'spec': s, 'auto': rng.random() < .6, 'orders': [rng.randrange(1, 10 ** 6) for _ in range(3)]}


def shrinks(case):
    for s in synth.shrinks(case['spec']):
        yield dict(case, spec=s)


def table(objects):
    """type -> (identifiers in the original order, in the order of names)"""


def check(case, tmp):
    spec = case['spec']
    files = synth.stage1(spec)
    opt = {'auto_include': True} if case['auto'] else {}
    synth.decode(tmp, files, opt, order=case['orders'][0])
    first = None
    for o in case['orders']:
        got = synth.encode(tmp, opt, order=o)
        if first is None:
            first = got
        else:
            for n in sorted(set(first) | set(got)):
                if n == 'versions':
                    continue
                if first.get(n) != got.get(n):
                    return f'{n} depends on the order in which objects are finished'
    want = files if not case['auto'] else synth.stage1(sort_names(spec))
    r = synth.same(want, first)
    if r:
        return r
    if spec['kind'] != 'cfe':
        return synth.check_versions(first)


def sort_names(spec, prefix=''):
    """what the table holds in the mode that collects it from the folders: objects of each type by name"""
    def key(o, top):
        if top and prefix and o.get('own') in ('0', None) and o['name'].startswith(prefix):
            return o['name'][len(prefix):]
        return o['name']

    def srt(objs, top=True):
        out = []
        seen = []
        for o in objs:
            if o['t'] not in seen:
                seen.append(o['t'])
        for t in seen:
            lst = [dict(o, children=srt(o['children'], False)) if o.get('children') else o for o in objs if o['t'] == t]
            if not t.startswith('?') and synth.TAB[t]['kind'] != 'unknown':
                gap = bool(lst[0].get('gap'))
                lst = [{a: b for a, b in o.items() if a != 'gap'} for o in sorted(lst, key=lambda o: key(o, top))]
                if gap:
                    lst[0]['gap'] = True
            out += lst
        return out
    return dict(spec, objects=srt(spec['objects']))
