"""C12 the list of file versions names exactly the files written"""
import hl
import synth

MIN_CASES = 10


def collected(rng, n):
    return [[rng.choice(['task', 'none', 'done', 'done']), rng.choice(['p', 'q']), rng.choice(['A', 'B']), rng.choice(['d', 'd', '', None]),
             rng.choice([None, [], ['f'], ['f', 'g']]), rng.choice([None, [], 1])] for _ in range(n)]


def cases(rng, tier):
    # a page too big to be taken apart
    yield {'spec': {'kind': 'cf', 'ver': '80315', 'objects': [dict(t='Catalog', u=1, name='С', own='0', help=['rnd', 800000, 1])]}, 'auto': False, 'order': 1}
    while True:
        yield {'pool': collected(rng, rng.randrange(0, 6)), 'order': rng.randrange(9)}
        g = synth.Gen(rng, kinds=['cf', 'cf', 'epf', 'erf'])
        yield {'spec': g.spec(n=rng.choice([0, 1, 2, 4, 8, 14]), depth=rng.choice([0, 1, 2])), 'auto': rng.random() < .4,
               'order': rng.randrange(1, 10 ** 6)}


def shrinks(case):
    if 'pool' in case:
        for l in hl.shrink_list(case['pool']):
            yield dict(case, pool=l)
        return
    for s in synth.shrinks(case['spec']):
        yield dict(case, spec=s)


def collect(case):
    """what the workers return about the objects of a batch is put together, whatever the order"""
    helper = hl.api('helper')
    f = helper.run_in_pool_encode_include
    helper.close_pool = lambda *a: None
    res, files, index, tasks, children = [], [], {}, [], []
    for i, (kind, parent, typ, data, fl, ch) in enumerate(case['pool']):
        fl = fl and [f'{x}{i}' for x in fl]
        ch = [f'child{i}'] if ch else ch
        children += ch or []
        if kind == 'task':
            tasks.append([i])
            res.append(([i], ch))
        elif kind == 'none':
            res.append((None, ch))
        else:
            data = f'd{i}' if data else data
            res.append((dict(parent_id=parent, obj_data=data, file_list=fl, obj_type=typ, obj_uuid=f'u{i}', obj_name=f'n{i}'), ch))
            files += fl or []
            if data:
                index.setdefault(parent, {}).setdefault(typ, []).append((f'u{i}', f'n{i}', data))
    got = f(lambda x: x, res, hl.FakePool(case['order']))
    norm = lambda x: (sorted(x[0]), {p: {t: sorted(map(list, v)) for t, v in d.items()} for p, d in x[1].items()}, sorted(x[2]), sorted(x[3]))
    got, want = norm(got), norm((files, index, tasks, children))
    for a, b, n in zip(got, want, ('files', 'index', 'tasks', 'children')):
        if a != b:
            return f'{n} of a batch: {a} instead of {b}'


def check(case, tmp):
    if 'pool' in case:
        return collect(case)
    files = synth.stage1(case['spec'])
    opt = {'auto_include': True} if case['auto'] else {}
    synth.decode(tmp, files, opt, order=case['order'])
    got = synth.encode(tmp, opt, order=case['order'] + 1)
    r = synth.check_versions(got)
    if r:
        return r
    top = {n.split('/')[0] for n in got}
    if top != set(files):
        return f'built files are not those of the object: lost {sorted(set(files) - top)[:4]}, new {sorted(top - set(files))[:4]}'
