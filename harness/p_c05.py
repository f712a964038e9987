"""C05 version-suffixed file names: choosing, adding and removing the version"""
import os

import hl

MIN_CASES = 30
BASES = ['a', 'ab', 'a.b', 'a.5', 'A', 'Имя', 'a.obj', 'Форма.obj', 'a b', 'a.b.c', 'a.007', 'x.1a', 'obj.elem']
EXTS = ['bsl', 'json', 'b', 'sl', 'bin', 'obj', 'bs', 'png', '5']
VERS = [1, 2, 5, 7, 9, 10, 11, 50, 99, 100, 101, 1000, 2005006, 3000112, 4100200, 10 ** 12]


def names(rng):
    out = set()
    base = rng.choice(BASES)
    for _ in range(rng.randrange(0, 9)):
        b = base if rng.random() < .6 else rng.choice(BASES)
        e = rng.choice(EXTS[:2]) if rng.random() < .7 else rng.choice(EXTS)
        k = rng.random()
        if k < .55:
            out.add(f'{b}.{rng.choice(VERS)}.{e}')
        elif k < .75:
            out.add(f'{b}.{e}')
        elif k < .85:
            out.add(f'{b}.{rng.choice(["007", "05", "x", "1a", "1_0", "٣", " 5", "5 ", "+5", "1.5", "0x5"])}.{e}')
        else:
            out.add(f'{b}{rng.choice(["", "b", "."])}{rng.choice(VERS)}.{e}')
    return sorted(out), base


def cases(rng, tier):
    for d in (4, 5, 6, 10, 99, 100, 10 ** 13):
        yield {'files': ['a.5.bsl', 'a.10.bsl', 'a.9.bsl', 'a.100.bsl', 'a.bsl', 'ab.7.bsl', 'a.b.8.bsl', 'a.6.xbsl'], 'name': 'a.bsl', 'd': d}
    yield {'files': ['5.Заставка', '7.Заставка', 'Заставка', '6.Заставка.bin', '9.аЗаставка'], 'name': 'Заставка', 'd': 6}
    while True:
        fs, base = names(rng)
        if rng.random() < .15:
            n = rng.choice(['Заставка', 'info', 'b', 'bsl'])
            fs = sorted({*fs, *(f'{rng.choice(VERS)}.{n}' for _ in range(rng.randrange(0, 4))), *([n] if rng.random() < .4 else [])})
            yield {'files': fs, 'name': n, 'd': rng.choice(VERS) + rng.choice([-1, 0, 0, 1]) or 1}
            continue
        name = f'{base}.{rng.choice(EXTS[:2])}' if rng.random() < .8 else f'{rng.choice(BASES)}.{rng.choice(EXTS)}'
        yield {'files': fs, 'name': name, 'd': rng.choice(VERS) + rng.choice([-1, 0, 0, 1]) or 1, 'dir': rng.random() < .1}


def version(entry, name):
    base, _, ext = name.rpartition('.')
    if not base and '.' not in name:
        v = entry[:-len(name) - 1] if entry.endswith('.' + name) else ''
        return int(v) if v.isascii() and v.isdigit() and (v == '0' or v[0] != '0') else None
    if entry.startswith(base + '.') and entry.endswith('.' + ext) and len(entry) > len(base) + len(ext) + 2:
        v = entry[len(base) + 1:len(entry) - len(ext) - 1]
        if v.isascii() and v.isdigit() and (v == '0' or v[0] != '0'):
            return int(v)


def shrinks(case):
    for l in hl.shrink_list(case['files']):
        yield dict(case, files=l)


def check(case, tmp):
    near = hl.api('helper:get_near_descent_file_name')
    add = hl.api('helper:get_descent_file_name')
    rem = hl.api('helper:remove_descent_from_filename')
    name, d = case['name'], case['d']
    os.makedirs('p')
    for f in case['files']:
        with open(os.path.join('p', f), 'w') as fd:
            fd.write(f)
    if case.get('dir'):
        b, _, e = name.rpartition('.')
        if f'{b}.{d}.{e}' not in case['files']:
            os.makedirs(os.path.join('p', f'{b}.{d}.{e}'))
    path = os.path.join(tmp, 'p')
    vs = [v for v in (version(f, name) for f in case['files']) if v is not None and v <= d]
    b, _, e = name.rpartition('.')
    want = (f'{b}.{max(vs)}.{e}' if b else f'{max(vs)}.{e}') if vs else (name if name in case['files'] else '')
    got = near(path, name, d)
    if got != (path if want else '', want):
        return f'version {d} of {name} among {case["files"]}: took {got}, should be {want!r}'
    full = add(name, d)
    if version(full, name) != d:
        return f'{name} with version {d} is called {full}'
    if rem(full) != name:
        return f'{full} without its version is {rem(full)}, should be {name}'
    if add(name, 0) != name or add(name, None) != name:
        return 'a name without a version changed'
    if case.get('dir'):
        return None
    # the names seen at version d
    lst = hl.api('organizer_file_ce:OrganizerFileCE.list_descent_dir')
    got = lst(tmp, 'p', d)
    plain = {rem(f) for f in case['files']}
    want = {n for n in plain if near(path, n, d)[1]}
    if sorted(got) != sorted(want):
        return f'files of version {d} among {case["files"]}: {sorted(got)}, should be {sorted(want)}'
    if sorted(os.listdir('p')) != sorted(case['files']):
        return 'looking for a version changed the folder'
