"""C03 brace text: writing a tree and reading it back"""
import base64
import glob
import os
import random
import re

import hl

MIN_CASES = 40
TOK = ['0', '1', '-1', '2', '4294967295', '1.5e-7', '00000000-0000-0000-0000-000000000000', '20230101000000', 'b', 'Pattern', '_', '']
TXT = ['', 'a', 'Имя', '{', '}', ',', '""', '\n', '{"', '"}', '",', ',""', '\n{', '\n}', '},\n{', '{1,0}', ',\n', ',""\n', '""\n""', '\n\n',
       '#base64:', '{#base64:AAAA}', ' ', '\t', '; //', 'x' * 64, 'A' * 64, 'A' * 66, '\n{1,', '""""', '\n""', '""x""', '\ufeff', '𝄞', 'a\n',
       '\u2028', '\x0b', '\x85', '#', '##base64:']


def text(rng):
    s = ''.join(rng.choice(TXT) for _ in range(rng.randrange(0, 6)))
    if rng.random() < .1:
        s = ''.join(rng.choice('abcXYZ019+/ =.') for _ in range(rng.randrange(55, 200)))
    return s


def b64(rng, n):
    return base64.b64encode(rng.randbytes(n)).decode()


def leaf(rng):
    k = rng.random()
    if k < .5:
        return rng.choice(TOK)
    if k < .93:
        # text() is in the written form: quotes are doubled
        t = text(rng)
        t = t.replace('""', '"').replace('"', '""')
        return '"' + t + '"'
    return b64(rng, rng.choice([10, 20, 48, 49, 50, 96, 97, 120, 144]))


def tree(rng, depth):
    n = rng.choice([0, 1, 1, 2, 3, 4, 7])
    if n == 0:
        return ['0']
    out = []
    for _ in range(n):
        if depth and rng.random() < .35:
            if rng.random() < .08:
                size = rng.choice([1, 10, 46, 47, 48, 49, 94, 95, 96, 97, 300])
                out.append([rng.choice(['#base64:', '##base64:']) + b64(rng, size)])
            else:
                out.append(tree(rng, depth - 1))
        else:
            out.append(leaf(rng))
    # {} holds one empty value
    return out


def cases(rng, tier):
    for t in TXT:
        for u in TXT:
            t2 = (t + u).replace('""', '"').replace('"', '""')
            yield {'tree': [['1', '"' + t2 + '"', '2']]}
    for n in range(0, 300):
        yield {'tree': [['3', ['#base64:' + base64.b64encode(bytes(n % 251 for _ in range(n))).decode()], '0']]}
    for n in range(40, 120):
        yield {'tree': [['1', base64.b64encode(bytes(n % 251 for _ in range(n))).decode()]]}
    while True:
        yield {'tree': [tree(rng, rng.randrange(0, 5)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]}


def valid(t):
    """the trees the format can hold (the precondition)"""
    def ok(x, alone, last=True):
        if isinstance(x, list):
            return bool(x) and all(ok(e, len(x) == 1, i == len(x) - 1) for i, e in enumerate(x))
        if len(x) > 64 and not last and x[0] not in '"#':
            return False  # long binary values end their list
        if x.startswith(('#base64:', '##base64:')):
            return alone and bool(re.fullmatch('##?base64:[A-Za-z0-9+/=]*', x)) \
                and (x.startswith('##') or len(x) >= 72)  # a shorter one is a one-line value, '##base64:'
        if x.startswith('"'):
            return len(x) > 1 and x.endswith('"') and '"' not in x[1:-1].replace('""', '') and '\r' not in x
        return not re.search('[{}",\r\n]', x)
    if t and isinstance(t[0], list) and len(t[0]) > 1 and t[0][0] == '1' and 'base64:' in repr(t[0][1]):
        return False  # a whole file of binary data: reported to the caller, not read as a tree
    return isinstance(t, list) and bool(t) and all(isinstance(e, list) and ok(e, False) for e in t)


def norm(t):
    return [norm(x) if isinstance(x, list) else ('' if x is None else x) for x in t]


def check(case, tmp):
    read = hl.api('helper:brace_file_read')
    write = hl.api('helper:brace_file_write')
    if 'file' in case:
        src = os.path.join(hl.REPO, case['file'])
        t = read(os.path.dirname(src), os.path.basename(src))
        if not isinstance(t, list):
            return None
    else:
        t = case['tree']
        if not valid(t):
            return hl.OUT
    write(t, os.path.join(tmp, 'd'), 'x')
    with open('d/x', 'rb') as f:
        raw = f.read()
    # the text is exactly the tree for an independent reader
    got = parse(raw.decode('utf-8-sig'))
    if got != strip64(norm(t)):
        return f'written text does not say what was written: {first_diff(strip64(norm(t)), got)} in {raw[:400]!r}'
    back = read(os.path.join(tmp, 'd'), 'x')
    if not isinstance(back, list) or norm(back) != norm(t):
        return f'read back differently: {first_diff(norm(t), norm(back) if isinstance(back, list) else back)} in {raw[:400]!r}'
    write(back, os.path.join(tmp, 'd'), 'y')
    with open('d/y', 'rb') as f:
        if f.read() != raw:
            return 'writing what was read gives other bytes'
    with open('d/x', 'rb') as f:
        if f.read() != raw:
            return 'reading changed the file'


def strip64(t):
    return [strip64(x) if isinstance(x, list) else (x[1:] if x.startswith('##base64:') else x) for x in t]


def first_diff(a, b, p=''):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, p + f'[{i}]')
        return f'{p} length {len(a)} became {len(b)}'
    return f'{p} {a!r} became {b!r}'


def parse(s):
    """independent reader of the brace text: quoted strings verbatim, everything else without line breaks"""
    stack, roots, cur, i, after = [], [], None, 0, False
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while True:
                if s[j] == '"':
                    if s[j + 1:j + 2] == '"':
                        j += 2
                        continue
                    break
                j += 1
            cur = (cur or '') + s[i:j + 1]
            i = j + 1
            continue
        if c == '{':
            new = []
            (stack[-1] if stack else roots).append(new)
            stack.append(new)
            cur, after = '', False
        elif c in ',}':
            if stack and not after:
                stack[-1].append(cur)
            cur = ''
            after = False
            if c == '}':
                stack.pop()
                after = True
        elif c not in '\r\n':
            cur += c
        i += 1
    return roots


def shrinks(case):
    if 'tree' not in case:
        return

    def sub(t):
        for l in hl.shrink_list(t):
            if l:
                yield l
        for i, x in enumerate(t):
            if isinstance(x, list):
                for y in sub(x):
                    yield t[:i] + [y] + t[i + 1:]
                yield t[:i] + ['0'] + t[i + 1:]
            elif len(x) > 1:
                yield t[:i] + ['0'] + t[i + 1:]
                if x.startswith('"') and len(x) > 2:
                    yield t[:i] + ['"' + x[1:-1][:len(x) // 2] + '"'] + t[i + 1:]
                    yield t[:i] + ['"' + x[1:-1][1:] + '"'] + t[i + 1:]
                    yield t[:i] + ['"' + x[1:-1][:-1] + '"'] + t[i + 1:]
    for t in sub(case['tree']):
        if valid(t) and all(isinstance(x, list) for x in t):
            yield {'tree': t}
