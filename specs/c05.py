"""C05: version numbers in file names"""
from thm import registry
T, theorem = registry()
ASSUMPTIONS = ['version numbers are at least 1; the name looked up has an extension and no path separator',
               'a folder holds finitely many entries, in any order']


@theorem('a version added to a name is taken off again, and a name without a version is left alone', top=True)
def add_and_remove(S):
    p = S.text('p', no='/')
    x = S.text('x', no='./')
    v = S.int('v', 1)
    n = p + '.' + x
    with_v = S.call('helper:get_descent_file_name', n, v)
    S.eq('the version stands before the extension', with_v, p + '.' + S.decimal(v) + '.' + x)
    S.eq('taking the version off gives the name back', S.call('helper:remove_descent_from_filename', with_v), n)
    S.eq('no version, no change', S.call('helper:get_descent_file_name', n, None), n)


@theorem('only a number in canonical form before the extension is taken for a version', top=True)
def remove_only_numbers(S):
    p = S.text('p', no='/')
    m = S.text('m', no='./')
    x = S.text('x', no='./')
    n = p + '.' + m + '.' + x
    r = S.call('helper:remove_descent_from_filename', n)
    if S.symbolic:
        if S.vm.truth(r == n):
            S.check('unchanged', True)
        else:
            k = [v for key, v in S.ctx.memo.items() if isinstance(key, tuple) and key[0] == 'intof']
            S.eq('the part taken off is a number', m, S.decimal(k[0]))
            S.eq('and nothing else', r, p + '.' + x)
    else:
        try:
            num = str(int(m)) == m
        except ValueError:
            num = False
        S.eq('the part taken off is a number', r, p + '.' + x if num else n)


@theorem('near: an entry counts as a version exactly when it is NAME.number.EXT and a file; scanning any number of entries', native=False,
         functions=['helper:get_near_descent_file_name'])
def near_scan(S):
    import interp, sym
    p = S.text('p', no='/')
    x = S.text('x', no='./')
    n = p + '.' + x
    d = S.int('descent', 1)
    kind = S.choose('entry', 3)
    v = S.int('v', 1)
    e = n if kind == 0 else p + '.' + S.decimal(v) + '.' + x if kind == 1 else S.text('e', no='/', min=1)
    flag = S.flag('flag')
    D = sym.Rest('D', sym.SInt(sym.z3.Int('lenD')), lambda nm: S.int(nm, 1))
    S.ctx.assume(D.length >= 0)

    def after(old, new):
        S.check('the versions found before stay', len(new) in (1, 2) and new[0] is D)
        if kind == 0:
            S.check('the name itself is no version', len(new) == 1)
        elif kind == 1 and isfile[0]:
            S.check('a version is found', len(new) == 2)
            if len(new) == 2:
                S.eq('its number is the one in the name', new[1], v)
        elif len(new) == 2:
            S.eq('only NAME.number.EXT is taken for a version', e, p + '.' + S.decimal(new[1]) + '.' + x)

    def flagged(old, new):
        if kind == 0:
            S.check('the name without a version is noticed', new is True)
        elif kind == 1:
            S.check('a version is not the name without one', new == old)
        elif new != old:
            S.eq('only the very name is the name without a version', e, n)
    isfile = [True]

    def on_isfile(vm, path):
        isfile[0] = S.flag('isfile')
        return isfile[0]
    S.hook('os.path.isfile', on_isfile)
    S.hook('os.listdir', lambda vm, path: [sym.Rest('entries', S.int('len'), None)])
    S.loop('helper:get_near_descent_file_name', interp.Loop(
        S, element=lambda: e,
        keep={'descents': (lambda v: S.check('inv: no version found at first', v == []), lambda: [D], after),
              'is_without_descent': (lambda v: S.check('inv: not seen at first', v is False), lambda: flag, flagged)},
        leave=lambda env: S.end()))
    S.call('helper:get_near_descent_file_name', '/G', n, d)


@theorem('near: the greatest number not above the version is chosen; else the name without a version; else nothing', native=False,
         functions=['helper:get_near_descent_file_name'])
def near_choice(S):
    import interp, sym
    p = S.text('p', no='/')
    x = S.text('x', no='./')
    n = p + '.' + x
    d = S.int('descent', 1)
    D = sym.Rest('D', S.int('lenD', 0), lambda nm: S.int(nm, 1))
    some = D.length > 0
    w = S.int('w', 1)
    D.watch = [w]
    flag = S.flag('flag')
    S.hook('os.listdir', lambda vm, path: [sym.Rest('entries', S.int('len'), None)])
    S.loop('helper:get_near_descent_file_name', interp.Loop(
        S, keep={'descents': (None, lambda: [D], lambda o, new: None), 'is_without_descent': (None, lambda: flag, lambda o, new: None)},
        element=lambda: S.end()))
    r = S.listed(S.call('helper:get_near_descent_file_name', '/G', n, d))
    first = getattr(D, 'first', None)
    below = S.vm.truth(some) and S.vm.truth(w <= d)
    S.check('a pair', len(r) == 2)
    if r[1] == '':
        S.check('nothing only when there is nothing', not flag and not below)
        S.eq('no folder either', r[0], '')
    elif S.vm.truth(r[1] == n):
        S.check('the plain name only when no version fits', flag and not below)
        S.eq('folder', r[0], '/G')
    else:
        S.check('a version was chosen', first is not None)
        S.eq('the name of the chosen version', r[1], p + '.' + S.decimal(first) + '.' + x)
        S.check('not above the version', first <= d)
        if below:
            S.check('and the greatest such', w <= first)
        S.eq('folder', r[0], '/G')


@theorem('the names listed at a version: every folder, and each name, once, for which the lookup finds a file; over any number of entries', top=True, native=False,
         functions=['organizer_file_ce:OrganizerFileCE.list_descent_dir'])
def visible(S):
    import interp, models, sym
    d = S.int('descent', 1)
    p, x = S.text('p', no='/', min=1), S.text('x', no='./', min=1)
    n = p + '.' + x
    folder, seen, found = S.flag('folder'), S.flag('seen before'), S.flag('found')
    v = S.int('v', 1)
    e = p + '.' + S.decimal(v) + '.' + x if S.flag('with a version') else n
    R = sym.Rest('R', S.int('listed before', 0), None)
    q = S.text('another name', no='/')

    def near(vm, path, name, descent):
        S.eq('the lookup is in the folder', path, '/G/src/sub')
        S.eq('the lookup is at the version', descent, d)
        return (path, 'file') if found else ('', '')
    S.contract('helper:get_near_descent_file_name', near)
    S.contract('helper:remove_descent_from_filename', lambda vm, a: S.eq('the version is taken off the entry', a, e) and n)
    S.hook('os.path.isdir', lambda vm, path: folder)
    S.hook('os.listdir', lambda vm, path: S.eq('the folder listed', path, '/G/src/sub') and [sym.Rest('entries', S.int('len'), None)])

    def members():
        if not seen:
            S.assume(not S.truth(q == n))
        return {models.SKey(n if seen else q): 1}

    def after_index(old, new):
        S.check('names stay known', all(models.find_key(new, models.unkey(k)) for k in old))
        if not folder:
            S.check('a name is known once it was met', models.find_key(new, n) is not None)

    def after(old, new):
        S.check('what is listed stays', new[0] is R)
        want = [e] if folder else [n] if found and not seen else []
        S.eq('listed: a folder, or a name that is new and found', new[1:], want)
    S.loop('organizer_file_ce:OrganizerFileCE.list_descent_dir', interp.Loop(
        S, element=lambda: e, keep={
            '_index': (lambda v: S.check('inv: nothing is known at first', v == {}), members, after_index),
            'result': (lambda v: S.check('inv: nothing is listed at first', v == []), lambda: [R], after)}))
    r = S.call('organizer_file_ce:OrganizerFileCE.list_descent_dir', '/G/src', 'sub', d)
    S.check('what was collected is returned', len(r) == 1 and r[0] is R)
