"""C03: brace text.

The reader. A text is read line by line (decode_file), a line character by character (decode_object). Each theorem about the
reader is a triple over a piece of text somewhere in a line: PRE and POST are what stands before and after it on its line, about
which nothing is known. The states between pieces:
  Q(cur)    between '{' or ',' and the next value of the list cur
  STR(v)    inside a quoted string, at the beginning of a line, after v
  B64(v)    inside a base64 value, at the beginning of a line
  END(cur)  after the '}' that closed a list of cur (cur None: a list of the file)
Every text the writer gives is a sequence of the pieces, so the triples compose to the round trip by induction on the tree.
A piece of unknown characters is read under an invariant (Reader.arbitrary / step): any number of them.
"""
from thm import registry, fn_of
T, theorem = registry()
ASSUMPTIONS = ['the pieces compose: the loop over the characters of a line looks at the line only through its end (line.endswith, len(line)), '
               'so a triple with unknown PRE and POST holds wherever its piece stands']
Q = ',}"\n{'
FNS = tuple(f'json_container_decoder:JsonContainerDecoder.{n}' for n in (
    'decode_line', 'decode_object', '_add_to_current_value', '_end_value', '_end_current_object', '_decode_line_read_param',
    '_decode_line_begin_read_string_value', '_decode_line_begin_read_multi_string_value'))


def reader_class():
    return fn_of('json_container_decoder:JsonContainerDecoder')


class Reader:
    """a decoder in an arbitrary state, and what it does with runs of characters"""
    def __init__(self, S):
        import models, sym, interp
        self.S, self.sym, self.models, self.interp = S, sym, models, interp
        C = reader_class()
        self.mode = fn_of('json_container_decoder:Mode')
        self.o = S.call(C, src_dir=S.text('dir', no='/'), file_name=S.text('file', no='/'))
        self.o.data, self.o.line_number = [], 1
        self.known = set(vars(self.o))
        S.vm.chars = self
        self.runs = {}
        self.pre, self.post = S.text('pre'), S.text('post')
        self.pre.parts[0].atom.info['opaque'] = self.post.parts[0].atom.info['opaque'] = True

    # ---- states
    def inside(self, value=None, prev=None, root=False):
        """Q of a list that lies somewhere in the tree, or of a list of the file"""
        S, o = self.S, self.o
        self.cur = S.rest('cur') if S.flag('not the first value') else []
        o.mode = self.mode.READ_PARAM
        self.around(root, self.cur)
        o.current_object = self.cur
        o.path.append(self.cur)
        o.current_value = S.pick('value so far', ['', None])
        o.previous_char = S.pick('previous', [None, ',', '"', S.text('prev', only=None, no='}', min=1, max=1)])
        self.before = S.copy(self.cur)

    def around(self, root, child):
        S, o = self.S, self.o
        if root:
            self.parent, o.data, o.path = None, S.rest('data') + ([] if child is None else [child]), []
        else:
            self.parent = S.rest('parent') + ([] if child is None else [child])
            o.data, o.path = S.rest('data', min=1), S.rest('outer') + [self.parent]

    def string(self):
        """STR(v)"""
        S, o = self.S, self.o
        self.inside(root=S.flag('root'))
        o.mode = S.pick('mode', [self.mode.BEGIN_READ_STRING_VALUE, self.mode.BEGIN_READ_MULTI_STRING_VALUE])
        self.v = '"' + S.text('v')
        o.current_value = self.v
        o.previous_char = S.text('any', min=1, max=1)

    # ---- runs
    def plain(self, name, min=0, no=()):
        t = self.S.text(name, no=tuple(Q) + tuple(no), min=min)
        self.runs[t.parts[0].atom.name] = 'plain'
        return t

    def body(self, name, max=None):
        """text inside a string on one line: characters other than the quote, and pairs of quotes"""
        t = self.S.text(name, no='\n', max=max)
        t.parts[0].atom.info['pairs'] = '"'
        self.runs[t.parts[0].atom.name] = 'body'
        return t

    def at(self, seg):
        n = seg.atom.name
        if n == self.pre.parts[0].atom.name:
            return 'skip'
        if n == self.post.parts[0].atom.name:
            return 'stop'
        return 'run' if n in self.runs and seg.whole() else 'unknown'

    def snapshot(self):
        self.was = {k: (v, self.S.copy(v)) for k, v in vars(self.o).items()}

    def frame(self, *but):
        """the rest of the reader is as it was: the same objects with the same content"""
        S = self.S
        for k, v in vars(self.o).items():
            if k in but:
                continue
            old, content = self.was[k]
            S.check(f'inv: {k} is the same object', v is old or not isinstance(old, list))
            S.eq(f'inv: {k} is unchanged', v, content)

    def arbitrary(self, seg):
        """one character of the run, after k others; the state of the invariant"""
        S, sym, o = self.S, self.sym, self.o
        kind = self.runs[seg.atom.name]
        no = tuple(seg.atom.no)
        first = S.flag('first character')
        p = '' if first else S.text('before', no=no, min=1)
        odd = kind == 'body' and not first and S.flag('within a pair')
        quote = kind == 'body' and (odd or S.flag('a quote'))
        c = '"' if quote else S.text('char', no=no + (('"',) if kind == 'body' else ()), min=1, max=1)
        r = S.text('behind', no=no)
        sym.define(seg.atom, sym.cat(p, c, r))
        S.ctx.assume(sym.mkb(sym.zi(seg.atom.length) == sym.zi(S.len(p)) + 1 + sym.zi(S.len(r))))
        self.mode0, self.value0 = o.mode, o.current_value
        if not first:
            o.current_value = sym.cat(o.current_value or '', p)
            o.previous_char = S.text('last', no=no, min=1, max=1)
            if odd:
                o.mode = self.mode.END_READ_STRING_VALUE
        self.quote, self.odd, self.c = quote, odd, c
        self.want = sym.cat(o.current_value or '', c)
        self.snapshot()
        return c, S.len(p)

    def step(self, seg):
        S, o = self.S, self.o
        S.eq('inv: the character is added to the value', o.current_value, self.want)
        S.eq('inv: and is the previous one', o.previous_char, self.c)
        S.check('inv: mode', o.mode is (self.mode0 if not self.quote or self.odd else self.mode.END_READ_STRING_VALUE))
        self.frame('current_value', 'previous_char', 'mode')

    def leave(self, seg):
        S, o = self.S, self.o
        if S.truth(seg.length == 0):
            if o.current_value is not None:
                o.current_value = self.sym.cat(o.current_value, self.sym.rope('s', [seg]))
            return
        o.current_value = self.sym.cat(o.current_value or '', self.sym.rope('s', [seg]))
        o.previous_char = S.text('last', no=tuple(seg.atom.no), min=1, max=1)

    # ---- reading
    def read(self, *lines):
        """the lines, the first from the middle if it begins with PRE"""
        S, o = self.S, self.o
        self.lines = lines
        try:
            for i, line in enumerate(lines):
                if i == 0 and getattr(self.sym.parts_of(line)[0], 'atom', None) is self.pre.parts[0].atom:
                    S.call(o.decode_object, line)
                else:
                    S.call(o.decode_line, line)
        except self.interp.StopText:
            pass

    def in_list(self, cur, before, *added):
        """Q(cur), with these values more"""
        S, o = self.S, self.o
        S.check('between values', o.mode is self.mode.READ_PARAM)
        S.check('of the same list', o.current_object is cur and o.path[-1] is cur)
        S.check('nothing of the next value is read', o.current_value is None or o.current_value == '')
        S.check('a value can be ended here', o.previous_char is None or S.truth(S.vm.models.compare(S.vm, 'NotEq', o.previous_char, '}')))
        S.eq('values of the list', cur, before + list(added))

    def after_list(self, cur, before, *added):
        """END: cur, closed, has these values more; its parent is the current one"""
        S, o = self.S, self.o
        S.check('between values', o.mode is self.mode.READ_PARAM)
        S.eq('values of the list', cur, before + list(added))
        S.check('nothing of the next value is read', o.current_value is None)
        S.check('a list was closed', o.previous_char == '}')
        if self.parent is None:
            S.check('no list is open', o.current_object is None and o.path == [])
        else:
            S.check('the list around is the current one', o.current_object is self.parent and o.path[-1] is self.parent)

    def ended(self, S, cur, before, term, *added):
        if term == ',':
            self.in_list(cur, before, *added)
        else:
            self.after_list(cur, before, *added)


def begin(S, r):
    """-> the text a value begins after, (list, content) to be read into: in the middle of a line, or right after '{'"""
    root = S.flag('in a list of the file')
    where = S.pick('where', ['after another value', 'first of its list'])
    if where == 'after another value':
        r.inside(root=root)
        return r.pre, lambda: (r.cur, r.before)
    o = r.o
    o.mode = r.mode.READ_PARAM
    if root and S.flag('first of the file'):
        r.parent = None
        return '{', lambda: (o.data[0], [])
    r.around(root, None)
    o.current_object = r.parent
    o.current_value = S.pick('value so far', ['', None])
    o.previous_char = S.pick('previous', [None, ',', S.text('prev', no='}', min=1, max=1)])
    old = S.copy(r.parent if r.parent is not None else o.data)

    def target():
        at = r.parent if r.parent is not None else o.data
        S.eq('one list is added to the one around', at[:-1], old)
        return at[-1], []
    return '{', target


@theorem('reading a token, or nothing, up to the separator adds exactly it to the list', inner=True, native=False, functions=FNS)
def token(S):
    import sym
    r = Reader(S)
    head, target = begin(S, r)
    t = r.plain('token', min=1) if S.flag('a token') else ''
    if isinstance(head, str) and not isinstance(t, str):
        S.assume(not sym.starts(t, '#base64'))
    term = S.pick('separator', [',', '}'])
    v0 = r.o.current_value
    r.read(sym.cat(head, t, term, r.post))
    cur, before = target()
    if isinstance(t, str):
        got = cur[len(before)] if not any(type(x).__name__ == 'Rest' for x in before) else cur[-1]
        S.check('no value', got is None or got == '')
        t = got
    r.ended(S, cur, before, term, t)


@theorem('a quoted string on one line is read to the closing quote, whatever it holds', inner=True, native=False, functions=FNS)
def string_line(S):
    import sym
    r = Reader(S)
    head, target = begin(S, r)
    b = r.body('body')
    term = S.pick('separator', [',', '}'])
    r.read(sym.cat(head, '"', b, '"', term, r.post))
    cur, before = target()
    r.ended(S, cur, before, term, sym.cat('"', b, '"'))


@theorem('a quoted string that goes on in the next line is open at its beginning', inner=True, native=False, functions=FNS)
def string_open(S):
    import sym
    r = Reader(S)
    head, target = begin(S, r)
    b = r.body('body')
    r.read(sym.cat(head, '"', b, '\n'))
    o = r.o
    S.check('within the string', o.mode in (r.mode.BEGIN_READ_STRING_VALUE, r.mode.BEGIN_READ_MULTI_STRING_VALUE))
    S.eq('with what was read', o.current_value, sym.cat('"', b, '\n'))
    cur, before = target()
    S.check('of the same list', o.current_object is cur and o.path[-1] is cur)
    S.eq('no value more', cur, before)


@theorem('a whole line inside a quoted string is added to it', inner=True, native=False, functions=FNS)
def string_inner(S):
    import sym
    r = Reader(S)
    r.string()
    b = r.body('body')
    r.snapshot()
    r.read(sym.cat(b, '\n'))
    o = r.o
    S.check('within the string', o.mode in (r.mode.BEGIN_READ_STRING_VALUE, r.mode.BEGIN_READ_MULTI_STRING_VALUE))
    S.eq('with what was read', o.current_value, sym.cat(r.v, b, '\n'))
    r.frame('current_value', 'previous_char', 'mode')


@theorem('the line on which a quoted string ends', inner=True, native=False, functions=FNS)
def string_close(S):
    import sym
    r = Reader(S)
    r.string()
    b = r.body('body')
    term = S.pick('separator', [',', '}'])
    r.read(sym.cat(b, '"', term, r.post))
    r.ended(S, r.cur, r.before, term, sym.cat(r.v, b, '"'))


@theorem('the end of a line between two values, or after an opening brace, changes nothing', inner=True, native=False, functions=FNS)
def line_end(S):
    import sym
    r = Reader(S)
    head, target = begin(S, r)
    r.read(sym.cat(head, '\n'))
    cur, before = target()
    r.in_list(cur, before)


@theorem('after a list: a comma goes on with the list around, the end of the line changes nothing, a brace at the beginning of a line closes the list around',
         inner=True, native=False, functions=FNS)
def after(S):
    import sym
    r = Reader(S)
    o = r.o
    what = S.pick('next', [',', '\n', '}'])
    root = S.flag('the list around is one of the file')
    r.inside(root=root)
    if root and what != '}' and S.flag('the list was one of the file'):
        r.parent, o.path, o.current_object = None, [], None
        at, before = o.data, S.copy(o.data)
    else:
        at, before = r.cur, r.before
    o.current_value, o.previous_char = None, '}'
    if what == ',':
        r.read(sym.cat(r.pre, ',', r.post))
        if o.current_object is None:
            S.check('between lists of the file', o.mode is r.mode.READ_PARAM and o.path == [] and o.previous_char != '}' and o.current_value is None)
            S.eq('lists of the file', o.data, before)
        else:
            r.in_list(at, before)
    elif what == '\n':
        r.snapshot()
        r.read(sym.cat(r.pre, '\n'))
        r.frame()
    else:
        r.read(sym.cat('}', r.post))
        r.after_list(at, before)


@theorem('a base64 value: its lines are put together up to the brace', inner=True, native=False, functions=FNS + (
    'json_container_decoder:JsonContainerDecoder.decode_b64_line', 'json_container_decoder:JsonContainerDecoder._decode_line_read_b64'))
def base64_value(S):
    import sym
    r = Reader(S)
    o = r.o
    c = S.text('chunk', no='},"\n{')
    what = S.pick('line', ['first and last', 'first', 'inner', 'last'])
    if what.startswith('first'):
        o.mode = r.mode.READ_PARAM
        root = S.flag('in the file')
        if root and S.flag('first of the file'):
            r.parent = None
        else:
            r.around(root, None)
            o.current_object = r.parent
            if not root:
                # data[0] is not ['1', this list]: such a file is kept whole
                o.data = [S.rest('d', min=3)] if S.flag('one') else [['2', []]] if S.flag('another kind') else [S.rest('a'), S.rest('b')]
        o.current_value = S.pick('value so far', ['', None])
        o.previous_char = S.pick('previous', [None, ',', S.text('prev', no='}', min=1, max=1)])
        at = r.parent if r.parent is not None else o.data
        old = S.copy(at)
        if what == 'first':
            r.read(sym.cat('{#base64:', c, '\n'))
            S.check('within the value', o.mode is r.mode.READ_B64)
            S.eq('with what was read', o.current_value, sym.cat('#base64:', c))
            S.check('a value can be ended here', o.previous_char is None or S.truth(S.vm.models.compare(S.vm, 'NotEq', o.previous_char, '}')))
            S.check('in a new list', o.current_object is at[-1] and o.path[-1] is at[-1])
            S.eq('which is empty', at, old + [[]])
        else:
            r.read(sym.cat('{#base64:', c, '}', r.post))
            r.after_list(at[-1], [], sym.cat('##base64:', c))
            S.eq('one list more', at[:-1], old)
        return
    r.inside(root=S.flag('root'))
    o.mode = r.mode.READ_B64
    v = o.current_value = S.text('v')
    if what == 'inner':
        r.snapshot()
        r.read(sym.cat(c, '\n'))
        S.eq('with what was read', o.current_value, sym.cat(v, c))
        r.frame('current_value')
    else:
        r.read(sym.cat(c, '}', r.post))
        r.after_list(r.cur, r.before, sym.cat(v, c))


@theorem('a long base64 token, last of its list: its lines are put together up to the brace', inner=True, native=False, functions=FNS + (
    'json_container_decoder:JsonContainerDecoder.decode_b64_line', 'json_container_decoder:JsonContainerDecoder._decode_line_read_b64'))
def base64_token(S):
    import sym
    r = Reader(S)
    o = r.o
    what = S.pick('line', ['first', 'second', 'second and last'])
    if what == 'first':
        head, target = begin(S, r)
        t = r.plain('token', min=64)
        S.assume(S.len(t) == 64)
        if isinstance(head, str):
            S.assume(not sym.starts(t, '#base64'))
        r.read(sym.cat(head, t, '\n'))
        cur, before = target()
        S.eq('no value is added', cur, before)
        S.eq('its first 64 characters are read', o.current_value, t)
        S.check('a value can be ended here', S.truth(S.vm.models.compare(S.vm, 'NotEq', o.previous_char, '}')))
        S.check('in the same list', o.mode is r.mode.READ_PARAM and o.current_object is cur and o.path[-1] is cur)
        return
    r.inside(root=S.flag('root'))
    v = o.current_value = S.text('v', min=64, max=64, no=Q)
    r.snapshot()
    if what == 'second':
        c = S.text('chunk', no='},"\n{', min=S.pick('some', [0, 1]))
        r.read(sym.cat(c, '\n'))
        S.check('in a base64 value', o.mode is r.mode.READ_B64)
        S.eq('with what was read', o.current_value, sym.cat(v, c))
        r.frame('current_value', 'mode')
    else:
        c = S.text('chunk', no='},"\n{', min=1)
        r.read(sym.cat(c, '}', r.post))
        r.after_list(r.cur, r.before, sym.cat(v, c))


@theorem('reading a file: every line once, in order; the lists it found, the empty text for a file without any; a file that ends within a value is refused',
         inner=True, native=False, functions=('json_container_decoder:JsonContainerDecoder.decode_file',))
def lines(S):
    import interp
    C = reader_class()
    mode = fn_of('json_container_decoder:Mode')
    o = S.call(C, src_dir=S.text('dir', no='/'), file_name=S.text('file', no='/'))
    o.mode = S.pick('mode', [mode.READ_PARAM, mode.READ_B64])
    log = []
    at_start = []

    def line(vm, self, text):
        log.append(text)
    S.contract('json_container_decoder:JsonContainerDecoder.decode_line', line)
    rest = S.rest('line')
    found = S.rest('list', min=1) if S.flag('found') else []
    ends = S.pick('ends', [mode.READ_PARAM, mode.BEGIN_READ_STRING_VALUE, mode.READ_B64, mode.BEGIN_READ_MULTI_STRING_VALUE])

    def entry(env, it=None):
        S.eq('the lines of the file', it, rest)
        S.check('nothing is read before', log == [] and o.mode is mode.READ_PARAM and o.data == [])

    def element():
        element.x = S.text('one line')
        return element.x

    def before(env):
        o.data, o.mode = found, ends
        log[:] = []

    def after(env):
        S.eq('the line is read, once', log, [element.x])
        S.end()
    S.loop('json_container_decoder:JsonContainerDecoder.decode_file', interp.Loop(S, at_entry=entry, element=element, before=before, after=after))
    r, err = S.attempt(o.decode_file, rest)
    S.check('nothing is read after', log == [])
    if ends is mode.READ_PARAM:
        S.check('no error', err is None, repr(err))
        if found:
            S.check('the lists', r is found)
        else:
            S.check('nothing', r == '')
    else:
        S.check('refused', err is not None)


def tokens(S, i):
    """a value of the tree"""
    import sym
    k = S.pick(f'value {i}', ['token', 'none', 'string', 'list'])
    if k == 'token':
        t = S.text(f't{i}', no=Q)
        S.assume(not S.starts(t, '#base64:'))
        S.assume(not S.starts(t, '##base64:'))
        return k, t
    if k == 'none':
        return k, None
    if k == 'string':
        return k, sym.cat('"', S.text(f's{i}'), '"')
    return k, [S.opaque(f'l{i}')] + S.rest(f'l{i}')


@theorem('writing a list: an opening brace, its values in order, each followed by a comma or the closing brace; a list among them on a new line',
         inner=True, native=False, functions=('json_container_decoder:JsonContainerDecoder.encode_object',))
def write_list(S):
    import sym, interp, models
    C = reader_class()
    o = S.call(C)
    first = S.flag('outermost')
    a, b = S.flag('values before'), S.flag('values behind')
    k, x = tokens(S, 0)
    data = (S.rest('before', min=1) if a else []) + [x] + (S.rest('behind', min=1) if b else [])
    inner = S.text('text of the list')
    n = S.len(data)
    i0 = S.len(data[:1]) if a else 0
    so_far = S.text('written')

    def rec(vm, self, d, f=True):
        S.check('the value itself', d is x and k == 'list')
        S.check('on a new line', f is False)
        return sym.cat('\n{', inner, '}')
    run = S.obj(C, **vars(o))
    name = 'json_container_decoder:JsonContainerDecoder.encode_object'
    state = {}

    def entry(env, it=None):
        S.eq('inv: the opening brace', env.get('raw_data'), '{' if first else '\n{')
        S.eq('every value', S.len(it), n)

    def element():
        return i0

    def before(env):
        state['v'] = so_far
        env.set('raw_data', so_far)
        S.contract(name, rec)

    def after(env):
        text = x if k in ('token', 'string') else '' if k == 'none' else sym.cat('\n{', inner, '}', '' if b else '\n')
        S.eq('its text is added', env.get('raw_data'), sym.cat(so_far, text, ',' if b else ''))
        S.end()
    import ast
    spec = interp.Loop(S, keep={'raw_data': (None, lambda: so_far, None)}, at_entry=entry, element=element, before=before, after=after)
    # a long token of base64 is written by a loop of its own: write_base64
    S.loop(name, lambda vm, s, env: spec if isinstance(s, ast.For) else S.end())
    r = S.call(run.encode_object, data, first)
    S.eq('and the closing brace', r, sym.cat(so_far, '}'))


@theorem('writing a base64 value: after its mark and 64 characters, and after every 64 more, a line ends; nothing of it is lost or doubled',
         inner=True, native=False, functions=('json_container_decoder:JsonContainerDecoder.encode_object',))
def write_base64(S):
    import sym, interp, ast
    C = reader_class()
    o = S.call(C)
    name = 'json_container_decoder:JsonContainerDecoder.encode_object'
    what = S.pick('what', ['value', 'token', 'value in one line'])
    last = S.flag('the last of its list')
    if what == 'value in one line':
        x = sym.cat('##base64:', S.text('data', no=Q))
        S.eq('as it is', S.call(o.encode_object, [x], True), sym.cat('{', x[1:], '}'))
        return
    e = S.text('data', no=Q, min=64)
    x = sym.cat('#base64:', e) if what == 'value' else e
    if what == 'token':
        S.assume(not S.starts(x, '#base64:'))
        S.assume(not S.starts(x, '##base64:'))
        S.assume(S.len(x) > 64)
    n = S.len(x)
    so_far = S.text('written')
    st = {}

    def entry_value(env, it=None):
        S.eq('inv: the mark and 64 characters', env.get('raw_data'), sym.cat('{', sym.cut(x, 0, 72)))
        S.eq('inv: so many', env.get('j'), 72)

    def before_value(env):
        j = S.int('j', 72)
        S.assume(j <= n + 63)
        env.set('j', j)
        st['j'] = j

    def after_value(env):
        j = st['j']
        S.eq('inv: a line end and the next 64 characters, or what is left', env.get('raw_data'), sym.cat(so_far, '\r\n', x[j:j + 64]))
        S.eq('inv: so many more', env.get('j'), j + 64)
        S.end()

    def leave_value(env):
        S.check('everything is written', st['j'] >= n)

    def before_token(env):
        k = S.int('k', 0)
        S.assume(k < n)
        first = S.flag('first line')
        if first:
            S.assume(k == 0)
        st['k'], st['first'] = k, first
        env.set('elem', x[k:])
        env.set('j', n - k)
        env.set('_first', first)

    def after_token(env):
        k = st['k']
        S.check('more is left', n - k > 64)
        S.eq('inv: a line of 64 characters', env.get('raw_data'), sym.cat(so_far, '' if st['first'] else '\r\n', x[k:k + 64]))
        S.eq('inv: the rest', env.get('elem'), x[k + 64:])
        S.eq('inv: so much', env.get('j'), n - k - 64)
        S.eq('inv: not the first line', env.get('_first'), False)
        S.end()

    def entry_token(env, it=None):
        S.eq('inv: all of it is left', env.get('elem'), x)
        S.eq('inv: so much', env.get('j'), n)
        S.eq('inv: first line', env.get('_first'), True)
        S.eq('inv: nothing is written', env.get('raw_data'), '{')
    keep = {'raw_data': (None, lambda: so_far, None)}
    if what == 'value':
        spec = interp.Loop(S, keep=dict(keep, j=(None, lambda: 0, None)), at_entry=entry_value, before=before_value, after=after_value, leave=leave_value)
    else:
        spec = interp.Loop(S, keep=dict(keep, j=(None, lambda: 0, None), elem=(None, lambda: '', None), _first=(None, lambda: True, None)),
                           at_entry=entry_token, before=before_token, after=after_token)
    S.loop(name, lambda vm, s, env: spec if isinstance(s, ast.While) else None)
    r = S.call(o.encode_object, [x] if last else [x, '0'], True)
    if what == 'value':
        head = so_far
    elif 'k' not in st:
        return          # not base64: write_list
    else:
        head = sym.cat(so_far, '' if st['first'] else '\r\n', x[st['k']:])
    if last:
        S.eq('and the closing brace', r, sym.cat(head, '}'))
    else:
        S.check('and the next', S.truth(S.starts(r, sym.cat(head, ','))))


@theorem('writing the lists of a file: one after another, a comma and a line end between them', inner=True, native=False,
         functions=('json_container_decoder:JsonContainerDecoder.encode_root_object',))
def write_root(S):
    import sym, interp
    C = reader_class()
    o = S.call(C)
    lists = S.rest('list')
    x, so_far, text = S.opaque('one'), S.text('written'), S.text('its text', min=1)
    first = S.flag('first')

    def one(vm, self, d, f=True):
        S.check('one of the lists', d is x and f is True)
        return text
    S.contract('json_container_decoder:JsonContainerDecoder.encode_object', one)

    def entry(env, it=None):
        S.eq('all lists', it, lists)
        S.eq('inv: nothing is written', env.get('raw_data'), '')

    def before(env):
        if not first:
            S.assume(S.len(so_far) > 0)
        env.set('raw_data', '' if first else so_far)

    def after(env):
        S.eq('its text is added', env.get('raw_data'), text if first else sym.cat(so_far, ',\n', text))
        S.end()
    S.loop('json_container_decoder:JsonContainerDecoder.encode_root_object',
           interp.Loop(S, keep={'raw_data': (None, lambda: so_far, None)}, at_entry=entry, element=lambda: x, before=before, after=after))
    r = S.call(o.encode_root_object, lists)
    S.eq('all that was written', r, '' if first else so_far)


@theorem('a brace file holds what was written, after a mark of its encoding, and is read as it was written, with the line ends of the format as line ends',
         top=True, native=False, functions=('helper:brace_file_write', 'helper:brace_file_read', 'json_container_decoder:JsonContainerDecoder.write_data'))
def file_pair(S):
    import sym
    tree, found, text = S.opaque('tree'), S.opaque('found'), S.text('text', no='\r')
    got = []

    def write(vm, self, data):
        S.check('the tree', data is tree)
        return text

    def read(vm, self, file):
        got.append(S.call(file.read))
        return found
    S.contract('json_container_decoder:JsonContainerDecoder.encode_root_object', write)
    S.contract('json_container_decoder:JsonContainerDecoder.decode_file', read)
    S.dir(S.path('folder'))
    folder = S.path('folder') if S.flag('there') else S.path('new')
    name = S.text('name', no='/', min=1, isnt=('.', '..'))
    S.call('helper:brace_file_write', tree, folder, name)
    r = S.call('helper:brace_file_read', folder, name)
    S.check('what was read', r is found)
    S.eq('the same text, once', got, [text])


SHAPES = [['a'], ['n', 's'], [['a'], 's'], ['a', ['n', ['s']]], [['s'], ['a']], ['m'], ['a', 'm'], [['m']]]


@theorem('a tree of one of these shapes, written and read, is the same tree; with any tokens and strings in it', top=True, native=False,
         bounded='eight shapes of trees of up to three values, up to two of such lists in a file, strings of up to three lines',
         functions=('json_container_decoder:JsonContainerDecoder.encode_root_object', 'json_container_decoder:JsonContainerDecoder.decode_file'))
def whole(S):
    import sym
    r = Reader(S)
    n = [0]

    def make(x, first=False):
        n[0] += 1
        if x == 'a':
            t = r.plain(f't{n[0]}', min=1, no='#')
            S.assume(S.len(t) <= 64)
            return t
        if x == 's':
            return sym.cat('"', r.body(f's{n[0]}'), '"')
        if x == 'm':
            return sym.cat('"', r.body(f'a{n[0]}', max=0) if S.flag('ends at once') else r.body(f'b{n[0]}'), '\n', r.body(f'c{n[0]}'), '\n', r.body(f'd{n[0]}'), '"')
        if x == 'n':
            return ''
        return [make(y) for y in x]
    tree = [make(S.pick('shape', SHAPES))] + ([[make('a')]] if S.flag('two') else [])
    want = S.copy(tree)
    C = reader_class()
    text = S.call(S.call(C).encode_root_object, tree)
    S.eq('writing does not change the tree', tree, want)
    lines, cur = [], []
    for p in sym.parts_of(text):
        while isinstance(p, str) and '\n' in p:
            a, p = p.split('\n', 1)
            lines.append(sym.cat(*cur, a + '\n'))
            cur = []
        cur.append(sym.rope('s', [p]) if not isinstance(p, str) else p)
    if cur:
        lines.append(sym.cat(*cur))
    o = r.o
    filled = lambda t: [filled(x) if isinstance(x, list) else '' if x is None else x for x in t]
    S.eq('the same tree', filled(S.call(o.decode_file, lines)), want)
