"""The commands extract and build, over contracts of their stages: a stage takes what the stage before it left and leaves its own result.
Used by C07 (every stage gets exactly the result of the one before, the inputs stay) and C18 (a failing stage ends the command)."""


def stub_pool(S):
    import models

    class SPool(models.Obj):
        closed = joined = False

        def close(self):
            self.closed = True

        def join(self):
            self.joined = True

        def terminate(self):
            self.closed = self.joined = True
    made = []

    def get_pool(vm, *, pool=None, processes=None):
        if pool is not None:
            return pool
        made.append((SPool(), processes))
        return made[-1][0]
    S.contract('helper:get_pool', get_pool)
    return made


class Command:
    def __init__(self, S, fails=False):
        import models, sym
        self.S = S
        self.made = stub_pool(S)
        self.log = []
        self.tokens = [S.bytes('result of nothing', min=1)]
        self.fail_at = None
        self.fails = fails
        self.given_temp = S.flag('temporary folder given')
        self.temp = S.path('temp')
        self.options_given = S.pick('options', ['none', 'empty', 'some', 'descent'])
        self.d = S.int('d', 1) if self.options_given == 'descent' else None
        self.options = {'none': None, 'empty': {}, 'some': {'prefix': S.text('prefix')}, 'descent': {'descent': self.d}}[self.options_given]
        self.options_kept = dict(self.options or {})
        self.index = {'x': 'y'}
        self.index_given = S.text('index file', min=1) if S.flag('index given') else None
        self.processes = S.int('processes', 1) if S.flag('processes given') else None
        S.contract('helper:check_index', self.check_index)
        S.hook('tempfile.mkdtemp', self.mkdtemp)
        # whatever an earlier run left in the temporary folder
        if self.given_temp:
            for s in ('decode_stage_0', 'decode_stage_1', 'decode_stage_3', 'encode_stage_0', 'encode_stage_1', 'encode_stage_3'):
                S.file(S.path('temp', s, 'stale'), S.bytes('stale'))
        S.file(S.path('other', 'file'), self.of_others())

    def of_others(self):
        self.others = self.S.bytes('of others')
        return self.others

    def check_index(self, vm, name):
        self.S.eq('the index is the one given', name, self.index_given)
        return self.index if self.index_given is not None else None

    def mkdtemp(self, vm, *a, **k):
        self.S.dir(self.temp)
        return self.temp

    def stage(self, name, takes, leaves, wants=(), merges=False):
        """contract of a stage: takes, leaves: positions of the folder (or file) it reads and the one it writes.
        The folder it leaves has its result alone (each stage clears it: C01, C02, C05, C12, C17), unless it merges"""
        S = self.S

        def contract(vm, *a, **k):
            import models
            if a and isinstance(a[0], type):
                S.eq('the sources are laid out by versions exactly when a version is given', a[0].__name__, 'OrganizerFileCE' if self.d is not None else 'OrganizerFile')
                a = a[1:]
            src, dst = models.npath(a[takes]), models.npath(a[leaves])
            n = len(self.log)
            self.log.append(name)
            S.check('the stages run in their order, each once', n < len(self.order) and self.order[n] == name, repr(self.log))
            S.check('the pool is handed on', k.get('pool') in ([None] + [p for p, _ in self.made]))
            for w in wants:
                w(a, k)
            if name == self.fail_at:
                raise self.error
            if n == 0:
                S.eq(f'{name} reads the input', src, self.input)
                S.eq(f'{name} reads the input as it is', S.read(self.input_file), self.tokens[0])
            else:
                S.eq(f'{name} reads the result of the stage before', S.read(src + '/result'), self.tokens[-1])
            S.check(f'{name} writes somewhere else', not S.truth(models.deq(src, dst)))
            out = S.bytes('result of ' + name, min=1)
            if n == len(self.order) - 1:
                S.eq(f'{name} writes the output', dst, self.output)
                if self.output_is_file:
                    if S.read(dst) is not None:
                        vm.models.fs.remove(dst)
                    vm.models.fs.add(dst, out)
                else:
                    S.file(dst + '/result', out)
            else:
                S.check(f'{name} does not write the output', not S.truth(models.deq(dst, self.output)))
                models.m_rmtree(vm, dst, ignore_errors=True)
                S.file(dst + '/result', out)
            self.tokens.append(out)
        return contract

    def fail(self, S):
        from v8unpack.ext_exception import ExtException
        self.fail_at = S.pick('the stage that fails', self.order)
        k = S.pick('error', ['OSError', 'ExtException', 'KeyError', 'ValueError', 'EOFError', 'FileNotFoundError'])
        if k == 'ExtException':
            self.error = S.call(ExtException, message=S.text('message', min=1))
        else:
            self.error = {'OSError': OSError, 'KeyError': KeyError, 'ValueError': ValueError, 'EOFError': EOFError, 'FileNotFoundError': FileNotFoundError}[k]('what failed')

    def run(self, f, *a):
        S = self.S
        from v8unpack.ext_exception import ExtException
        kw = {}
        if self.given_temp:
            kw['temp_dir'] = self.temp
        if self.index_given is not None:
            kw['index'] = self.index_given
        if self.processes is not None:
            kw['processes'] = self.processes
        if self.options_given != 'none':
            kw['options'] = self.options
        if self.fails:
            self.fail(S)
            e = S.raises(f, *a, **kw)
            S.check('the command ends with an error', isinstance(e, ExtException), repr(e))
            S.check('the error is made of what failed', getattr(e, 'ghost', {}).get('parent') is self.error)
            S.check('and of nothing else', not getattr(e, 'ghost', {}).get('message'))
            S.eq('no later stage runs', self.log, self.order[:self.order.index(self.fail_at) + 1])
            return
        S.call(f, *a, **kw)
        S.eq('every stage has run', self.log, self.order)
        S.eq('one pool', len(self.made), 1)
        S.eq('of the number of workers given', self.made[0][1], self.processes)
        S.check('which is closed', self.made[0][0].closed)
        last = S.read(self.output if self.output_is_file else self.output + '/result')
        S.check('the output is the result of the last stage', last is not None)
        S.eq('the output is the result of the last stage', last, self.tokens[-1])
        S.eq('other files are left', S.read(S.path('other', 'file')), self.others)
        S.eq('the input is left', S.read(self.input_file), self.tokens[0])
        if not self.given_temp:
            S.check('the temporary folder is removed', not S.vm.models.fs.isdir(self.temp))


def extraction(S, fails=False):
    c = Command(S, fails)
    c.input = c.input_file = S.path('in', 'file.cf')
    S.file(c.input, c.tokens[0])
    c.output, c.output_is_file = S.path('sources'), False
    S.file(c.output + '/old', S.bytes('old'))
    ce = c.d is not None
    c.order = ['container', 'streams', 'decode', 'organize']

    def flat(a, k):
        S.eq('the container is unpacked one level', [*a[2:], *[k[x] for x in ('deflate', 'recursive') if x in k]], [False, False])

    def options(a, k):
        got = k.get('options', a[2] if len(a) > 2 else None)
        S.check('the options are handed on', isinstance(got, dict))
        S.eq('the options are handed on', {x: got[x] for x in got}, c.options_kept)

    def index(a, k):
        S.check('the index is handed on', k.get('index') is (c.index if c.index_given is not None else None))
        S.eq('the version is handed on', k.get('descent'), c.d)
    S.contract('container_reader:extract', c.stage('container', 0, 1, [flat]))
    S.contract('container_reader:decompress_and_extract', c.stage('streams', 0, 1))
    S.contract('decoder:decode', c.stage('decode', 0, 1, [options]))
    for k in ('organizer_file_ce:OrganizerFileCE', 'organizer_file:OrganizerFile'):
        S.contract(k + '.unpack', c.stage('organize', 0, 1, [index]))
    c.run('v8unpack:extract', c.input, c.output)
    if not fails:
        S.check('files of other versions stay, others do not' if ce else 'the output folder held nothing else',
                (S.read(c.output + '/old') is not None) == ce)


def building(S, fails=False):
    c = Command(S, fails)
    c.input, c.input_file = S.path('sources'), S.path('sources', 'some')
    S.file(c.input_file, c.tokens[0])
    name = S.text('name', no='/', min=1, isnt=('.', '..'))
    c.output, c.output_is_file = S.path('out') + '/' + name, True
    if S.flag('an older result'):
        S.file(c.output, S.bytes('old'))
    ce = c.d is not None
    c.order = ['organize', 'encode', 'streams', 'container']

    def index(a, k):
        S.check('the index is handed on', k.get('index') is (c.index if c.index_given is not None else None))
        S.eq('the version is handed on', k.get('descent'), c.d)

    def options(a, k):
        got = k.get('options')
        S.check('the options are handed on', isinstance(got, dict))
        S.eq('the options are handed on', {x: got[x] for x in got}, c.options_kept)
        S.eq('and the name of the file', k.get('file_name'), name)

    def nested(a, k):
        S.eq('in the layout of a file', [*a[2:], *[k[x] for x in ('nested',) if x in k]], [True])
    for k in ('organizer_file_ce:OrganizerFileCE', 'organizer_file:OrganizerFile'):
        S.contract(k + '.pack', c.stage('organize', 0, 1, [index]))
    S.contract('decoder:encode', c.stage('encode', 0, 1, [options]))
    S.contract('container_writer:compress_and_build', c.stage('streams', 0, 1))
    S.contract('container_writer:build', c.stage('container', 0, 1, [nested]))
    c.run('v8unpack:build', c.input, c.output)
