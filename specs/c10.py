"""C10: version check"""
from thm import registry
import roots
T, theorem = registry()
ASSUMPTIONS = []


@theorem('check_version accepts exactly the sources whose major and minor numbers are those of the program (three parts each)', top=True)
def same_version(S):
    a = [S.int(f'a{i}', 0) for i in range(3)]
    b = [S.int(f'b{i}', 0) for i in range(3)]
    va = S.decimal(a[0]) + '.' + S.decimal(a[1]) + '.' + S.decimal(a[2])
    vb = S.decimal(b[0]) + '.' + S.decimal(b[1]) + '.' + S.decimal(b[2])
    e = S.raises('helper:check_version', va, vb)
    same = (a[0] == b[0]) & (a[1] == b[1])
    if e is None:
        S.check('accepted: same major and minor', same)
    else:
        S.check('rejected: another major or minor', ~same if S.symbolic and not isinstance(same, bool) else not same)
        S.check('rejected with the documented error', isinstance(e, AssertionError))


@theorem('a version that has not three parts is rejected', top=True)
def malformed(S):
    n = S.pick('parts', [1, 2, 4, 5])
    v = '.'.join(['1'] * n) if S.flag('lit') else S.text('v', only='0123456789')
    side = S.flag('side')
    e = S.raises('helper:check_version', *(('1.1.1', v) if side else (v, '1.1.1')))
    S.check('rejected', isinstance(e, AssertionError))


for k in roots.KINDS:
    theorem(f'{k}: unpacking records the version of the tool, and building refuses sources of another major or minor version, whatever the options', top=True, native=False,
            bounded='eight recorded versions against that of the tool; any option given alone')(roots.root_object(k, roots.Gate()))
