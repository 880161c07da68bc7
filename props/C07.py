"""C07 scalar access is one-based, in bounds and column-major"""
from prop import Prop
from lib import *
from C08 import pos, conv

prop = Prop('C07', ['C07.cpp'], replay='C07.cpp')
prop.assumptions += ['double indices truncate to a value of int']


def index(c, T, name):
    """(argument, one-based position it denotes)"""
    x = c.scalar({'i': 'I', 'd': 'D', 'z': 'S'}[T], name)
    if T == 'd':
        c.assume(z3.And(z3.Not(nan(x)), val(x) > -2 ** 31 - 1, val(x) < 2 ** 31))
        return x, ftrunc_int(x)
    return x, x


def vec(c, S):
    if S == 'wd':
        return c.vec('D', 'v', layname='WD', owned=False, matrix='any')
    return c.vec(S[1].upper(), 'v', matrix='any')


def access(S, f, ix, write, fn=None, mat=None):
    def go(c):
        v = vec(c, S)
        T = v.T
        a = [index(c, t, 'ik'[q]) for q, t in enumerate(ix)]
        x = c.scalar(T, 'x')
        out = x if write else c.ref(T, x)
        if len(ix) == 1:
            good, p = band(le(1, a[0][1]), le(a[0][1], v.n)), sub(a[0][1], 1)
        else:
            good = band(eqv(v.im, 1), le(1, a[0][1]), le(a[0][1], v.nr), le(1, a[1][1]), le(a[1][1], v.nc))
            p = add(mul(v.nr, sub(a[1][1], 1)), sub(a[0][1], 1))
        for o in c.run(f, [v] + [q[0] for q in a] + [out]):
            if o.kind != 'ret':
                c.require(o.st, 'an index inside does not throw', bnot(good))
                c.thrown(o, v) if v.owned else c.frame(o.st)
                continue
            c.require(o.st, 'an index outside throws', good)
            e = bit(x) if T == 'B' else x
            if write:
                c.forall_elts(o.st, v, v.n, lambda j: ite(eqv(j, p), e, raw(v, j)), 'written')
                c.shape(o.st, v, v.im, v.nr, v.nc)
                c.clean(o, [v])
            else:
                g = o.st.mem[out.reg].cells[0][1]
                c.require(o.st, 'value read', eqv(g, fn(raw(v, p)) if fn else raw(v, p)))
                c.frame(o.st, [out.reg])
    return go


for S in ('vd', 'vi', 'vb', 'wd'):
    for ix in ('i', 'd', 'z', 'ii', 'di', 'id', 'dd', 'zz'):
        prop.case('%s_read_%s' % (S, ix), access(S, '%s_%s' % (S, ix), ix, False), expect=('ret', 'exc'), weight=len(ix))
        prop.case('%s_write_%s' % (S, ix), access(S, '%s_w%s' % (S, ix), ix, True), expect=('ret', 'exc'), weight=len(ix))
for S, fn in (('op', lambda e: fbin('fadd', e, e)), ('un', lambda e: ufun('fneg')(e))):
    for ix in ('ii', 'di', 'id', 'dd'):
        prop.case('%s_read_%s' % (S, ix), access('vd', '%s_%s' % (S, ix), ix, False, fn), expect=('ret', 'exc'), weight=2)


def twice(c):
    v = c.vec('D', 'v', matrix='any')
    i, k, x = c.scalar('I', 'i'), c.scalar('I', 'k'), c.scalar('D', 'x')
    inside = lambda q: band(le(1, q), le(q, v.n))
    for o in c.run('twice', [v, i, k, x]):
        if o.kind != 'ret':
            c.require(o.st, 'indices inside do not throw', bnot(band(inside(i), inside(k))))
            c.clean(o, [v])
            continue
        c.require(o.st, 'an index outside throws', band(inside(i), inside(k)))
        c.forall_elts(o.st, v, v.n, lambda j: ite(bor(eqv(j, sub(k, 1)), eqv(j, sub(i, 1))), x, raw(v, j)), 'written')
        c.clean(o, [v])


prop.case('write_then_copy', twice, expect=('ret', 'exc'))
