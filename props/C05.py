"""C05 contents and class invariant of growable storage"""
from prop import Prop
from lib import *
from C09 import int_range

prop = Prop('C05', ['C05.cpp'], replay='C05.cpp')
prop.assumptions += ['the total length of the arguments of coca fits an int']
STATES = (('any', 'allocated'), (False, 'empty'))


def zero(T):
    return fconst(Fraction(0)) if T == 'D' else 0


def ret(c, o, what='does not throw'):
    if o.kind != 'ret':
        c.require(o.st, what, False)
        return False
    return True


HUGE = 2 ** 63 - 1


def size_arg(c, name='n', hi=M64 - 1, lo=0):
    v = bounded(name, lo, hi)
    c.hints.append((name, v))
    return v


def kept(c, st, s, n, what, src=None):
    """elements 0..n-1 are those of src (s itself by default) before the call"""
    st2 = st.copy()
    j = c.index(st2, n)
    c.instances(st2, j)
    v = s.elt(st2, j)
    c.require(st2, what, v is not None and eqv(v, raw(src or s, j)))


def same_shape(c, st, s, im, nr, nc):
    c.shape(st, s, im, nr, nc)


def resize(p, T, alloc, init=False, vec=False):
    def go(c):
        a = (c.vec if vec else c.buf)(T, 'a', alloc=alloc)
        n = size_arg(c, lo=1 if init else 0)
        for o in c.run('%s_%s' % (p, 'init' if init else 'resize'), [a, n]):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for size zero or a size that cannot be allocated', bor(eqv(n, 0), lt(HUGE, n)))
                c.thrown(o, a)
                continue
            c.require(o.st, 'requested size', eqv(a.f(o.st, 'sz'), n))
            if not init and alloc:
                s = o.st.copy()
                s.assume(B(le(n, a.cap)))
                if s.feasible():
                    kept(c, s, a, ite(lt(n, a.n), n, a.n), 'resizing within the capacity keeps the elements')
            if not init and not alloc:
                c.forall_elts(o.st, a, n, lambda j: zero(T), 'first allocation')
            c.clean(o, [a])
    return go


def realloc(p, T, alloc):
    def go(c):
        a = c.buf(T, 'a', alloc=alloc)
        n = size_arg(c)
        for o in c.run(p + '_realloc', [a, n]):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for a size that cannot be allocated', lt(HUGE, n))
                c.thrown(o, a)
                continue
            c.forall_elts(o.st, a, n, lambda j: ite(lt(j, a.n), raw(a, j), zero(T)) if alloc else zero(T), 'reallocated')
            c.clean(o, [a])
    return go


def push(p, T, alloc, full=False):
    def go(c):
        a = c.buf(T, 'a', alloc=alloc)
        x = c.scalar(T, 'x')
        e = x if T in 'DIS' else bit(x)
        for o in c.run(p + '_push', [a, x]):
            if not ret(c, o):
                continue
            c.forall_elts(o.st, a, add(a.n, 1), lambda j: ite(lt(j, a.n), raw(a, j), e) if alloc else e, 'appended')
            c.clean(o, [a])
    return go


def fill(f, T, xT, conv=None, vec=False):
    def go(c):
        a = (c.vec if vec else c.buf)(T, 'a')
        x = c.scalar(xT, 'x')
        if T == 'I' and xT == 'D':
            c.assume(int_range(x))
        e = conv(x) if conv is not None else x
        for o in c.run(f, [a, x]):
            if not ret(c, o):
                continue
            c.forall_elts(o.st, a, a.n, lambda j: e, 'filled')
            c.clean(o, [a])
    return go


def fill_vec(f, xT, extra=False):
    def go(c):
        a = c.buf('D', 'a')
        xs = [c.vec(xT, n) for n in ('xy' if extra else 'x')]
        n = xs[0].n if not extra else add(xs[0].n, xs[1].n)
        c.assume(B(le(n, SZMAX)))
        for o in c.run(f, [a] + xs):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for a different length', bnot(eqv(n, a.n)))
                c.thrown(o, a)
                continue
            c.require(o.st, 'filling with another length throws', eqv(n, a.n))
            c.forall_elts(o.st, a, a.n, lambda j: (ite(lt(j, xs[0].n), raw(xs[0], j), raw(xs[1], sub(j, xs[0].n))) if extra else num(xs[0], j)), 'filled')
            c.clean(o, [a])
    return go


def access(p, T, alloc, write, vec=False):
    def go(c):
        a = (c.vec if vec else c.buf)(T, 'a', alloc=alloc)
        i = c.scalar('S', 'i')
        x = c.scalar(T, 'x')
        args = [a, i, x if write else c.ref(T, x)]
        for o in c.run('%s_%s' % (p, 'set' if write else 'get'), args):
            if o.kind != 'ret':
                c.require(o.st, 'throws only outside 0..size-1', bnot(lt(i, a.n)))
                c.thrown(o, a)
                continue
            c.require(o.st, 'an index outside 0..size-1 throws', lt(i, a.n))
            e = x if T != 'B' else bit(x)
            if write:
                c.forall_elts(o.st, a, a.n, lambda j: ite(eqv(j, i), e, raw(a, j)), 'written')
                c.clean(o, [a])
            else:
                c.require(o.st, 'value read', eqv(o.st.mem[args[2].reg].cells[0][1], raw(a, i)))
                c.frame(o.st, [args[2].reg])
    return go


def back(p, T, vec=False):
    def go(c):
        a = (c.vec if vec else c.buf)(T, 'a')
        out = c.ref(T, c.scalar(T, 'x'))
        for o in c.run(p + '_back', [a, out]):
            if not ret(c, o):
                continue
            c.require(o.st, 'last element', eqv(o.st.mem[out.reg].cells[0][1], raw(a, sub(a.n, 1))))
            c.frame(o.st, [out.reg])
    return go


def assign(p, T, aalloc, balloc, lay=None):
    def go(c):
        a, b = c.buf(T, 'a', alloc=aalloc), c.buf(T, 'b', alloc=balloc)
        for o in c.run(p + '_assign', [a, b]):
            if not ret(c, o):
                continue
            c.forall_elts(o.st, a, b.n, lambda j: raw(b, j) if balloc else zero(T), 'copied')
            same_shape(c, o.st, a, b.im, b.nr, b.nc)
            c.clean(o, [a])
    return go


def self_assign(p, T):
    def go(c):
        a = c.buf(T, 'a')
        for o in c.run(p + '_self', [a]):
            if not ret(c, o):
                continue
            c.forall_elts(o.st, a, a.n, lambda j: raw(a, j), 'copied')
            same_shape(c, o.st, a, a.im, a.nr, a.nc)
            c.clean(o, [a])
    return go


def copy(p, T, alloc, move=False, vec=False):
    def go(c):
        r = c.raw(T, 'r', vec=vec)
        b = (c.vec if vec else c.buf)(T, 'b', alloc=alloc)
        for o in c.run('%s_%s' % (p, 'move' if move else 'copy'), [r, b]):
            if not ret(c, o):
                continue
            c.forall_elts(o.st, r, b.n, lambda j: raw(b, j), 'copied')
            same_shape(c, o.st, r, b.im, b.nr, b.nc)
            c.clean(o, [r, b] if move else [r])
    return go


def moveit(p, T):
    def go(c):
        a, b = c.buf(T, 'a'), c.buf(T, 'b')
        for o in c.run(p + '_moveit', [a, b]):
            if not ret(c, o):
                continue
            c.forall_elts(o.st, a, b.n, lambda j: raw(b, j), 'taken over')
            c.forall_elts(o.st, b, a.n, lambda j: raw(a, j), 'given back')
            c.clean(o, [a, b])
    return go


def sized(f, T, signed=False, vec=False):
    def go(c):
        r = c.raw(T, 'r', vec=vec)
        n = size_arg(c, lo=-2 ** 31, hi=SZMAX) if signed else size_arg(c)
        for o in c.run(f, [r, n]):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for sizes below one or that cannot be allocated', bor(bnot(lt(0, n)), lt(HUGE, n)))
                c.clean(o, [], dead=[r])
                continue
            c.require(o.st, 'sizes below one throw', lt(0, n))
            c.forall_elts(o.st, r, n, lambda j: zero(T), 'constructed')
            same_shape(c, o.st, r, 0, 0, 0)
            c.clean(o, [r])
    return go


def default(f, T, vec=False):
    def go(c):
        r = c.raw(T, 'r', vec=vec)
        for o in c.run(f, [r]):
            if ret(c, o):
                c.require(o.st, 'empty', band(eqv(r.f(o.st, 'sz'), 0), eqv(r.f(o.st, 'ismatrix'), 0)))
                c.clean(o, [r])
    return go


def build(f, T, ins, n, fn, shape=None, pre=None):
    """r constructed from ins"""
    def go(c):
        r = c.raw(T, 'r')
        xs = []
        for k, t in enumerate(ins):
            if t in 'DIB':
                xs.append(c.vec(t, 'abd'[k]))
            elif t == 'p':
                m = size_arg(c, 'm', lo=1, hi=SZMAX)
                rid, u = c.array('D', m, 'mem', status='ext')
                p = Ptr(rid, 0)
                xs.append((p, u, m))
            elif t == 'n':
                xs.append(size_arg(c, 'n%d' % k, lo=1, hi=SZMAX))
            else:
                xs.append(c.scalar(t.upper(), 's'))
        if pre:
            pre(c, xs)
        args = [r] + [x[0] if isinstance(x, tuple) else x for x in xs]
        for o in c.run(f, args):
            if not ret(c, o):
                continue
            c.forall_elts(o.st, r, n(xs), lambda j: fn(xs, j), 'constructed')
            im, nr, nc = shape(xs) if shape else (0, 0, 0)
            same_shape(c, o.st, r, im, nr, nc)
            c.clean(o, [r])
    return go


def few(c, xs):
    c.assume(B(le(add(xs[0].n, xs[1].n), SZMAX)))


for p, T in (('bd', 'D'), ('bi', 'I'), ('bb', 'B')):
    for al, nm in STATES:
        prop.case('%s_resize_%s' % (p, nm), resize(p, T, al), expect=('ret', 'exc'))
        prop.case('%s_init_%s' % (p, nm), resize(p, T, al, init=True))
        prop.case('%s_realloc_%s' % (p, nm), realloc(p, T, al))
        prop.case('%s_push_%s' % (p, nm), push(p, T, al))
        prop.case('%s_copy_%s' % (p, nm), copy(p, T, al))
        prop.case('%s_move_%s' % (p, nm), copy(p, T, al, move=True))
        prop.case('%s_get_%s' % (p, nm), access(p, T, al, False), expect=('ret', 'exc') if al else ('exc',))
        prop.case('%s_set_%s' % (p, nm), access(p, T, al, True), expect=('ret', 'exc') if al else ('exc',))
        for bl, bn in STATES:
            prop.case('%s_assign_%s_%s' % (p, nm, bn), assign(p, T, al, bl))
    prop.case(p + '_fill', fill(p + '_fill', T, T, (lambda x: bit(x)) if T == 'B' else None))
    prop.case(p + '_back', back(p, T))
    prop.case(p + '_self_assign', self_assign(p, T))
    prop.case(p + '_moveit', moveit(p, T))
    prop.case(p + '_ctor_size', sized(p + '_size', T), expect=('ret', 'exc'))
    prop.case(p + '_ctor_int', sized(p + '_isize', T, signed=True), expect=('ret', 'exc'))
    prop.case(p + '_ctor_default', default(p + '_default', T))
for al, nm in STATES:
    prop.case('bs_resize_' + nm, resize('bs', 'S', al), expect=('ret', 'exc'))
    prop.case('bs_push_' + nm, push('bs', 'S', al))
    prop.case('bs_assign_' + nm, assign('bs', 'S', al, True))
prop.case('bs_get', access('bs', 'S', True, False), expect=('ret', 'exc'))
prop.case('bs_set', access('bs', 'S', True, True), expect=('ret', 'exc'))
prop.case('bd_fill_int', fill('bd_fill_int', 'D', 'I', i2f))
prop.case('bi_fill_double', fill('bi_fill_double', 'I', 'D', ftrunc_int))
prop.case('bd_fill_vec', fill_vec('bd_fill_vec', 'D'), expect=('ret', 'exc'))
prop.case('bd_fill_ivec', fill_vec('bd_fill_ivec', 'I'), expect=('ret', 'exc'))
prop.case('bd_fill_coca', fill_vec('bd_fill_coca', 'D', True), expect=('ret', 'exc'))
# vectors
for al, nm in STATES:
    prop.case('v_copy_' + nm, copy('v', 'D', al, vec=True))
    prop.case('v_resize_' + nm, resize('v', 'D', al, vec=True), expect=('ret', 'exc'))
prop.case('v_icopy', lambda c: copy_int(c))
prop.case('v_move', build('v_move', 'D', 'D', lambda x: x[0].n, lambda x, j: raw(x[0], j), lambda x: (x[0].im, x[0].nr, x[0].nc)))
prop.case('v_from_int', build('v_from_int', 'D', 'I', lambda x: x[0].n, lambda x, j: i2f(raw(x[0], j)), lambda x: (x[0].im, x[0].nr, x[0].nc)))
prop.case('v_from_double', build('v_from_double', 'I', 'D', lambda x: x[0].n, lambda x, j: ftrunc_int(raw(x[0], j)), lambda x: (x[0].im, x[0].nr, x[0].nc),
                                 lambda c, x: c.every(x[0], x[0].n, int_range)))
prop.case('v_from_sum', build('v_from_sum', 'D', 'DD', lambda x: mx(x[0].n, x[1].n), lambda x, j: fbin('fadd', at(x[0], j), at(x[1], j))))
prop.case('v_from_coca', build('v_from_coca', 'D', 'DD', lambda x: add(x[0].n, x[1].n), lambda x, j: ite(lt(j, x[0].n), raw(x[0], j), raw(x[1], sub(j, x[0].n))), pre=few))
prop.case("v_from_icoca", build("v_from_icoca", "D", "II", lambda x: add(x[0].n, x[1].n), lambda x, j: i2f(ite(lt(j, x[0].n), raw(x[0], j), raw(x[1], sub(j, x[0].n)))), pre=few))
prop.case('v_scalar', build('v_scalar', 'D', 'd', lambda x: 1, lambda x, j: x[0]))
prop.case('v_int', build('v_int', 'D', 'i', lambda x: 1, lambda x, j: i2f(x[0])))
prop.case('v_bool', build('v_bool', 'D', 'b', lambda x: 1, lambda x, j: i2f(bit(x[0]))))
prop.case('v_ptr', build('v_ptr', 'D', 'pn', lambda x: x[1], lambda x, j: x[0][1](I(j)), pre=lambda c, x: c.assume(B(le(x[1], x[0][2])))))
prop.case('v_ptr_mat', build('v_ptr_mat', 'D', 'pnn', lambda x: mul(x[1], x[2]), lambda x, j: x[0][1](I(j)), lambda x: (1, x[1], x[2]),
                             lambda c, x: c.assume(B(le(mul(x[1], x[2]), x[0][2])))))
prop.case('v_mat', build('v_mat', 'D', 'nn', lambda x: mul(x[0], x[1]), lambda x, j: zero('D'), lambda x: (1, x[0], x[1]), lambda c, x: c.assume(B(le(mul(x[0], x[1]), SZMAX)))))
prop.case('v_mat_value', build('v_mat_value', 'D', 'nnd', lambda x: mul(x[0], x[1]), lambda x, j: x[2], lambda x: (1, x[0], x[1]), lambda c, x: c.assume(B(le(mul(x[0], x[1]), SZMAX)))))
prop.case('v_empty', default('v_empty', 'D', vec=True))
prop.case('v_si', sized('v_si', 'D', vec=True), expect=('ret', 'exc'))
prop.case('v_fill', fill('v_fill', 'D', 'D', vec=True))
prop.case('v_get', access('v', 'D', True, False, vec=True), expect=('ret', 'exc'))
prop.case('v_set', access('v', 'D', True, True, vec=True), expect=('ret', 'exc'))
prop.case('v_back', back('v', 'D', vec=True))


def copy_int(c):
    r, b = c.raw('I', 'r'), c.vec('I', 'b')
    for o in c.run('v_icopy', [r, b]):
        if ret(c, o):
            c.forall_elts(o.st, r, b.n, lambda j: raw(b, j), 'copied')
            same_shape(c, o.st, r, b.im, b.nr, b.nc)
            c.clean(o, [r])

for k in 'DIB':
    prop.case('visit_' + k, iteration('it_' + k, lambda c, k=k: [c.vec(k, 'a', alloc='any', matrix='any')], lambda v: v[0].n, lambda v, j: raw(v[0], j) if v[0].T == 'D' else i2f(raw(v[0], j))))
prop.case('visit_buffer', iteration('it_bD', lambda c: [c.buf('D', 'a')], lambda v: v[0].n, lambda v, j: raw(v[0], j)))
