"""shared vocabulary of the property files"""
from spec import *


def mx(a, b):
    return ite(lt(a, b), b, a)


def at(v, j):
    """element j of v, recycled, as v had it before the call"""
    return v.u(I(emod(j, v.n)))


def raw(v, j):
    if v.u is None:
        return fresh('none', F if v.T == 'D' else Iso)
    return v.u(I(j))


def num(v, j):
    e = at(v, j)
    return e if v.T == 'D' else i2f(e)


def opnd(x, j):
    return num(x, j) if isinstance(x, Store) else x


def longest(vs):
    n = vs[0].n
    for v in vs[1:]:
        n = mx(n, v.n)
    return n


def bit(c):
    """a truth value as the 0/1 content of a logical element"""
    return ite(c, 1, 0) if not isinstance(c, bool) else int(c)


def target(c, T, alloc):
    return c.vec(T, 'r', alloc='any' if alloc else False, matrix='any' if alloc else False, temp='alloc' if alloc else None)


def elementwise(fname, rT, kinds, fn, alloc=True, what='an element-wise operation on non-empty operands does not throw', shape=False):
    """r = op(operands); kinds: D I B vectors, s double scalar, i int scalar"""
    def go(c):
        r = target(c, rT, alloc)
        ops = []
        for i, T in enumerate(kinds):
            ops.append(c.scalar('D', 's') if T == 's' else c.scalar('I', 's') if T == 'i' else c.vec(T, 'abcd'[i], matrix='any'))
        vs = [x for x in ops if isinstance(x, Store)]
        args = [r] + vs + [x for x in ops if not isinstance(x, Store)]
        n = longest(vs)
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, what, False)
                continue
            c.forall_elts(o.st, r, n, lambda j: fn(c, o.st, ops, j), 'result')
            if shape:
                shape_of(c, o.st, r, vs)
            c.clean(o, [r])
    return go


def shape_of(c, st, r, vs):
    """dimensions of an element-wise result over conformable operands"""
    ims = [eqv(v.im, 1) for v in vs]
    im = bor(*ims)
    c.require(st, 'shape: a matrix exactly when an operand is one', eqv(r.f(st, 'ismatrix'), bit(im)))
    for v, m in zip(vs, ims):
        c.require(st, 'shape: rows of ' + v.name, implies(m, eqv(r.f(st, 'rows'), v.nr)))
        c.require(st, 'shape: columns of ' + v.name, implies(m, eqv(r.f(st, 'cols'), v.nc)))


def iteration(fname, mk, n, fn, inrange=None, none=False):
    """for (T x : v) *out++ = x; visits every element once, in order; inrange(vs, j): element j exists; none: an empty selection is refused"""
    def go(c):
        vs = mk(c)
        N = n(vs)
        cap = bounded('out.n', 1, 2 ** 33)
        c.assume(B(le(N, cap)))
        rid, u = c.array('D', cap, 'out', status='ext')
        for o in c.run(fname, [Ptr(rid, 0)] + vs):
            if o.kind != 'ret':
                c.require(o.st, 'visiting existing elements does not throw', eqv(N, 0) if none else inrange is not None)
            else:
                s = o.st.copy()
                j = c.index(s, cap, 'm')
                c.instances(s, j)
                v = aselect(o.st.mem[rid].content, j, s)
                c.require(s, 'every element is visited once, in order', eqv(v, ite(lt(j, N), fn(vs, j), u(j))))
                if inrange:
                    s = o.st.copy()
                    j = c.index(s, N)
                    c.instances(s, j)
                    c.require(s, 'only existing elements are visited', inrange(vs, j))
            c.clean(o, [], also=[rid])
    return go
