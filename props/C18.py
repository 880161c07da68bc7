"""C18 interpolation"""
from prop import Prop
from lib import *
import ratio

prop = Prop('C18', ['C18.cpp'], replay='C18.cpp', realmode=True)
prop.assumptions += ['times and values of the knots and the requested time are finite; between knots the value is compared over the reals (rounding is not modelled)',
                     'the position J of the requested time among the knots (knot k is not after it exactly when k <= J) exists: this is what strictly increasing knot times mean',
                     'first knot time + last knot time differs from the last but one knot time (otherwise the slope at the last knot has the divisor zero)']
R0 = z3.RealVal(0)


def finite(x):
    return z3.And(z3.Not(nan(x)), val(x) < INFV, val(x) > -INFV)


def ites(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if isc(x) or x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            return ites(x.arg(0)) if ites(x.arg(0)) is not None else x
        stack.extend(x.children())


def resolve(st, ts, depth=0):
    """the paths merged in the terms ts: [(state, terms without conditions)]"""
    x = next((y for y in map(ites, ts) if y is not None), None)
    if x is None or depth > 14:
        return [(st, ts)]
    cond = x.arg(0)
    d = st.decide(cond)
    out = []
    for v, e, c in ((True, x.arg(1), cond), (False, x.arg(2), bnot(cond))):
        if d is (not v):
            continue
        s = st.copy()
        s.assume(c)
        if d is None and check(list(s.pc)) == z3.unsat:
            continue
        out += resolve(s, [z3.substitute(t, (x, e)) for t in ts], depth + 1)
    return out


def places(st, t, stores):
    """element terms of the stores brought to the given positions: stores = [(store, positions)]"""
    names = {s.u.name(): ps for s, ps in stores}
    seen, stack, sub = set(), [t], []
    while stack:
        x = stack.pop()
        if isc(x) or x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in names and x.num_args() == 1:
            for p in names[x.decl().name()]:
                if x.arg(0).eq(I(p)):
                    break
                if st.decide(eqv(x.arg(0), p)) is True:
                    sub.append((x, x.decl()(I(p))))
                    break
        stack.extend(x.children())
    return z3.substitute(t, *sub) if sub else t


def equal(c, st, res, want, stores, what, subst=(), opaque=()):
    """res equals the real term want: normal form, divisors different from zero"""
    for s, ts in resolve(st, [res, want] + [b for a, b in subst] + list(opaque)):
        t, w, *op = [places(s, x, stores) for x in [ts[0], ts[1]] + ts[2 + len(subst):]]
        for (a, _), b in zip(subst, ts[2:]):
            t, w = z3.substitute(t, (a, b)), z3.substitute(w, (a, b))
        ds = ratio.same(t, w, op)
        if ds is None:
            c.require(s, what, False)
            continue
        for d in ds:
            c.require(s, what + ': divisor', bnot(eqv(val(d), R0)))
        c.require(s, what, True)


class Knots:
    """strictly increasing knot times k, values v, requested time t"""
    def __init__(self, c, k, v, t, vn=None, value=None, least=4):
        self.c, self.k, self.v, self.t, self.n = c, k, v, t, k.n
        n = k.n
        self.value = value or (lambda i: v.u(I(i)))
        self.vn = v.n if vn is None else vn
        J = self.J = fresh('J', Iso)
        c.assume(z3.And(J >= -1, J < I(n)))
        self.T = lambda i: k.u(I(i))
        c.assume(finite(t))
        c.every(k, n, lambda x: z3.And(finite(x), (val(x) <= val(t)) == (x.arg(0) <= J)))
        for x in {s.u.name(): s for s in (v if isinstance(v, list) else [v]) if s is not k}.values():
            c.every(x, x.n, finite)
        r = lambda a, b: z3.Implies(z3.And(I(n) > I(b), I(b) > I(a), I(a) >= 0), val(self.T(a)) < val(self.T(b)))
        for a, b in ((0, 1), (0, sub(n, 1)), (1, sub(n, 1)), (0, sub(n, 2)), (sub(n, 2), sub(n, 1))):
            c.assume(r(a, b))
        self.ok = band(eqv(n, self.vn), le(least, n))
        self.vs = [x for x in (v if isinstance(v, list) else [v]) if x is not k]
        self.extra = []

    def at(self, cands):
        """the knots at these positions, recycled for the operands of an expression"""
        return [(self.k, cands)] + [(x, cands if len(self.vs) == 1 else [emod(p, x.n) for p in cands]) for x in self.vs] + self.extra

    def opaque(self, cands):
        return [self.t] + [self.value(p) for p in cands]

    def hermite(self, j, where):
        """value between knots j and j + 1"""
        n, T, Y = self.n, (lambda i: val(self.T(i))), (lambda i: val(self.value(i)))
        p, q = (sub(n, 1) if where == 'first' else sub(j, 1)), (0 if where == 'last' else add(j, 2))
        t0, t1, t2, t3 = T(p), T(j), T(add(j, 1)), T(q)
        if where == 'last':
            t3 = t3 + T(sub(n, 1))
        y0, y1, y2, y3 = Y(p), Y(j), Y(add(j, 1)), Y(q)
        x = (val(self.t) - t1) / (t2 - t1)
        m1, m2 = (y2 - y0) / (t2 - t0), (y3 - y1) / (t3 - t1)
        h = t2 - t1
        return (2 * x * x * x - 3 * x * x + 1) * y1 + (x * x * x - 2 * x * x + x) * h * m1 + (3 * x * x - 2 * x * x * x) * y2 + (x * x * x - x * x) * h * m2

    def linear(self, j):
        T, Y = (lambda i: val(self.T(i))), (lambda i: val(self.value(i)))
        return Y(j) + (Y(add(j, 1)) - Y(j)) / (T(add(j, 1)) - T(j)) * (val(self.t) - T(j))

    def check(self, o, res, inside):
        c, n, J, t = self.c, self.n, self.J, self.t
        if o.kind != 'ret':
            c.require(o.st, 'throws only for knots of different or too small number', bnot(self.ok))
            return
        c.require(o.st, 'knots of different or too small number throw', self.ok)
        base = o.st.copy()
        base.assume(B(self.ok))
        for i in (0, 1, sub(n, 1), sub(n, 2), J, add(J, 1)):
            base.assume(z3.Or(val(self.T(i)) >= 0, val(self.T(i)) < 0))
        for i in (J, add(J, 1)):
            c.instances(base, I(i))

        def when(*cs):
            s = base.copy()
            for x in cs:
                s.assume(B(x))
            return s
        last = sub(n, 1)
        s = when(val(t) < val(self.T(0)))
        self.exactly(s, res, 0, 'before the first knot: the first value')
        s = when(val(t) > val(self.T(last)))
        self.exactly(s, res, last, 'after the last knot: the last value')
        s = when(val(t) == val(self.T(last)))
        s.assume(B(eqv(J, last)))
        c.require(when(val(t) == val(self.T(last))), 'the last knot is the last one not after it', eqv(J, last))
        ps = [last, 0, 1, sub(n, 2)]
        equal(c, s, res, val(self.value(last)), self.at(ps), 'at the last knot: the last value', [(self.T(last), t)], self.opaque(ps))
        s = when(J >= 0, lt(J, last), val(t) == val(self.T(J)))
        ps = [J, sub(J, 1), add(J, 1), add(J, 2), 0, last]
        equal(c, s, res, val(self.value(J)), self.at(ps), 'at a knot: its value', [(self.T(J), t)], self.opaque(ps))
        inside(when, base)

    def exactly(self, st, res, i, what):
        for s, ts in resolve(st, [res]):
            self.c.require(s, what, eqv(places(s, ts[0], self.at([i])), places(s, self.value(i), self.at([i]))))

    def line(self, res):
        c, n, J = self.c, self.n, self.J

        def go(when, base):
            s = when(le(0, J), lt(J, sub(n, 1)), val(self.t) > val(self.T(0)))
            ps = [J, add(J, 1)]
            equal(c, s, res, self.linear(J), self.at(ps), 'between knots: the linear value', (), self.opaque(ps))
        return go

    def spline(self, res):
        c, n, J = self.c, self.n, self.J
        last = sub(n, 1)

        def go(when, base):
            for where, cond in (('first', eqv(J, 0)), ('last', eqv(J, sub(n, 2))), ('inner', band(lt(0, J), lt(J, sub(n, 2))))):
                j = I(0) if where == 'first' else I(sub(n, 2)) if where == 'last' else J
                s = when(cond)
                cands = [j, add(j, 1)] + {'first': [last, 2], 'last': [sub(j, 1), 0], 'inner': [sub(j, 1), add(j, 2)]}[where]
                equal(c, s, res, self.hermite(j, where), self.at(cands), 'between knots (%s interval)' % where, (), self.opaque(cands))
        return go


def cmr(fname, time='d', kn='VD', vals='v', new=False, linear=False):
    def go(c):
        args, extra = [], []
        if time in 'dib':
            t = c.scalar({'d': 'D', 'i': 'I', 'b': 'B'}[time], 't')
            args.append(t)
            t = t if time == 'd' else i2f(I(bit(t) if time == 'b' else t))
        elif time == 'vec':
            tv = c.vec('D', 't', matrix='any')
            args.append(tv)
            t = raw(tv, 0)
        elif time == 'sum':
            tv, u = c.vec('D', 't', matrix='any'), c.vec('D', 'u', matrix='any')
            args += [tv, u]
            extra = [(tv, [0]), (u, [0])]
            t = fbin('fadd', raw(tv, 0), raw(u, 0))
        elif time == 'elt':
            tv, ix = c.vec('D', 't', matrix='any'), c.vec('I', 'i', matrix='any')
            c.every(ix, ix.n, lambda x: z3.And(x >= 1, x <= I(tv.n)))
            args += [tv, ix]
            t = raw(tv, sub(raw(ix, 0), 1))
            extra = [(ix, [0]), (tv, [sub(raw(ix, 0), 1)])]
        vec = lambda n: c.vec('D', n, matrix='any', layname='WD', owned=None) if kn == 'WD' else c.vec('D', n, matrix='any')
        k = vec('k')
        args.append(k)
        least = 1 if linear else 4
        if vals == 'same':
            K = Knots(c, k, k, t, least=least)
        elif vals == 'product':
            v, w = vec('v'), vec('w')
            args += [v, w]
            K = Knots(c, k, [v, w], t, mx(v.n, w.n), lambda i: fbin('fmul', at(v, i), at(w, i)), least=least)
        else:
            v = vec('v')
            args.append(v)
            K = Knots(c, k, v, t, least=least)
        if linear and time in ('vec', 'sum'):
            K.ok = band(K.ok, eqv(tv.n if time == 'vec' else mx(tv.n, u.n), 1))
        if not linear:
            c.assume(B(implies(le(2, k.n), val(K.T(0)) + val(K.T(sub(k.n, 1))) != val(K.T(sub(k.n, 2))))))
        K.extra = extra
        out = target(c, 'D', True) if new else c.ref('D', c.scalar('D', 'x'))
        for o in c.run('drv_' + fname, [out] + args):
            if o.kind != 'ret':
                K.check(o, None, None)
                c.thrown(o, out) if new else c.clean(o, [], also=[out.reg])
                continue
            if new:
                c.require(o.st, 'one element', eqv(out.f(o.st, 'sz'), 1))
                res = out.elt(o.st, I(0))
                K.check(o, res, (K.line if linear else K.spline)(res))
                c.clean(o, [out])
            else:
                res = o.st.mem[out.reg].cells[0][1]
                K.check(o, res, (K.line if linear else K.spline)(res))
                c.clean(o, [], also=[out.reg])
    return go


E = ('ret', 'exc')
prop.case('double', cmr('d'), expect=E)
prop.case('int', cmr('i', 'i'), expect=E)
prop.case('logical', cmr('b', 'b'), expect=E)
prop.case('vector', cmr('vec', 'vec'), expect=E)
prop.case('sum', cmr('sum', 'sum'), expect=E)
prop.case('subset', cmr('elt', 'elt'), expect=E)
prop.case('borrowed', cmr('borrow', kn='WD'), expect=E)
prop.case('product', cmr('values', vals='product'), expect=E)
prop.case('same', cmr('same', vals='same'), expect=E)
prop.case('assigned', cmr('set', new=True), expect=E)
for n, k in (('d', {}), ('i', dict(time='i')), ('b', dict(time='b')), ('vec', dict(time='vec')), ('sum', dict(time='sum')), ('borrow', dict(kn='WD')), ('values', dict(vals='product')), ('set', dict(new=True))):
    prop.case('li_' + n, cmr('li_' + n, linear=True, **k), expect=E)
