"""C17 forward-mode derivatives"""
from prop import Prop
from lib import *
import ratio

prop = Prop('C17', ['C17.cpp'], replay='C17.cpp', realmode=True)
prop.assumptions += ['derivatives are compared in real arithmetic (rounding of + - * / and the square is not modelled); divisors are not zero; pow(x, 2) is the square',
                     'before the statement every variable has as many derivatives as values, or none yet (then one for the independent variable and zero for others), and only the independent variable can have taken the initial derivative']
NB, NW, NK = 3, 1, 2


class Var:
    """an active variable (or constant): values d with temp, derivatives g"""


class Active:
    def __init__(self, c, kinds, matrix=(), lazy=(), empty=(), indep=None):
        """kinds: names of the variables the statement reads (a b w k l); all others may be empty"""
        L = self.L = c.lay.get('AV')
        self.c = c
        rid = self.rid = c.ex.new_region(c.st, 'cells', 'ext', L[0], 'av')
        self.ptr = Ptr(rid, 0)
        self.mem = None
        cells = c.st.w(rid).cells
        self.idx = bounded('IndepVarIdx', 0, 2) if indep is None else indep[0]
        self.tidx = bounded('IndepVarTypeIdx', 0, 1) if indep is None else indep[1]
        cells[L[6]] = (4, self.idx)
        cells[L[7]] = (4, self.tidx)
        self.init = bounded('DerivInit', 0, 1)
        cells[L[8]] = (1, self.init)
        self.vars = {}
        VDl, WDl, BDl = c.lay.get('VD'), c.lay.get('WD'), c.lay.get('BD')
        for name, base, k, vl, gbase, t in [('abc'[k], L[1], k, VDl, L[4], 0) for k in range(NB)] + [('w', L[2], 0, WDl, L[5], 1)] + [('kl'[k], L[3], k, VDl, None, -1) for k in range(NK)]:
            v = Var()
            v.name, v.k, v.t = name, k, t
            b0 = base + k * vl[0]
            v.d = Store(rid, b0, vl[2:9], 'D')
            v.d.name = name
            read = name in kinds
            if t == 1:
                self.borrow(v, read)
            else:
                c.fill_store(v.d, 'D', name, True if read else 'any', 'any' if name in matrix else False)
            v.tmp = Store(rid, b0, vl[10:17], 'D')
            c.fill_store(v.tmp, 'D', name + '.temp', False, False)
            v.d.owned, v.tmp.owned = t != 1, True
            v.g = None
            v.lazy = name in lazy
            if gbase is not None:
                v.g = Store(rid, gbase + k * BDl[0], BDl[2:9], 'D')
                if v.lazy:
                    c.fill_store(v.g, 'D', name + '.deriv', False, False)
                else:
                    c.fill_store(v.g, 'D', name + '.deriv', True if read else 'any', False, sz=v.d.n if read else None)
                v.g.owned = True
            self.vars[name] = v
            if t >= 0:
                v.indep = band(eqv(self.idx, k), eqv(self.tidx, t))
                if v.lazy:
                    c.assume(B(implies(v.indep, eqv(self.init, 0))))
        self.stores = [s for v in self.vars.values() for s in (v.d, v.tmp, v.g) if s is not None]

    def borrow(self, v, read):
        c, d = self.c, v.d
        n = bounded('w.sz', 1 if read else 0, SZMAX)
        cap = bounded('w.cap', 1 if read else 0, SZMAX)
        c.assume(n <= cap)
        c.hints.append(('w.sz', n))
        arr, u = c.array('D', cap, 'w.mem', status='ext')
        for f, x in (('p', Ptr(arr, 0)), ('sz', n), ('capacity', cap), ('allocated', 1), ('ismatrix', 0), ('rows', 0), ('cols', 0)):
            d.set(c.st, f, x)
        d.n, d.cap, d.im, d.nr, d.nc, d.u, d.T, d.arr = n, cap, 0, 0, 0, u, 'D', arr

    def keep(self, st, s, what):
        """a store of the set is as it was"""
        c = self.c
        for f in ('p', 'sz', 'capacity', 'allocated', 'ismatrix', 'rows', 'cols'):
            a, b = s.f(st, f), s.f(c.pre, f)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and (a.reg is None or eqv(a.off, b.off))
            else:
                ok = eqv(a, b)
            c.require(st, '%s: %s of %s unchanged' % (what, f, s.name), ok)
        if s.arr is not None:
            r, q = c.pre.mem[s.arr], st.mem[s.arr]
            if q.content is not r.content:
                t = st.copy()
                j = c.index(t, s.n, 'fr')
                c.instances(t, j)
                c.require(t, '%s: elements of %s unchanged' % (what, s.name), q.content is not None and eqv(aselect(q.content, j, None), aselect(r.content, j, None)))

    def done(self, o, changed, new=(), what='frame', started=()):
        """only the listed variables changed; every block has one owner; invariants"""
        c, st = self.c, o.st
        ok = [self.rid] + [x.vrid for x in new]
        for n in changed:
            v = self.vars[n]
            ok += [s.arr for s in (v.d, v.tmp, v.g) if s is not None and s.arr is not None]
        for v in self.vars.values():
            if v.name in changed:
                continue
            self.keep(st, v.d, what)
            if v.g is not None and v.name not in started:
                if v.lazy:
                    # reading may have started the derivative: same derivative as before
                    z = s = v.g.f(st, 'sz')
                    if not (isc(z) and z == 0):
                        c.require(st, '%s: %s has as many derivatives as values' % (what, v.name), bor(eqv(s, 0), eqv(s, v.d.n)))
                        self.derivs(st, v, lambda i: z3.If(B(v.indep), z3.RealVal(1), z3.RealVal(0)), v.d.n, what)
                else:
                    self.keep(st, v.g, what)
        for f, k, x in (('IndepVarIdx', 6, self.idx), ('IndepVarTypeIdx', 7, self.tidx)):
            c.require(st, '%s: %s unchanged' % (what, f), eqv(st.mem[self.rid].cells[self.L[k]][1], x))
        self.flag(st)
        roots = [s for s in self.stores if s.owned] + [s for x in new for s in (x, x.temp)]
        c.frame(st, ok)
        live = [s.arr for s in self.stores if s.owned and s.arr is not None]
        own = {}
        for s in roots:
            p = s.f(st, 'p')
            if isinstance(p, Ptr) and p.reg is not None:
                own.setdefault(p.reg, []).append(s)
        for r in set(live) | set(st.newheap):
            if st.mem[r].status == 'freed':
                c.require(st, 'a released block has no owner', r not in own)
            else:
                c.require(st, 'every live block has exactly one owner (block %s: %d)' % (st.mem[r].name, len(own.get(r, []))), len(own.get(r, [])) == 1)
        for s in roots:
            c.wf(st, s)

    def flag(self, st):
        """the initial derivative is given to the independent variable alone, at most once"""
        c = self.c
        v = st.mem[self.rid].cells[self.L[8]][1]
        v = ite(v, 1, 0) if isinstance(v, (bool, z3.BoolRef)) else v
        lazy = [x for x in self.vars.values() if x.lazy]
        c.require(st, 'the initial derivative goes to the independent variable', bor(eqv(v, self.init), *[band(eqv(v, 1), x.indep) for x in lazy]))

    def derivs(self, st, v, fn, n, what, given=None):
        c = self.c
        t = st.copy()
        j = c.index(t, n)
        c.instances(t, j)
        e = fn(j)
        if given is not None:
            t.assume(given(j))
        x = v.g.elt(t, j)
        what = '%s: derivative j of %s' % (what, v.name)
        ds = None if x is None else ratio.same(x, e)
        if ds is None:
            c.require(t, what, x is not None and eqv(val(x), e))
            return
        for d in ds:
            c.require(t, what + ': divisor', bnot(eqv(val(d), z3.RealVal(0))))
        c.require(t, what, True)

    def becomes(self, o, name, e, what='assigned'):
        """variable name has the values and derivatives of the expression e"""
        c, st, v = self.c, o.st, self.vars[name]
        c.forall_elts(st, v.d, e.n, e.val, what + ': values of ' + name)
        c.require(st, '%s: %s has as many derivatives as values' % (what, name), eqv(v.g.f(st, 'sz'), e.n))
        self.derivs(st, v, e.der, e.n, what, e.ok)
        im = e.im
        if im is not None:
            c.shape(st, v.d, *im)


# ------------------------------------------------------------------ right sides: value, derivative, validity
class E:
    def ok(self, j):
        return z3.BoolVal(True)
    im = (0, 0, 0)


class Leaf(E):
    def __init__(self, v):
        self.v, self.n = v, v.d.n
        self.im = (v.d.im, v.d.nr, v.d.nc)

    def val(self, i):
        return self.v.d.u(I(i))

    def der(self, i):
        v = self.v
        if v.t == -1:
            return z3.RealVal(0)
        if v.lazy:
            return z3.If(B(v.indep), z3.RealVal(1), z3.RealVal(0))
        return val(v.g.u(I(i)))


class Bin(E):
    def __init__(self, l, r):
        self.l, self.r, self.n = l, r, mx(l.n, r.n)
        a, b = l.im[0], r.im[0]
        self.im = (bit(bor(eqv(a, 1), eqv(b, 1))), ite(eqv(a, 1), l.im[1], r.im[1]), ite(eqv(a, 1), l.im[2], r.im[2]))

    def p(self, j):
        return emod(j, self.l.n), emod(j, self.r.n)

    def val(self, j):
        a, b = self.p(j)
        return fbin(self.op, self.l.val(a), self.r.val(b))

    def der(self, j):
        a, b = self.p(j)
        return self.rule(val(self.l.val(a)), val(self.r.val(b)), self.l.der(a), self.r.der(b))

    def ok(self, j):
        a, b = self.p(j)
        return z3.And(self.l.ok(a), self.r.ok(b), self.fits(val(self.r.val(b))))

    def fits(self, r):
        return z3.BoolVal(True)


class Add(Bin):
    op, rule = 'fadd', staticmethod(lambda l, r, x, y: x + y)


class Sub(Bin):
    op, rule = 'fsub', staticmethod(lambda l, r, x, y: x - y)


class Mul(Bin):
    op, rule = 'fmul', staticmethod(lambda l, r, x, y: x * r + l * y)


class Div(Bin):
    op = 'fdiv'

    def rule(self, l, r, x, y):
        return x / r if y.eq(z3.RealVal(0)) else (x * r - l * y) / (r * r)

    def fits(self, r):
        return r != 0


class Sin(E):
    def __init__(self, x):
        self.x, self.n, self.im = x, x.n, x.im

    def val(self, j):
        return ufun('sin')(self.x.val(j))

    def der(self, j):
        return val(ufun('cos')(self.x.val(j))) * self.x.der(j)

    def ok(self, j):
        return self.x.ok(j)


class Cmp(Bin):
    def __init__(self, f, l, r):
        self.f = f
        Bin.__init__(self, l, r)

    def val(self, j):
        a, b = self.p(j)
        return i2f(bit(self.f(self.l.val(a), self.r.val(b))))

    def der(self, j):
        return z3.RealVal(0)


class Fixed(E):
    """a list of scalars"""
    def __init__(self, xs):
        self.xs, self.n = xs, len(xs)

    def val(self, j):
        r = self.xs[-1]
        for k in range(len(self.xs) - 2, -1, -1):
            r = ite(eqv(j, k), self.xs[k], r)
        return r

    def der(self, j):
        return z3.RealVal(0)


class As(E):
    """an expression with another derivative"""
    def __init__(self, e, der):
        self.e, self.n, self.der, self.im = e, e.n, der, e.im
        self.val, self.ok = e.val, e.ok


def stmt(fname, reads, expr, to='c', matrix=(), lazy=(), made=None):
    def go(c):
        A = Active(c, reads, matrix=matrix, lazy=lazy)
        if matrix:
            vs = [A.vars[x] for x in reads]
            n = longest([x.d for x in vs])
            for i, x in enumerate(vs):
                c.assume(B(implies(eqv(x.d.im, 1), eqv(x.d.n, n))))
                for y in vs[:i]:
                    c.assume(B(implies(band(eqv(x.d.im, 1), eqv(y.d.im, 1)), band(eqv(x.d.nr, y.d.nr), eqv(x.d.nc, y.d.nc)))))
        e = expr(*[Leaf(A.vars[x]) for x in reads])
        t = A.vars[to]
        fits = le(e.n, t.d.cap) if to == 'w' else True
        for o in c.run('drv_' + fname, [A.ptr]):
            if o.kind != 'ret':
                c.require(o.st, 'throws only when a borrowed variable is too short', bnot(fits))
                A.done(o, [], what='after an exception')
                continue
            c.require(o.st, 'nothing longer than a borrowed variable is stored', fits)
            A.becomes(o, to, e)
            A.done(o, [to])
    return go


def S(name, reads, expr, to='c', case=None, **k):
    exp = ('ret', 'exc') if to == 'w' else ('ret',)
    prop.case(case or name, stmt(name, reads, expr, to, **k), expect=exp, weight=3)


neg = lambda p: lambda x, y: bnot(p(x, y))
S('add', 'ab', Add)
S('sub', 'ab', Sub)
S('mul', 'ab', Mul)
S('div', 'ab', Div)
S('sin', 'a', Sin)
S('mul_const', 'ak', Mul)
S('const_mul', 'ka', Mul)
S('add_const', 'ak', Add)
S('const_sub', 'ka', Sub)
S('div_const', 'ak', Div)
S('const_div', 'ka', Div)
S('const_const', 'kl', Mul)
TOL = fconst(Fraction(1e-3))
dist = lambda x, y: ufun('fabs')(fbin('fsub', x, y))
for n, f in (('lt', flt), ('le', fle), ('gt', lambda x, y: flt(y, x)), ('ge', lambda x, y: fle(y, x)), ('eq', lambda x, y: flt(dist(x, y), TOL)), ('ne', lambda x, y: flt(TOL, dist(x, y)))):
    S(n, 'ab', lambda l, r, f=f: Cmp(f, l, r))
S('sum3', 'abk', lambda a, b, k: Add(Add(a, b), k))
S('poly', 'ab', lambda a, b: Add(Mul(a, b), a))
S('prod3', 'abk', lambda a, b, k: Mul(a, Mul(b, k)))
S('sin_mul', 'ab', lambda a, b: Sin(Mul(a, b)))
S('sin_sin', 'a', lambda a: Sin(Sin(a)))
S('mul_sin', 'ab', lambda a, b: Mul(a, Sin(b)))
S('div_sum', 'abk', lambda a, b, k: Div(a, Add(b, k)))
S('sum_div', 'ab', lambda a, b: Div(Sub(a, b), b))
S('div_mul', 'ab', lambda a, b: Mul(Div(a, b), a))
S('sin_div', 'ak', lambda a, k: Sin(Div(a, k)))
S('mask', 'ab', lambda a, b: Mul(a, Cmp(flt, a, b)))
S('self_mul', 'ab', Mul, 'a')
S('self_sq', 'a', lambda a: Mul(a, a), 'a')
S('self_sin', 'a', Sin, 'a')
S('self_div', 'ab', lambda a, b: Div(b, a), 'a')
S('self_nest', 'ab', lambda a, b: Add(a, Mul(a, b)), 'a')
S('copy', 'a', lambda a: a)
S('w_mul', 'aw', Mul)
S('to_w', 'ab', Mul, 'w')
S('w_self', 'wa', Mul, 'w')
S('w_copy', 'a', lambda a: a, 'w')
S('from_w', 'w', lambda w: w)

# matrices: dimensions follow the right side, old ones disappear
for n, r, e in (('add', 'ab', Add), ('mul_const', 'ak', Mul), ('sin', 'a', Sin), ('copy', 'a', lambda a: a), ('poly', 'ab', lambda a, b: Add(Mul(a, b), a))):
    S(n, r, e, case=n + '_shape', matrix='abc')
# derivatives that have not been started
for n, r, e, z in (('add', 'ab', Add, 'a'), ('mul', 'ab', Mul, 'ab'), ('sin', 'a', Sin, 'a'), ('copy', 'a', lambda a: a, 'a'), ('poly', 'ab', lambda a, b: Add(Mul(a, b), a), 'ab'), ('w_mul', 'aw', Mul, 'aw'), ('from_w', 'w', lambda w: w, 'w')):
    S(n, r, e, case=n + '_start', lazy=z)
S('mul', 'ab', Mul, case='mul_fresh', lazy='abcw')
S('self_mul', 'ab', Mul, 'a', case='self_mul_start', lazy='ab')


def seed(A, to):
    """derivative after a constant was assigned: one for the independent variable"""
    return lambda j: z3.If(B(A.vars[to].indep), z3.RealVal(1), z3.RealVal(0))


def constant(fname, to, reads='k', made=None, kinds='', pre=None, const=None, matrix=''):
    """to = constant; made(args): the constant the statement makes, stored as variable `const`"""
    def go(c):
        A = Active(c, reads, matrix=matrix)
        xs = [c.vec(k, 'xyz'[i], matrix='any') if k in 'DI' else c.scalar({'d': 'D', 'i': 'I'}[k], 'xyz'[i]) for i, k in enumerate(kinds)]
        if pre:
            pre(c, *xs)
        k = made(*xs) if made else Leaf(A.vars['k'])
        t = A.vars[to]
        fits = le(k.n, t.d.cap) if to == 'w' else True
        for o in c.run('drv_' + fname, [A.ptr] + xs):
            if o.kind != 'ret':
                c.require(o.st, 'throws only when a borrowed variable is too short', bnot(fits))
                A.done(o, [const] if const else [], what='after an exception')
                continue
            c.require(o.st, 'nothing longer than a borrowed variable is stored', fits)
            A.becomes(o, to, As(k, seed(A, to)))
            if const:
                c.forall_elts(o.st, A.vars[const].d, k.n, k.val, 'constant')
            A.done(o, [to] + ([const] if const else []))
    return go


K = lambda n, to, exc=False, **k: prop.case(n, constant(n, to, **k), expect=('ret', 'exc') if exc else ('ret',), weight=2)
K('const', 'c', matrix='c')
K('const_a', 'a')
K('w_const', 'w', True)


class Elems(E):
    def __init__(self, x):
        self.n, self.val = x.n, lambda j: raw(x, j)


K('coca_vec', 'c', reads='', kinds='D', made=Elems, const='k')
K('coca_int', 'a', reads='', kinds='iii', made=lambda *x: Fixed([i2f(v) for v in x]), const='k')


class Joined(E):
    """parts one after another: numbers and vectors, converted to double"""

    def __init__(self, *ps):
        self.n, self.ps = 0, []
        for p in ps:
            n, v = (p.n, lambda j, p=p: raw(p, j)) if isinstance(p, Store) else (1, lambda j, p=p: p)
            self.ps.append((self.n, n, v))
            self.n = add(self.n, n)

    def val(self, j):
        e = None
        for at_, n, v in reversed(self.ps):
            x = v(sub(j, at_))
            x = x if I(x).sort().eq(F) else i2f(x)
            e = x if e is None else ite(lt(j, add(at_, n)), x, e)
        return e


fits = lambda c, *x: c.assume(B(le(Joined(*x).n, SZMAX)))
K('coca_mixed', 'c', reads='', kinds='diI', made=Joined, const='k', pre=fits)
K('coca_ints', 'c', reads='', kinds='Ii', made=Joined, const='k', pre=fits)
K('scalar_set', 'c', reads='', kinds='d', made=lambda x: Fixed([x]), const='l')


class Made(E):
    def __init__(self, n, val):
        self.n, self.val = n, val


def colon(a, b):
    if I(a).sort().eq(F):
        up, one = flt(a, b), fconst(1)
        ln = lambda lo, hi: ftrunc_int(fbin('fadd', fbin('fsub', hi, lo), one))
        n = ite(up, ln(a, b), ln(b, a))
        return Made(n, lambda j: ite(up, fbin('fadd', a, i2f(I(j))), fbin('fsub', a, i2f(I(j)))))
    up = lt(a, b)
    return Made(ite(up, add(sub(b, a), 1), add(sub(a, b), 1)), lambda j: i2f(ite(up, add(a, j), sub(a, j))))


def bound(x, T):
    """the value of an argument: the first element of a vector (D, I), or of its sum with itself (E, J)"""
    v = raw(x, 0) if isinstance(x, Store) else x
    return fbin('fadd', v, v) if T == 'E' else sub(emod(add(add(v, v), 2 ** 31), 2 ** 32), 2 ** 31) if T == 'J' else v


def sized(fname, to, kinds, make, valid=None):
    """a statement which makes a constant whose length is an argument"""
    def go(c):
        A = Active(c, '', matrix=to)
        xs = [c.vec({'E': 'D', 'J': 'I'}.get(T, T), 'xyz'[i], matrix='any') if T in 'DEIJ' else c.scalar({'d': 'D', 'i': 'I', 'S': 'S'}[T], 'xyz'[i]) for i, T in enumerate(kinds)]
        bs = [bound(x, T) for x, T in zip(xs, kinds)]
        if len(bs) > 1 and any(I(x).sort().eq(F) for x in bs):
            bs = [x if I(x).sort().eq(F) else i2f(x) for x in bs]
        for x in bs:
            if I(x).sort().eq(F):
                c.assume(z3.And(z3.Not(nan(x)), val(x) < 2 ** 31, val(x) > -2 ** 31))
        k = make(*bs)
        c.assume(B(le(k.n, SZMAX)))
        ok = valid(*bs) if valid else True
        if valid:
            for x in xs:
                if isinstance(x, Store):
                    ok = band(ok, eqv(x.n, 1))
        for o in c.run('drv_' + fname, [A.ptr] + xs):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for an invalid length', bnot(ok))
                A.done(o, [], what='after an exception')
                continue
            c.require(o.st, 'an invalid length throws', ok)
            c.forall_elts(o.st, A.vars['k'].d, k.n, k.val, 'constant')
            k.im = None
            A.becomes(o, to, As(k, seed(A, to)))
            A.done(o, [to, 'k'])
    return go


for n, T in (('colon', 'ii'), ('colon_d', 'dd')):
    prop.case(n, sized(n, 'c', T, colon), weight=2)
prop.case('vector', sized('vector', 'a', 'i', lambda n: Made(n, lambda j: fconst(0)), lambda n: le(1, n)), expect=('ret', 'exc'), weight=2)
prop.case('vector_i', sized('vector_i', 'a', 'i', lambda n: Made(n, lambda j: fconst(0)), lambda n: le(1, n)), expect=('ret', 'exc'), weight=2)
prop.case('vector_l', sized('vector_l', 'a', 'S', lambda n: Made(n, lambda j: fconst(0)), lambda n: le(1, n)), expect=('ret', 'exc'), weight=2)
prop.case('vector_d', sized('vector_d', 'a', 'd', lambda x: Made(ftrunc_int(x), lambda j: fconst(0)), lambda x: B(fle(fconst(1), x))), expect=('ret', 'exc'), weight=2)
for k in (a + b for a in 'idIDJE' for b in 'idIDJE'):
    if k not in ('ii', 'dd'):
        prop.case('colon_' + k, sized('colon_' + k, 'c', k, colon), weight=2, deep=k not in 'id Id Dd Jd Ed dI iD dJ iE II DI ID EI JI DD IJ DE EE JJ ED'.split())
for n, T in (('D', 'D'), ('E', 'E'), ('s', 'S'), ('iI', 'I'), ('iJ', 'J'), ('id', 'd'), ('is', 'S'), ('lD', 'D'), ('lE', 'E'), ('li', 'i'), ('ld', 'd')):
    prop.case('vector_' + n, sized('vector_' + n, 'a', T, (lambda x: Made(ftrunc_int(x), lambda j: fconst(0))) if T in 'DEd' else (lambda n: Made(n, lambda j: fconst(0))),
                                   (lambda x: B(fle(fconst(1), x))) if T in 'DEd' else (lambda n: le(1, n))), expect=('ret', 'exc'), weight=2)

K('num', 'c', reads='', kinds='d', made=lambda x: Fixed([x]), matrix='c')
K('num_int', 'a', reads='', kinds='i', made=lambda x: Fixed([i2f(x)]), matrix='a')
K('num_w', 'w', True, reads='', kinds='d', made=lambda x: Fixed([x]))


def with_const(fname, kinds, const, expr):
    def go(c):
        A = Active(c, 'a')
        xs = [c.scalar('D', 'xy'[i]) for i in range(kinds)]
        k = Fixed(xs)
        e = expr(Leaf(A.vars['a']), k)
        for o in c.run('drv_' + fname, [A.ptr] + xs):
            if o.kind != 'ret':
                c.require(o.st, 'does not throw', False)
                continue
            A.becomes(o, 'c', e)
            c.forall_elts(o.st, A.vars[const].d, k.n, k.val, 'constant')
            A.done(o, ['c', const])
    return go


prop.case('coca', with_const('coca', 2, 'k', lambda a, k: Mul(k, a)), weight=3)
prop.case('scalar', with_const('scalar', 1, 'l', lambda a, k: Div(a, k)), weight=3)


def sequence(fname, reads, **out):
    def go(c):
        A = Active(c, reads)
        vs = {x: Leaf(A.vars[x]) for x in reads}
        for o in c.run('drv_' + fname, [A.ptr]):
            if o.kind != 'ret':
                c.require(o.st, 'does not throw', False)
                continue
            for n, e in out.items():
                A.becomes(o, n, e(**vs), 'after the sequence')
            A.done(o, list(out))
    return go


prop.case('twice', sequence('twice', 'ab', c=lambda a, b: Mul(Mul(a, b), a)), weight=4)
prop.case('chain', sequence('chain', 'a', c=lambda a: Mul(a, a), b=lambda a: Sin(Mul(a, a))), weight=4)
prop.case('swap', sequence('swap', 'ab', a=lambda a, b: b, b=lambda a, b: a, c=lambda a, b: a), weight=3)


def read_derivs(fname, name, lazy):
    def go(c):
        A = Active(c, name, lazy=name if lazy else ())
        r = c.raw('D', 'r')
        e = Leaf(A.vars[name])
        for o in c.run('drv_' + fname, [r, A.ptr]):
            if o.kind != 'ret':
                c.require(o.st, 'reading a derivative does not throw', False)
                continue
            c.require(o.st, 'as many derivatives as values', eqv(r.f(o.st, 'sz'), e.n))
            t = o.st.copy()
            j = c.index(t, e.n)
            c.instances(t, j)
            x = r.elt(t, j)
            c.require(t, 'derivative j', x is not None and (eqv(x, A.vars[name].g.u(j)) if not lazy else eqv(val(x), e.der(j))))
            A.done(o, [], [r])
    return go


for n, v in (('derivs', 'a'), ('derivs_w', 'w')):
    prop.case(n, read_derivs(n, v, False))
    prop.case(n + '_start', read_derivs(n, v, True))


def get(c):
    A = Active(c, 'a', matrix='a')
    r = c.raw('D', 'r')
    for o in c.run('drv_get', [r, A.ptr]):
        if o.kind != 'ret':
            c.require(o.st, 'reading does not throw', False)
            continue
        d = A.vars['a'].d
        c.forall_elts(o.st, r, d.n, lambda j: raw(d, j), 'values read')
        c.shape(o.st, r, d.im, d.nr, d.nc)
        A.done(o, [], [r])


prop.case('get', get)


def size(c):
    A = Active(c, '')
    out = c.ref('S', c.scalar('S', 'z'))
    for o in c.run('drv_size', [A.ptr, out]):
        c.require(o.st, 'length', o.kind == 'ret' and eqv(o.st.mem[out.reg].cells[0][1], A.vars['a'].d.f(c.pre, 'sz')))
        c.frame(o.st, [out.reg])


prop.case('size', size)


def elem(c):
    A = Active(c, '')
    i = c.scalar('S', 'i')
    out = c.ref('D', c.scalar('D', 'z'))
    d = A.vars['a'].d
    for o in c.run('drv_elem', [A.ptr, i, out]):
        ok = lt(i, d.f(c.pre, 'sz'))
        if o.kind != 'ret':
            c.require(o.st, 'throws only outside the variable', bnot(ok))
        else:
            c.require(o.st, 'outside the variable throws', ok)
            c.require(o.st, 'value read', eqv(o.st.mem[out.reg].cells[0][1], d.u(I(i))))
        c.frame(o.st, [out.reg])


prop.case('elem', elem, expect=('ret', 'exc'))


def init(c):
    A = Active(c, '', lazy='ab', matrix='ab')
    x, y = c.vec('D', 'x', matrix='any'), c.vec('D', 'y', matrix='any')
    for o in c.run('drv_init', [A.ptr, x, y]):
        if o.kind != 'ret':
            c.require(o.st, 'does not throw', False)
            continue
        for n, v in (('a', x), ('b', y)):
            c.forall_elts(o.st, A.vars[n].d, v.n, lambda j: raw(v, j), 'values of ' + n)
            c.shape(o.st, A.vars[n].d, v.im, v.nr, v.nc)
            c.require(o.st, 'derivatives not started', eqv(A.vars[n].g.f(o.st, 'sz'), 0))
        A.done(o, 'ab')


prop.case('init', init)


def new(c):
    L = c.lay.get('AV')
    rid = c.ex.new_region(c.st, 'cells', 'ext', L[0], 'av')
    i, t = c.scalar('I', 'i'), c.scalar('I', 't')
    VDl, WDl, BDl = c.lay.get('VD'), c.lay.get('WD'), c.lay.get('BD')
    ss = []
    for base, n, l, v in ((L[1], NB, VDl, 1), (L[2], NW, WDl, 1), (L[3], NK, VDl, 1), (L[4], NB, BDl, 0), (L[5], NW, BDl, 0)):
        for k in range(n):
            ss.append(Store(rid, base + k * l[0], l[2:9], 'D'))
            if v:
                ss.append(Store(rid, base + k * l[0], l[10:17], 'D'))
    for o in c.run('drv_new', [Ptr(rid, 0), i, t]):
        if o.kind != 'ret':
            c.require(o.st, 'does not throw', False)
            continue
        for k, s in enumerate(ss):
            p = s.f(o.st, 'p')
            c.require(o.st, 'store %d is empty' % k, band(isinstance(p, Ptr) and p.reg is None, eqv(s.f(o.st, 'sz'), 0), eqv(s.f(o.st, 'capacity'), 0), eqv(s.f(o.st, 'allocated'), 0), eqv(s.f(o.st, 'ismatrix'), 0)))
        cells = o.st.mem[rid].cells
        c.require(o.st, 'independent variable', band(eqv(cells[L[6]][1], i), eqv(cells[L[7]][1], t)))
        c.require(o.st, 'derivative not started', eqv(cells[L[8]][1], 0))
        c.frame(o.st, [rid])
        c.noleak(o.st, [])


prop.case('new', new)


def delete(c):
    A = Active(c, '')
    for o in c.run('drv_del', [A.ptr]):
        if o.kind != 'ret':
            c.require(o.st, 'does not throw', False)
            continue
        for s in A.stores:
            if s.arr is not None and s.owned:
                c.require(o.st, 'block of %s is released' % s.name, o.st.mem[s.arr].status == 'freed')
        c.frame(o.st, [A.rid] + [s.arr for s in A.stores if s.arr is not None and s.owned])


prop.case('del', delete)
