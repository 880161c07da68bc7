"""Normal form of real expressions over + - * / and the square: a quotient of two polynomials over atoms."""
import z3
from fractions import Fraction
from terms import val, fval_const, F
CAP = 20000
POWERS = (2, 3, 4)  # modelled exactly over the reals by the prover


class TooBig(Exception):
    pass


def pmul(a, b):
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + x * y
    if len(r) > CAP:
        raise TooBig
    return {k: v for k, v in r.items() if v}


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def lead(p):
    return p[max(p)]


class Ratio:
    """values are (numerator polynomial, {factor: exponent} of the denominator)
    atoms: terms kept opaque; divs: the divisors that occurred; facs: the polynomials used as denominators"""
    def __init__(self, opaque=()):
        self.opaque = {t.get_id() for t in opaque}
        self.atoms, self.divs, self.facs, self.ids = {}, [], [], {}

    def atom(self, t):
        self.atoms[t.get_id()] = t
        return {(t.get_id(),): Fraction(1)}, {}

    def factor(self, p):
        """(scalar, number) of the polynomial p as scalar * factor"""
        c = lead(p)
        q = {k: v / c for k, v in p.items()}
        key = frozenset(q.items())
        if key not in self.ids:
            self.ids[key] = len(self.facs)
            self.facs.append(q)
        return c, self.ids[key]

    def expand(self, p, fs):
        for f, n in fs.items():
            for _ in range(n):
                p = pmul(p, self.facs[f])
        return p

    def common(self, a, b):
        d = {f: max(a[1].get(f, 0), b[1].get(f, 0)) for f in set(a[1]) | set(b[1])}
        miss = lambda x: {f: n - x[1].get(f, 0) for f, n in d.items()}
        return self.expand(a[0], miss(a)), self.expand(b[0], miss(b)), d

    def add(self, a, b, s=1):
        p, q, d = self.common(a, b)
        return padd(p, q, s), d

    def mul(self, a, b):
        d = dict(a[1])
        for f, n in b[1].items():
            d[f] = d.get(f, 0) + n
        return pmul(a[0], b[0]), d

    def div(self, a, b):
        if not b[0]:
            raise TooBig
        num = self.expand(a[0], b[1])
        if set(b[0]) == {()}:
            return {k: v / b[0][()] for k, v in num.items()}, a[1]
        c, f = self.factor(b[0])
        d = dict(a[1])
        d[f] = d.get(f, 0) + 1
        return {k: v / c for k, v in num.items()}, d

    def equal(self, a, b):
        p, q, _ = self.common(a, b)
        return p == q

    def flt(self, t):
        """the real value of a double term"""
        if t.get_id() in self.opaque:
            return self.atom(t)
        k = fval_const(t)
        if k is not None:
            return ({(): Fraction(k)} if k else {}), {}
        n = t.decl().name() if z3.is_app(t) else ''
        if n in ('m_fadd', 'm_fsub'):
            return self.add(self.flt(t.arg(0)), self.flt(t.arg(1)), 1 if n == 'm_fadd' else -1)
        if n == 'm_fneg':
            return self.add(({}, {}), self.flt(t.arg(0)), -1)
        if n == 'm_fmul':
            return self.mul(self.flt(t.arg(0)), self.flt(t.arg(1)))
        if n == 'm_fdiv':
            self.divs.append(t.arg(1))
            return self.div(self.flt(t.arg(0)), self.flt(t.arg(1)))
        if n == 'm_pow' and fval_const(t.arg(1)) in POWERS:
            r = a = self.flt(t.arg(0))
            for _ in range(int(fval_const(t.arg(1))) - 1):
                r = self.mul(r, a)
            return r
        return self.atom(t)

    def real(self, t):
        if z3.is_rational_value(t):
            k = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): k} if k else {}), {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = self.real(t.arg(0))
            for x in t.children()[1:]:
                r = self.add(r, self.real(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.real(t.arg(0))
            for x in t.children()[1:]:
                r = self.add(r, self.real(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add(({}, {}), self.real(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = self.real(t.arg(0))
            for x in t.children()[1:]:
                r = self.mul(r, self.real(x))
            return r
        if k == z3.Z3_OP_DIV:
            return self.div(self.real(t.arg(0)), self.real(t.arg(1)))
        if t.decl().eq(val):
            return self.flt(t.arg(0))
        return self.atom(t)


def factors(t):
    """double terms whose product is t"""
    n = t.decl().name() if z3.is_app(t) else ''
    if n == 'm_fmul':
        return factors(t.arg(0)) + factors(t.arg(1))
    if n == 'm_pow' and fval_const(t.arg(1)) in POWERS:
        return factors(t.arg(0))
    return [t]


def same(code, spec, opaque=()):
    """None when the double term code is not, as a quotient of polynomials, the real term spec;
    otherwise the divisors of code (each has to be different from zero); opaque: double terms kept as atoms"""
    try:
        R = Ratio(opaque)
        a, b = R.flt(code), None
        divs = list(R.divs)
        b = R.real(spec)
        if not R.equal(a, b):
            return None
        out = []
        for d in divs:
            for f in factors(d):
                if not any(f.eq(x) for x in out):
                    out.append(f)
        return out
    except TooBig:
        return None
