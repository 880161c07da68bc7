"""Terms, axioms and solver queries.

Machine integers are mathematical integers in a canonical range (i64: unsigned,
every other width: signed, i1: Bool) and every operation that may leave the range
is wrapped explicitly.  Doubles are an uninterpreted sort F observed through
  val : F -> Real      (order embedding; +-inf are mapped to +-INFV)
  nan : F -> Bool
Arithmetic on doubles is uninterpreted (hence bit-faithful); only facts that hold
for IEEE-754 are instantiated, unless REALMODE is set (then + - * / on doubles are
exact, an assumption that the evidence lists).
Axioms are instantiated on ground terms at query time (no quantifiers).
"""
import z3, os, time
from fractions import Fraction

F = z3.DeclareSort('F')
Iso = z3.IntSort()
Rso = z3.RealSort()
Bso = z3.BoolSort()

INFV = z3.RealVal(2 ** 1025)
REALMODE = [False]
FPORD = [False]   # monotonicity of rounding for sums and differences

val = z3.Function('val', F, Rso)
nan = z3.Function('nan', F, Bso)
i2f = z3.Function('i2f', Iso, F)
f2i_ub = z3.Function('f2i_ub', F, Iso)
imod = z3.Function('imod', Iso, Iso, Iso)
idiv = z3.Function('idiv', Iso, Iso, Iso)
nlmul = z3.Function('nlmul', Iso, Iso, Iso)
bop = {}
for _n in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'pow', 'atan2', 'fmod', 'fmin', 'fmax'):
    bop[_n] = z3.Function('m_' + _n, F, F, F)
uop = {}


def ufun(name):
    if name not in uop:
        uop[name] = z3.Function('m_' + name, F, F)
    return uop[name]


def bfun(name):
    if name not in bop:
        bop[name] = z3.Function('m_' + name, F, F, F)
    return bop[name]


_ctr = [0]


def fresh(name, sort):
    _ctr[0] += 1
    return z3.Const('%s!%d' % (name, _ctr[0]), sort)


def freshf(name, *sorts):
    _ctr[0] += 1
    return z3.Function('%s!%d' % (name, _ctr[0]), *sorts)


# ------------------------------------------------------------------ helpers
def isc(x):
    return isinstance(x, (int, bool))


def I(x):
    return z3.IntVal(int(x)) if isinstance(x, (int, bool)) else x


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def fold(x):
    if z3.is_int_value(x):
        return x.as_long()
    return x


def foldb(x):
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return norm(I(a) + I(b))


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return 0
    return norm(I(a) - I(b))


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0:
                return 0
            if x == 1:
                return y
    return frompoly(pmul(poly(I(a)), poly(I(b))))


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_app(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_LE:
            return x.arg(1) < x.arg(0)
        if k == z3.Z3_OP_LT:
            return x.arg(1) <= x.arg(0)
        if k == z3.Z3_OP_GE:
            return x.arg(0) < x.arg(1)
        if k == z3.Z3_OP_GT:
            return x.arg(0) <= x.arg(1)
    return z3.Not(x)


def implies(a, b):
    return bor(bnot(a), b)


def eqv(a, b):
    """equality of two values of the same kind"""
    if isc(a) and isc(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)):
        a, b = B(a), B(b)
        if z3.is_true(a):
            return foldb(b)
        if z3.is_true(b):
            return foldb(a)
        if z3.is_false(a):
            return bnot(foldb(b))
        if z3.is_false(b):
            return bnot(foldb(a))
    elif isc(a) or isc(b) or z3.is_int(a):
        d = sub(a, b)
        if isc(d):
            return d == 0
        return I(a) == I(b)
    if a.eq(b):
        return True
    return a == b


def lt(a, b):
    if isc(a) and isc(b):
        return a < b
    d = sub(a, b)
    if isc(d):
        return d < 0
    return I(a) < I(b)


def le(a, b):
    if isc(a) and isc(b):
        return a <= b
    d = sub(a, b)
    if isc(d):
        return d <= 0
    return I(a) <= I(b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)):
        a, b = B(a), B(b)
    elif isc(a) or isc(b):
        a, b = I(a), I(b)
    if a.eq(b):
        return a
    return extreme(c, a, b)


def extreme(c, a, b):
    """If, with the four ways to write each of max(x,y) and min(x,y) brought to one"""
    if a.sort() == z3.IntSort():
        k, neg = c, False
        while z3.is_not(k):
            k, neg = k.arg(0), not neg
        kind = k.decl().kind()
        if kind in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            x, y = k.arg(0), k.arg(1)
            small = kind in (z3.Z3_OP_LT, z3.Z3_OP_LE)
            if neg:
                small = not small
            if (x.eq(a) and y.eq(b)) or (x.eq(b) and y.eq(a)):
                isfirst = x.eq(a)
                ismax = small != isfirst
                if b.get_id() < a.get_id():
                    a, b = b, a
                return z3.If(a < b, b, a) if ismax else z3.If(a < b, a, b)
    return z3.If(c, a, b)


# ------------------------------------------------------------------ polynomials
_polyc = {}


def poly(t):
    """z3 Int term -> {tuple(sorted (id, atom) monomial): coeff}; atoms keep z3 refs."""
    if isc(t):
        return {(): int(t)} if t else {}
    k = t.get_id()
    r = _polyc.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    p = _poly(t)
    _polyc[k] = (t, p)
    return p


def _padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        x = r.get(m, 0) + c * v
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


_atoms = {}


def _atom(t):
    _atoms[t.get_id()] = t
    return {(t.get_id(),): 1}


def _poly(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return {(): v} if v else {}
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            p = {}
            for c in t.children():
                p = _padd(p, poly(c))
            return p
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            p = poly(ch[0])
            for c in ch[1:]:
                p = _padd(p, poly(c), -1)
            return p
        if k == z3.Z3_OP_UMINUS:
            return _padd({}, poly(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            p = {(): 1}
            for c in t.children():
                p = pmul(p, poly(c))
            return p
        if t.decl().eq(nlmul):
            return pmul(poly(t.arg(0)), poly(t.arg(1)))
    return _atom(t)


def pmul(p, q):
    r = {}
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = tuple(sorted(m1 + m2))
            x = r.get(m, 0) + v1 * v2
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r


def mono(m):
    ts = [_atoms[i] for i in m]
    t = ts[0]
    for u in ts[1:]:
        t = nlmul(t, u)
    return t


def frompoly(p):
    if not p:
        return 0
    ts = []
    c = 0
    for m in sorted(p, key=lambda m: (len(m), m)):
        v = p[m]
        if m == ():
            c = v
            continue
        t = mono(m)
        ts.append(t if v == 1 else (z3.IntVal(v) * t))
    if c and ts:
        ts.append(z3.IntVal(c))
    if not ts:
        return c
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def norm(t):
    if isc(t):
        return t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return t
    return frompoly(poly(t))


def emod(x, n):
    """x mod n for 0 <= x, 0 < n"""
    if isc(x) and isc(n) and n > 0:
        return x % n
    if isc(n) and n > 0:
        return fold(z3.simplify(I(x) % n))
    if not isc(x) and z3.is_app(x) and x.decl().eq(imod) and x.arg(1).eq(I(n)):
        return x
    return imod(I(x), I(n))


def ediv(x, n):
    if isc(x) and isc(n) and n > 0:
        return x // n
    if isc(n) and n > 0:
        # exact division of a polynomial
        p = poly(I(x))
        if all(v % n == 0 for v in p.values()):
            return frompoly({m: v // n for m, v in p.items()})
        return fold(z3.simplify(I(x) / n))
    return idiv(I(x), I(n))


# ------------------------------------------------------------------ doubles
_fc = {}


def fconst(fr):
    """F constant with the exact value fr (Fraction), or 'nan' 'inf' '-inf'"""
    if fr not in _fc:
        c = z3.Const('fc[%s]' % (fr,), F)
        if fr == 'nan':
            ax = [nan(c)]
        elif fr == 'inf':
            ax = [z3.Not(nan(c)), val(c) == INFV]
        elif fr == '-inf':
            ax = [z3.Not(nan(c)), val(c) == -INFV]
        elif fr == '-0':
            ax = [z3.Not(nan(c)), val(c) == 0]
        else:
            ax = [z3.Not(nan(c)), val(c) == z3.RealVal(str(Fraction(fr)))]
        _fc[fr] = (c, ax)
        CONST_AX[c.get_id()] = (c, ax)
    return _fc[fr][0]


CONST_AX = {}


def fval_const(c):
    """python Fraction of an F constant or None"""
    for k, (cc, ax) in _fc.items():
        if cc.eq(c) and isinstance(k, Fraction):
            return k
    return None


def parse_fp(txt):
    import struct
    if txt.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0]
    else:
        d = float(txt)
    if d != d:
        return fconst('nan')
    if d in (float('inf'), float('-inf')):
        return fconst('inf' if d > 0 else '-inf')
    if d == 0 and str(d).startswith('-'):
        return fconst('-0')
    return fconst(Fraction(d))


def flt(a, b):
    return z3.And(z3.Not(nan(a)), z3.Not(nan(b)), val(a) < val(b))


def fle(a, b):
    return z3.And(z3.Not(nan(a)), z3.Not(nan(b)), val(a) <= val(b))


def feq(a, b):
    return z3.And(z3.Not(nan(a)), z3.Not(nan(b)), val(a) == val(b))


def fuo(a, b):
    return z3.Or(nan(a), nan(b))


def fcmp(pred, a, b):
    if pred == 'oeq':
        return feq(a, b)
    if pred == 'une':
        return z3.Not(feq(a, b))
    if pred == 'olt':
        return flt(a, b)
    if pred == 'ole':
        return fle(a, b)
    if pred == 'ogt':
        return flt(b, a)
    if pred == 'oge':
        return fle(b, a)
    if pred == 'ult':
        return z3.Not(fle(b, a))
    if pred == 'ule':
        return z3.Not(flt(b, a))
    if pred == 'ugt':
        return z3.Not(fle(a, b))
    if pred == 'uge':
        return z3.Not(flt(a, b))
    if pred == 'one':
        return z3.Or(flt(a, b), flt(b, a))
    if pred == 'ueq':
        return z3.Not(z3.Or(flt(a, b), flt(b, a)))
    if pred == 'ord':
        return z3.Not(fuo(a, b))
    if pred == 'uno':
        return fuo(a, b)
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    raise ValueError(pred)


COMM = {'fadd', 'fmul'}


def trmul(c, n):
    nm = 'trmul[%s]' % c
    TRMUL[nm] = c
    return z3.Function(nm, Iso, Iso)(I(n))


def fpy(d):
    """F constant of a python float"""
    if d != d:
        return fconst('nan')
    if d in (float('inf'), float('-inf')):
        return fconst('inf' if d > 0 else '-inf')
    if d == 0 and str(d).startswith('-'):
        return fconst('-0')
    return fconst(Fraction(d))


def fbin(op, a, b):
    if op in ('fadd', 'fsub', 'fmul', 'fdiv') and not REALMODE[0]:
        x, y = fval_const(a), fval_const(b)
        if x is not None and y is not None and not (op == 'fdiv' and y == 0):
            x, y = float(x), float(y)      # exact: the constants are doubles
            try:
                return fpy(x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y)
            except OverflowError:
                pass
    return bfun(op)(a, b)


def ftrunc_int(d):
    """mathematical truncation toward zero of a finite double"""
    v = val(d)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


# ------------------------------------------------------------------ filters (logical selection)
class Filt:
    """cnt(k) = #{i<k : b(i)}, sel(j) = the index of the j-th such i."""
    allf = []

    def __init__(self, b):
        _ctr[0] += 1
        n = _ctr[0]
        self.b = b
        self.cnt = z3.Function('cnt!%d' % n, Iso, Iso)
        self.sel = z3.Function('sel!%d' % n, Iso, Iso)
        Filt.allf.append(self)
        FILT[self.cnt.name()] = self
        FILT[self.sel.name()] = self


class Scat:
    """last(i, n) = the largest k < n with ix(k) == i, or -1 when there is none"""
    alls = []

    def __init__(self, ix):
        _ctr[0] += 1
        self.ix = ix
        self.fn = z3.Function('last!%d' % _ctr[0], Iso, Iso, Iso)
        Scat.alls.append(self)
        SCAT[self.fn.name()] = self

    def last(self, i, n):
        return self.fn(I(i), I(n))


SCAT = {}
FILT = {}
SUMS = {}     # name -> (fn, delta)   S(k) = sum_{i<k} delta(i)
FOLDS = {}    # name -> (fn, init, step)  fold(0)=init, fold(k+1)=step(k, fold(k))
RANGES = {}   # uninterpreted array base: decl name -> (lo, hi) | None
EXTRA_AX = {}  # decl name -> python function(list of apps) -> [axioms]
TRMUL = {}    # name -> Fraction c: truncation of the double product n*c, 1 <= c <= 2
VBOUNDS = {}  # const id -> (term, lo, hi)


def bounded(name, lo, hi):
    v = fresh(name, Iso)
    VBOUNDS[v.get_id()] = (v, lo, hi)
    return v


# ------------------------------------------------------------------ interval analysis
_bc = {}


def bounds(t):
    if isc(t):
        return int(t), int(t)
    k = t.get_id()
    r = _bc.get(k)
    if r is None or not r[0].eq(t):
        r = (t, _bounds(t))
        _bc[k] = r
    return r[1]


def _imul(a, b):
    if None in a or None in b:
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    xs = [x * y for x in a for y in b]
    return min(xs), max(xs)


def _iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def _bounds(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    if t.get_id() in VBOUNDS and VBOUNDS[t.get_id()][0].eq(t):
        return VBOUNDS[t.get_id()][1:]
    if not z3.is_app(t):
        return None, None
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = (0, 0)
        for c in ch:
            r = _iadd(r, bounds(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = bounds(ch[0])
        for c in ch[1:]:
            b = bounds(c)
            r = _iadd(r, (None if b[1] is None else -b[1], None if b[0] is None else -b[0]))
        return r
    if k == z3.Z3_OP_MUL or t.decl().eq(nlmul):
        r = (1, 1)
        for c in ch:
            r = _imul(r, bounds(c))
        return r
    if k == z3.Z3_OP_ITE:
        a, b = bounds(ch[1]), bounds(ch[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if t.decl().eq(imod):
        return 0, bounds(ch[1])[1]
    if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        return 0, ch[1].as_long() - 1
    nm = t.decl().name()
    if nm in RANGES and RANGES[nm]:
        return RANGES[nm]
    if nm in FILT and t.decl().eq(FILT[nm].cnt):
        return 0, bounds(t.arg(0))[1]
    if nm in TRMUL:
        b = bounds(t.arg(0))
        return (0, None if b[1] is None else 2 * max(b[1], 0))
    return None, None


# ------------------------------------------------------------------ axiom instantiation
INTERESTING = {}
_scan = {}


def scan(e):
    """set of interesting applications in e (dict id->app)"""
    k = e.get_id()
    r = _scan.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if i in CONST_AX or i in VBOUNDS or x.sort().eq(F):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out[i] = x
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[i] = x
                st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    _scan[k] = (e, out)
    return out


def unary_axioms(a):
    """axioms about one application"""
    d = a.decl()
    n = d.name()
    ax = []
    if a.num_args() == 0:
        if a.get_id() in CONST_AX:
            ax += CONST_AX[a.get_id()][1]
        if a.get_id() in VBOUNDS:
            _, lo, hi = VBOUNDS[a.get_id()]
            if lo is not None:
                ax.append(a >= lo)
            if hi is not None:
                ax.append(a <= hi)
    if a.sort().eq(F):
        ax.append(z3.And(val(a) <= INFV, val(a) >= -INFV))
        if d.eq(i2f):
            x = a.arg(0)
            # exact below 2^53; monotone and integral above (only used for |x| < 2^53)
            ax.append(z3.Not(nan(a)))
            ax.append(z3.Implies(z3.And(x <= 2 ** 53, x >= -2 ** 53), val(a) == z3.ToReal(x)))
            ax.append(z3.Implies(x > 2 ** 53, val(a) >= 2 ** 53))
            ax.append(z3.Implies(x < -2 ** 53, val(a) <= -2 ** 53))
        elif n == 'm_fneg':
            ax.append(val(a) == -val(a.arg(0)))
            ax.append(nan(a) == nan(a.arg(0)))
        elif n == 'm_fabs':
            v = val(a.arg(0))
            ax.append(val(a) == z3.If(v >= 0, v, -v))
            ax.append(nan(a) == nan(a.arg(0)))
        elif n in ('m_floor', 'm_trunc', 'm_ceil'):
            v = val(a.arg(0))
            fin = z3.And(v < INFV, v > -INFV)
            ax.append(nan(a) == nan(a.arg(0)))
            w = {'m_floor': z3.ToInt(v), 'm_ceil': -z3.ToInt(-v),
                 'm_trunc': z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))}[n]
            ax.append(z3.Implies(fin, val(a) == z3.ToReal(w)))
        if n in ('m_fadd', 'm_fmul') and not a.arg(0).eq(a.arg(1)):
            ax.append(a == d(a.arg(1), a.arg(0)))   # commutative (up to NaN payload)
        if n == 'm_fmul':
            # monotonicity of rounding for multiplication with a constant 1<=c<=2
            for c, x in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                fr = fval_const(c)
                if fr is not None and 1 <= fr <= 2:
                    ax.append(z3.Implies(z3.And(z3.Not(nan(x)), val(x) >= 0, val(x) <= 2 ** 900),
                                         z3.And(z3.Not(nan(a)), val(a) >= val(x), val(a) <= 2 * val(x))))
        if FPORD[0] and n in ('m_fadd', 'm_fsub'):
            # the rounded sum is on the same side of a representable number as the exact one
            x, y = a.arg(0), a.arg(1)
            u, v = val(x), val(y)
            fin = z3.And(z3.Not(nan(x)), z3.Not(nan(y)), z3.Or(z3.And(u < INFV, u > -INFV), z3.And(v < INFV, v > -INFV)))
            ax.append(z3.Implies(fin, z3.Not(nan(a))))
            if n == 'm_fadd':
                for p, q in ((u, v), (v, u)):
                    ax.append(z3.Implies(z3.And(fin, q >= 0), val(a) >= p))
                    ax.append(z3.Implies(z3.And(fin, q <= 0), val(a) <= p))
            else:
                ax.append(z3.Implies(fin, z3.And((val(a) >= 0) == (u >= v), (val(a) <= 0) == (u <= v))))
        if REALMODE[0]:
            if n == 'm_fadd':
                ax.append(val(a) == val(a.arg(0)) + val(a.arg(1)))
            elif n == 'm_fsub':
                ax.append(val(a) == val(a.arg(0)) - val(a.arg(1)))
            elif n == 'm_fmul':
                ax.append(val(a) == val(a.arg(0)) * val(a.arg(1)))
            elif n == 'm_fdiv':
                ax.append(z3.Implies(val(a.arg(1)) != 0, val(a) * val(a.arg(1)) == val(a.arg(0))))
                ax.append(z3.Implies(val(a.arg(1)) != 0, val(a) == val(a.arg(0)) / val(a.arg(1))))
            if n in ('m_fadd', 'm_fsub', 'm_fmul'):
                ax.append(z3.Implies(z3.And(z3.Not(nan(a.arg(0))), z3.Not(nan(a.arg(1)))), z3.Not(nan(a))))
            if n == 'm_fdiv':
                ax.append(z3.Implies(z3.And(z3.Not(nan(a.arg(0))), z3.Not(nan(a.arg(1))), val(a.arg(1)) != 0), z3.Not(nan(a))))
            if n == 'm_pow':
                fr = fval_const(a.arg(1))
                if fr in (2, 3, 4):
                    p = val(a.arg(0))
                    for _ in range(int(fr) - 1):
                        p = p * val(a.arg(0))
                    ax.append(val(a) == p)
                    ax.append(z3.Implies(z3.Not(nan(a.arg(0))), z3.Not(nan(a))))
    if d.eq(imod) or d.eq(idiv):
        x, m = a.arg(0), a.arg(1)
        q, r = idiv(x, m), imod(x, m)
        qm = I(mul(q, m))
        ax.append(z3.Implies(m > 0, z3.And(x == qm + r, r >= 0, r < m)))
        ax.append(z3.Implies(z3.And(x >= 0, x < m), z3.And(q == 0, r == x)))
        ax.append(z3.Implies(z3.And(x >= m, m > 0, x < 2 * m), z3.And(q == 1, r == x - m)))
        ax.append(z3.Implies(z3.And(x >= 0, m > 0), z3.And(q >= 0, q <= x)))
        # x == q0*m + r0 syntactically
        px = poly(x)
        pm = poly(m)
        if len(pm) == 1 and list(pm.values()) == [1] and len(list(pm)[0]) >= 1:
            mm = list(pm)[0]
            qq, rr = {}, {}
            for mo, c in px.items():
                l = list(mo)
                ok = True
                for z in mm:
                    if z in l:
                        l.remove(z)
                    else:
                        ok = False
                        break
                if ok:
                    qq[tuple(l)] = c
                else:
                    rr[mo] = c
            if qq:
                q0, r0 = I(frompoly(qq)), I(frompoly(rr))
                ax.append(z3.Implies(z3.And(r0 >= 0, r0 < m), z3.And(q == q0, r == r0)))
    elif d.eq(nlmul):
        x, y = a.arg(0), a.arg(1)
        ax += [z3.Implies(z3.And(x >= 0, y >= 0), a >= 0), z3.Implies(z3.And(x >= 1, y >= 0), a >= y),
               z3.Implies(z3.And(y >= 1, x >= 0), a >= x), z3.Implies(z3.Or(x == 0, y == 0), a == 0),
               z3.Implies(x == 1, a == y), z3.Implies(y == 1, a == x)]
        if x.num_args() and y.num_args() and x.decl().name() in RANGES and y.decl().name() in RANGES and not x.eq(y):
            ax.append(a == nlmul(y, x))
        b = _imul(bounds(x), bounds(y))
        if b[1] is not None:
            ax.append(z3.Implies(z3.And(x >= 0, y >= 0), a <= b[1]))
    elif n in TRMUL:
        t = a.arg(0)
        # below 2^52 rounding is monotone and n, 2n are representable; above, 1+2^-40 < c < 2-2^-40
        # leaves more room than the two roundings (relative error 2^-53 each) can take away
        ax.append(z3.Implies(t >= 0, z3.And(a >= t, a <= 2 * t)))
    elif n in FILT:
        f = FILT[n]
        t = a.arg(0)
        if d.eq(f.cnt):
            ax += [a >= 0, z3.Implies(t <= 0, a == 0), z3.Implies(t >= 0, a <= t)]
            ax.append(z3.Implies(z3.And(t >= 0, B(f.b(t))), f.sel(a) == t))
    elif n in SCAT:
        f = SCAT[n]
        i, t = a.arg(0), a.arg(1)
        ax += [a >= -1, z3.Implies(t <= 0, a == -1), z3.Implies(t >= 0, a < t)]
        ax.append(z3.Implies(a >= 0, B(eqv(f.ix(a), i))))
        if z3.is_int_value(t) and t.as_long() == 1:
            ax.append(a == z3.If(B(eqv(f.ix(I(0)), i)), 0, -1))
    elif n in SUMS:
        f, delta = SUMS[n]
        t = a.arg(0)
        ax.append(z3.Implies(t <= 0, a == 0))
    elif n in FOLDS:
        f, init, step = FOLDS[n]
        t = a.arg(0)
        ax.append(z3.Implies(t <= 0, a == init))
    if n in RANGES and RANGES[n]:
        lo, hi = RANGES[n]
        if lo is not None:
            ax.append(a >= lo)
        if hi is not None:
            ax.append(a <= hi)
    if n in EXTRA_AX:
        ax += EXTRA_AX[n](a)
    return ax


_uax = {}


def unary_cached(a):
    k = a.get_id()
    r = _uax.get(k)
    if r is None or not r[0].eq(a) or r[2] != REALMODE[0]:
        r = (a, unary_axioms(a), REALMODE[0])
        _uax[k] = r
    return r[1]


_pair = {}
PAIRED = ('imod', 'nlmul')


def groups(apps):
    by = {}
    for a in apps:
        if a.num_args() == 0:
            continue
        n = a.decl().name()
        if n in PAIRED or n in FILT or n in SUMS or n in FOLDS or n in SCAT:
            by.setdefault(n, []).append(a)
    return by


def pair2(n, a, b):
    """axioms relating two applications of the same function (unordered)"""
    key = (a.get_id(), b.get_id()) if a.get_id() < b.get_id() else (b.get_id(), a.get_id())
    r = _pair.get(key)
    if r is not None:
        return r[2]
    ax = []
    if n in FILT:
        f = FILT[n]
        if a.decl().eq(f.cnt):
            s, t = a.arg(0), b.arg(0)
            d = sub(t, s)
            done = False
            if isc(d):
                if d < 0:
                    a, b, s, t, d = b, a, t, s, -d
                if d == 1:
                    ax.append(z3.Implies(s >= 0, b == a + z3.If(B(f.b(s)), 1, 0)))
                    done = True
            if not done:
                for x, y, s_, t_ in ((a, b, s, t), (b, a, t, s)):
                    ax.append(z3.Implies(s_ <= t_, x <= y))
                    ax.append(z3.Implies(z3.And(s_ >= 0, s_ < t_, B(f.b(s_))), x + 1 <= y))
    elif n in SCAT:
        f = SCAT[n]
        if a.arg(0).eq(b.arg(0)) or not isc(eqv(a.arg(0), b.arg(0))):
            i = a.arg(0)
            s, t = a.arg(1), b.arg(1)
            d = sub(t, s)
            same = B(eqv(a.arg(0), b.arg(0)))
            if isc(d):
                if d < 0:
                    a, b, s, t, d = b, a, t, s, -d
                    i = a.arg(0)
                if d == 0:
                    ax.append(z3.Implies(same, a == b))
                elif d == 1:
                    ax.append(z3.Implies(z3.And(same, s >= 0), b == z3.If(B(eqv(f.ix(s), i)), s, a)))
            if not (isc(d) and d in (0, 1)):
                for x, y, s_, t_ in ((a, b, s, t), (b, a, t, s)):
                    ax.append(z3.Implies(z3.And(same, s_ <= t_), z3.And(x <= y, z3.Or(y >= s_, x == y))))
                    ax.append(z3.Implies(z3.And(same, s_ >= 0, s_ < t_, B(eqv(f.ix(s_), i))), y >= s_))
    elif n in SUMS or n in FOLDS:
        for a, b in ((a, b), (b, a)):
            d = sub(b.arg(0), a.arg(0))
            if isc(d) and d == 1:
                s = a.arg(0)
                if n in SUMS:
                    ax.append(z3.Implies(s >= 0, b == a + SUMS[n][1](s)))
                else:
                    ax.append(z3.Implies(s >= 0, b == FOLDS[n][2](s, a)))
    elif n == 'imod':
        for a, b in ((a, b), (b, a)):
            if a.arg(1).eq(b.arg(1)):
                d = sub(b.arg(0), a.arg(0))
                if isc(d) and d == 1:
                    m = a.arg(1)
                    ax.append(z3.Implies(z3.And(m > 0, a.arg(0) >= 0), b == z3.If(a + 1 >= m, 0, a + 1)))
    elif n == 'nlmul':
        if not a.arg(0).eq(b.arg(0)) and not a.arg(1).eq(b.arg(1)):
            ax.append(z3.Implies(z3.And(a.arg(0) == b.arg(1), a.arg(1) == b.arg(0)), a == b))
        for (x, y) in ((0, 0), (0, 1), (1, 0), (1, 1)):
            if a.arg(x).eq(b.arg(y)):
                m = a.arg(x)
                s, t = a.arg(1 - x), b.arg(1 - y)
                ax.append(z3.Implies(z3.And(m >= 0, s < t), a + m <= b))
                ax.append(z3.Implies(z3.And(m >= 0, t < s), b + m <= a))
                ax.append(z3.Implies(s == t, a == b))
    _pair[key] = (a, b, ax)
    return ax


def selcnt(f, s, c):
    key = ('sc', s.get_id(), c.get_id())
    r = _pair.get(key)
    if r is None:
        j, N = s.arg(0), c.arg(0)
        r = (s, c, [z3.Implies(z3.And(j >= 0, j < c), z3.And(s >= 0, s < N, B(f.b(s)), f.cnt(s) == j))])
        _pair[key] = r
    return r[2]


def closure(exprs, rounds=4, light=False):
    """instantiated axioms for exprs"""
    apps = {}
    out = []
    outids = set()
    todo = list(exprs)
    grp = {}
    for rnd in range(rounds):
        new = {}
        for e in todo:
            for k, a in scan(e).items():
                if k not in apps and k not in new:
                    new[k] = a
        if not new:
            break
        apps.update(new)
        nxt = []
        for a in new.values():
            if light and a.decl().name() in ('imod', 'idiv'):
                x, m = a.arg(0), a.arg(1)
                if a.decl().eq(imod):
                    nxt.append(z3.Implies(m > 0, z3.And(a >= 0, a < m)))
                    nxt.append(z3.Implies(z3.And(x >= 0, x < m), a == x))
                continue
            nxt += unary_cached(a)
        ng = groups(new.values())
        for n, l in ng.items():
            old = grp.get(n, [])
            for i, a in enumerate(l):
                for b in old:
                    nxt += pair2(n, a, b)
                for b in l[i + 1:]:
                    nxt += pair2(n, a, b)
            grp[n] = old + l
        for n, l in ng.items():
            if n in FILT:
                f = FILT[n]
                if l[0].decl().eq(f.cnt):
                    for s in grp.get(f.sel.name(), []):
                        for c in l:
                            nxt += selcnt(f, s, c)
                else:
                    newc = ng.get(f.cnt.name(), [])
                    for s in l:
                        for c in grp.get(f.cnt.name(), []):
                            nxt += selcnt(f, s, c)
        todo = []
        for x in nxt:
            i = x.get_id()
            if i not in outids and not z3.is_true(x):
                outids.add(i)
                out.append(x)
                todo.append(x)
    return out


class Stats:
    queries = 0
    time = 0.0
    unknown = 0


DUMP = [None]
SLOW = [0]
SLOWQ = []
TIMEOUT = [8000]


def solver_for(assertions):
    s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
    s.set('timeout', TIMEOUT[0])
    for a in assertions:
        s.add(a)
    for a in closure(assertions):
        s.add(a)
    return s


_qcache = {}


def check(assertions):
    """-> z3 result"""
    t0 = time.time()
    asr = []
    for a in assertions:
        if a is True:
            continue
        if a is False:
            return z3.unsat
        asr.append(a)
    key = (frozenset(a.get_id() for a in asr), REALMODE[0])
    h = _qcache.get(key)
    if h is not None and all(a.eq(b) for a, b in zip(sorted(h[0], key=lambda x: x.get_id()), sorted(asr, key=lambda x: x.get_id()))) and len(h[0]) == len(set(a.get_id() for a in asr)):
        return h[1]
    s = solver_for(asr)
    r = s.check()
    if SLOW[0] and time.time() - t0 > SLOW[0]:
        import traceback
        print('SLOW %.2f %s' % (time.time() - t0, r), ' < '.join(f.name for f in traceback.extract_stack()[-7:-1]))
        if len(SLOWQ) < 5:
            SLOWQ.append(asr)
    Stats.queries += 1
    Stats.time += time.time() - t0
    if r == z3.unknown:
        Stats.unknown += 1
    u = {a.get_id(): a for a in asr}
    _qcache[key] = (list(u.values()), r)
    return r


def model(assertions, timeout=4000):
    asr = [a for a in assertions if a is not True]
    if any(a is False for a in asr):
        return None
    s = solver_for(asr)
    s.set('timeout', timeout)
    if s.check() == z3.sat:
        return s.model()
    return None


# ------------------------------------------------------------------ rewriting
def rewrite(t, consts=(), funs=None):
    """substitute constants (list of pairs) and apply fun_map {decl name: lambda args}"""
    if isc(t):
        return t
    if funs:
        cache = {}

        def rec(x):
            k = x.get_id()
            if k in cache:
                return cache[k][1]
            if z3.is_app(x) and x.num_args() > 0:
                ch = [rec(c) for c in x.children()]
                nm = x.decl().name()
                if nm in funs and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = funs[nm](*ch)
                    r = I(r) if isinstance(r, int) and not isinstance(r, bool) else B(r)
                elif all(a.eq(b) for a, b in zip(ch, x.children())):
                    r = x
                else:
                    r = x.decl()(*ch)
            else:
                r = x
            cache[k] = (x, r)
            return r
        t = rec(t)
    if consts:
        t = z3.substitute(t, *[(a, I(b) if isinstance(b, int) and not isinstance(b, bool) else B(b)) for a, b in consts])
    if z3.is_int(t):
        return norm2(t)
    if z3.is_bool(t):
        return foldb(z3.simplify(t)) if z3.is_true(t) or z3.is_false(t) else t
    return t


def norm2(t):
    """normalise after substitution (nlmul args may have become sums): rebuild bottom up"""
    cache = {}

    def rec(x):
        k = x.get_id()
        if k in cache:
            return cache[k][1]
        r = x
        if z3.is_app(x) and x.num_args() > 0:
            ch = [rec(c) for c in x.children()]
            if any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            if z3.is_int(r) and r.decl().kind() != z3.Z3_OP_ITE:
                r = I(norm(r))
        cache[k] = (x, r)
        return r
    return fold(rec(t))
