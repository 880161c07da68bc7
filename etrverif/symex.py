"""Symbolic executor / verification-condition generator over LLVM IR.

Functions are executed path by path; loops are never unrolled: each loop is replaced
by an inductively checked summary (see loops.py).  Every memory access, delete[],
division and call of std::terminate is an obligation.
"""
import re, subprocess
import z3
import llir
from terms import *

M64 = 2 ** 64


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off):
        self.reg, self.off = reg, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.reg, self.off)


NULL = Ptr(None, 0)


class FnPtr:
    def __init__(self, name):
        self.name = name


class PtrInt:
    """ptrtoint result"""
    def __init__(self, p):
        self.p = p


class Opaque:
    def __init__(self, w=''):
        self.w = w


# ------------------------------------------------------------------ array contents
class ABase:
    def __init__(self, fn):
        self.fn = fn


class AStore:
    def __init__(self, prev, i, v):
        self.prev, self.i, self.v = prev, i, v


class ARange:
    def __init__(self, prev, lo, hi, fn):
        self.prev, self.lo, self.hi, self.fn = prev, lo, hi, fn


class AIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class ACopy:
    """elements [lo,hi) from another content at shift"""
    def __init__(self, prev, lo, hi, src, so):
        self.prev, self.lo, self.hi, self.src, self.so = prev, lo, hi, src, so


def aselect(c, i, st=None):
    while True:
        if isinstance(c, ABase):
            return c.fn(I(i))
        if isinstance(c, AStore):
            e = eqv(i, c.i)
            if st is not None and not isinstance(e, bool):
                d = st.decide(e)
                e = d if d is not None else e
            if e is True:
                return c.v
            if e is False:
                c = c.prev
                continue
            return ite(e, c.v, aselect(c.prev, i, None))
        if isinstance(c, (ARange, ACopy)):
            e = band(le(c.lo, i), lt(i, c.hi))
            if st is not None and not isinstance(e, bool):
                d = st.decide(e)
                e = d if d is not None else e
            if e is False:
                c = c.prev
                continue
            inner = c.fn(i) if isinstance(c, ARange) else aselect(c.src, add(c.so, sub(i, c.lo)), st if e is True else None)
            if e is True:
                return inner
            return ite(e, inner, aselect(c.prev, i, None))
        if isinstance(c, AIte):
            cc = c.c
            if st is not None and not isinstance(cc, bool):
                d = st.decide(cc)
                cc = d if d is not None else cc
            if cc is True:
                c = c.a
                continue
            if cc is False:
                c = c.b
                continue
            return ite(cc, aselect(c.a, i, None), aselect(c.b, i, None))
        raise Unsupported('content')


class RegState:
    __slots__ = ('kind', 'status', 'size', 'cells', 'zero', 'es', 'ety', 'n', 'content', 'name')

    def copy(self):
        r = RegState()
        for s in self.__slots__:
            setattr(r, s, getattr(self, s))
        r.cells = dict(self.cells) if self.cells is not None else None
        r.zero = list(self.zero)
        return r


class State:
    __slots__ = ('pc', 'mem', 'ex', 'newheap', 'note', 'fa', 'lem')

    def __init__(self, ex):
        self.pc = ()
        self.mem = {}
        self.ex = ex
        self.newheap = ()
        self.note = ()
        self.fa = ()
        self.lem = frozenset()      # positions of the path condition that the earlier ones imply

    def copy(self):
        s = State(self.ex)
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.newheap = self.newheap
        s.note = self.note
        s.fa = self.fa
        s.lem = self.lem
        return s

    def assume(self, c, lemma=False):
        if c is True:
            return self
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if lemma:
            self.lem = self.lem | {len(self.pc)}
        self.pc = self.pc + (c,)
        return self

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = foldb(c)
        if isinstance(c, bool):
            return c
        for a in self.pc:
            if a.eq(c):
                return True
        nc = bnot(c)
        if check(list(self.pc) + [nc]) == z3.unsat:
            return True
        if check(list(self.pc) + [c]) == z3.unsat:
            return False
        return None

    def feasible(self):
        return check(list(self.pc)) != z3.unsat

    def w(self, rid):
        r = self.mem[rid].copy()
        self.mem[rid] = r
        return r


RANGE_OF = {8: (0, 255), 1: (0, 1), 32: (-2 ** 31, 2 ** 31 - 1), 64: (0, M64 - 1), 16: (-2 ** 15, 2 ** 15 - 1)}


def canon_range(w):
    if w == 64:
        return 0, M64 - 1
    if w == 8:
        return 0, 255
    return -2 ** (w - 1), 2 ** (w - 1) - 1


def const_canon(v, w):
    if w == 1:
        return bool(v & 1)
    lo, hi = canon_range(w)
    v &= (1 << w) - 1
    if v > hi:
        v -= 1 << w
    return v


class Obl:
    def __init__(self, kind, desc, ok, where, model=None, status=''):
        self.kind, self.desc, self.ok, self.where, self.model, self.status = kind, desc, ok, where, model, status


NOOP_RET = object()


class Executor:
    def __init__(self, module, demangled=None):
        self.m = module
        self.dem = demangled or {}
        self.active = True
        self.obls = []
        self.stack = []
        self.rid = 0
        self.contracts = []
        self.funcs_seen = set()
        self.loops_seen = []
        self.trusted = set()
        self.globreg = {}
        self.globstates = {}
        self.budget = 400000
        self.deadline = None
        self.collect_paths = 0
        self.lenient = False     # while guessing the form of a loop: 64-bit arithmetic taken not to wrap

    # ---------------------------------------------------------------- misc
    def demangle(self, n):
        return self.dem.get(n, n)

    def where(self):
        return ' <- '.join(short(self.demangle(f)) for f in reversed(self.stack[-4:]))

    def obligation(self, st, kind, cond, desc):
        """returns True if execution may go on"""
        if isinstance(cond, bool):
            d = cond
            if d and not self.active:
                return True
        else:
            d = None
        if d is True:
            self.obls.append(Obl(kind, desc, True, self.where(), status='syntactic'))
            return True
        if not self.active:
            if d is False:
                return False
            if check(list(st.pc) + [cond]) == z3.unsat:
                return False
            return True
        nc = bnot(cond) if d is None else True
        r = check(list(st.pc) + [nc])
        if r == z3.unsat:
            self.obls.append(Obl(kind, desc, True, self.where(), status='unsat'))
            if d is False:
                return False   # path infeasible
            st.assume(cond, True)
            return True
        self.obls.append(Obl(kind, desc, False, self.where(), model=list(st.pc) + ([nc] if nc is not True else []),
                             status=str(r)))
        if d is False:
            return False
        st.assume(cond)
        return check(list(st.pc)) != z3.unsat

    # ---------------------------------------------------------------- memory
    def new_region(self, st, kind, status, size, name='', es=None, ety=None, n=None, content=None):
        self.rid += 1
        r = RegState()
        r.kind, r.status, r.size, r.name = kind, status, size, name
        r.cells = {} if kind == 'cells' else None
        r.zero = []
        r.es, r.ety, r.n, r.content = es, ety, n, content
        st.mem[self.rid] = r
        return self.rid

    def fresh_of(self, ty, name='u'):
        ty = self.m.resolve(ty)
        if ty == 'ptr':
            return Opaque('uninitialised pointer')
        if ty[0] == 'i':
            if ty[1] == 1:
                return fresh(name, Bso)
            lo, hi = canon_range(ty[1])
            if ty[1] == 8:
                lo, hi = 0, 1
            return bounded(name, lo, hi)
        if ty[0] == 'f':
            return fresh(name, F)
        if ty[0] == 'st':
            return [self.fresh_of(t, name) for t in ty[1]]
        if ty[0] == 'arr':
            return [self.fresh_of(ty[2], name) for _ in range(ty[1])]
        raise Unsupported('fresh %r' % (ty,))

    def typed(self, r, ty):
        """the array state r with element type ty, if it has none yet: elements nobody wrote are arbitrary"""
        es = self.m.sizeof(ty)
        key = ty if isinstance(ty, str) else ty[:2]
        if r.es is not None and r.ety is not None:
            return r
        r = r.copy()
        if r.es is None:
            r.es = es
            r.n = ediv(r.size, es)
        if r.ety is None:
            r.ety = key
            nm = 'arr_' + (r.name or 'h')
            if key == 'ptr':
                raise Unsupported('array of pointers')
            if key[0] == 'f':
                u = freshf(nm, Iso, F)
            else:
                u = freshf(nm, Iso, Iso)
                lo, hi = canon_range(key[1])
                RANGES[u.name()] = (0, 1) if key[1] == 8 else (lo, hi)
            if r.content is None:
                r.content = ABase(lambda i, u=u: u(i))
                for lo, hi in r.zero:
                    z = self.zero_of(ty)
                    r.content = ARange(r.content, ediv(lo, es), ediv(hi, es), lambda i, z=z: z)
            r.zero = []
        return r

    def arr_setup(self, st, rid, ty):
        """fix the element type of a lazily typed array"""
        r = st.mem[rid]
        es = self.m.sizeof(ty)
        key = ty if isinstance(ty, str) else ty[:2]
        if r.es is None or r.ety is None:
            st.mem[rid] = self.typed(r, ty)
        r = st.mem[rid]
        if r.es != es or r.ety != key:
            if r.ety != key and r.es == es:
                raise Unsupported('array accessed with two types %s %s' % (r.ety, key))
            raise Unsupported('array accessed with size %s, elements %s' % (es, r.es))
        return r

    def ptr_add(self, st, p, nbytes, ety=None):
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        if isc(nbytes) and nbytes == 0:
            return p
        if p.reg is None:
            return Ptr(None, add(p.off, nbytes))
        r = st.mem.get(p.reg)
        if r is None:
            return Ptr(p.reg, add(p.off, nbytes) if isc(nbytes) else p.off)
        if r.kind == 'arr':
            if r.es is None:
                t = self.m.resolve(ety)
                if t == 'ptr' or t[0] not in ('i', 'f'):
                    raise Unsupported('untyped array gep')
                r = st.w(p.reg)
                r.es = self.m.sizeof(t)
                r.n = ediv(r.size, r.es)
            es = r.es
            if isc(nbytes):
                if nbytes % es:
                    raise Unsupported('unaligned gep')
                return Ptr(p.reg, add(p.off, nbytes // es))
            q = poly(nbytes)
            if any(v % es for v in q.values()):
                raise Unsupported('unaligned gep')
            return Ptr(p.reg, add(p.off, frompoly({m: v // es for m, v in q.items()})))
        return Ptr(p.reg, add(p.off, nbytes))

    def load(self, st, p, ty):
        """-> (value) or None if the path ended"""
        ty = self.m.resolve(ty)
        if isinstance(p, Opaque):
            self.obligation(st, 'memory', False, 'load through an uninitialised pointer (%s)' % p.w)
            return None
        if p.reg is None:
            self.obligation(st, 'memory', False, 'load through a null pointer')
            return None
        r = st.mem.get(p.reg)
        if r is None or r.status == 'freed':
            self.obligation(st, 'memory', False, 'load from dead memory (use after free or dangling reference)')
            return None
        if r.kind == 'arr':
            r = self.arr_setup(st, p.reg, ty)
            if not self.obligation(st, 'bounds', band(le(0, p.off), lt(p.off, r.n)), 'read inside the array'):
                return None
            return aselect(r.content, p.off, st)
        off = p.off
        if not isc(off):
            raise Unsupported('symbolic offset into object')
        if isinstance(ty, tuple) and ty[0] in ('st', 'arr'):
            out = []
            if ty[0] == 'st':
                for i in range(len(ty[1])):
                    o, f = self.m.field(ty, i)
                    v = self.load(st, Ptr(p.reg, off + o), f)
                    if v is None:
                        return None
                    out.append(v)
            else:
                s = self.m.sizeof(ty[2])
                for i in range(ty[1]):
                    v = self.load(st, Ptr(p.reg, off + i * s), ty[2])
                    if v is None:
                        return None
                    out.append(v)
            return out
        sz = self.m.sizeof(ty)
        if not (0 <= off and off + sz <= r.size):
            self.obligation(st, 'bounds', False, 'read inside the object')
            return None
        c = r.cells.get(off)
        if c is not None and c[0] == sz:
            v = c[1]
            if ty == 'ptr' and not isinstance(v, (Ptr, FnPtr, Opaque)):
                if isc(v) and v == 0:
                    return NULL
                return Opaque('int as pointer')
            if ty != 'ptr' and isinstance(v, (Ptr, FnPtr)):
                return PtrInt(v)
            if isinstance(v, PtrInt) and ty == 'ptr':
                return v.p
            return v
        for lo, hi in reversed(r.zero):
            if lo <= off and off + sz <= hi and not any(o < off + sz and off < o + c[0] for o, c in r.cells.items()):
                return self.zero_of(ty)
        if any(o < off + sz and off < o + c[0] for o, c in r.cells.items()):
            return self.fresh_of(ty, 'overlap')
        v = self.fresh_of(ty, 'uninit')
        w = st.w(p.reg)
        w.cells[off] = (sz, v)
        return v

    def zero_of(self, ty):
        ty = self.m.resolve(ty)
        if ty == 'ptr':
            return NULL
        if ty[0] == 'i':
            return False if ty[1] == 1 else 0
        if ty[0] == 'f':
            return fconst(Fraction(0))
        if ty[0] == 'st':
            return [self.zero_of(t) for t in ty[1]]
        if ty[0] == 'arr':
            return [self.zero_of(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero')

    def store(self, st, p, ty, v):
        ty = self.m.resolve(ty)
        if isinstance(p, Opaque):
            return self.obligation(st, 'memory', False, 'store through an uninitialised pointer')
        if p.reg is None:
            return self.obligation(st, 'memory', False, 'store through a null pointer')
        r = st.mem.get(p.reg)
        if r is None or r.status == 'freed':
            return self.obligation(st, 'memory', False, 'store to dead memory (use after free or dangling reference)')
        if r.status == 'global':
            return self.obligation(st, 'memory', False, 'store to constant memory')
        if r.kind == 'arr':
            r = self.arr_setup(st, p.reg, ty)
            if not self.obligation(st, 'bounds', band(le(0, p.off), lt(p.off, r.n)), 'write inside the array'):
                return False
            r = st.w(p.reg)
            r.content = AStore(r.content, p.off, v)
            return True
        off = p.off
        if not isc(off):
            raise Unsupported('symbolic offset into object')
        if isinstance(ty, tuple) and ty[0] == 'st':
            for i in range(len(ty[1])):
                o, f = self.m.field(ty, i)
                if not self.store(st, Ptr(p.reg, off + o), f, v[i]):
                    return False
            return True
        if isinstance(ty, tuple) and ty[0] == 'arr':
            s = self.m.sizeof(ty[2])
            for i in range(ty[1]):
                if not self.store(st, Ptr(p.reg, off + i * s), ty[2], v[i]):
                    return False
            return True
        sz = self.m.sizeof(ty)
        if not (0 <= off and off + sz <= r.size):
            return self.obligation(st, 'bounds', False, 'write inside the object')
        r = st.w(p.reg)
        for o in [o for o, c in r.cells.items() if o < off + sz and off < o + c[0]]:
            del r.cells[o]
        if isinstance(v, bool) or (not isc(v) and not isinstance(v, (Ptr, FnPtr, PtrInt, Opaque, list)) and z3.is_bool(v)):
            v = ite(v, 1, 0) if not isinstance(v, bool) else v
        r.cells[off] = (sz, v)
        return True

    def memcpy(self, st, d, s, n, move):
        if isc(n) and n == 0:
            return True
        for p, w in ((s, 'source'), (d, 'destination')):
            if isinstance(p, Opaque) or p.reg is None or st.mem.get(p.reg) is None or st.mem[p.reg].status == 'freed':
                # only allowed for zero length
                ok = self.obligation(st, 'memory', eqv(n, 0), 'memcpy/memmove %s is valid memory' % w)
                return ok
        rs, rd = st.mem[s.reg], st.mem[d.reg]
        if rs.kind == 'arr' and rd.kind == 'arr':
            if rs.es is None and rd.es is None:
                raise Unsupported('memcpy of untyped arrays')
            if rs.ety is None and rd.ety is None:
                raise Unsupported('memcpy of untyped arrays')
            ety = rs.ety or rd.ety
            rs = self.arr_setup(st, s.reg, ety)
            rd = self.arr_setup(st, d.reg, ety)
            cnt = ediv(n, rs.es)
            ok = self.obligation(st, 'bounds', band(le(0, s.off), le(add(s.off, cnt), rs.n)), 'memcpy reads inside the array')
            ok = ok and self.obligation(st, 'bounds', band(le(0, d.off), le(add(d.off, cnt), rd.n)), 'memcpy writes inside the array')
            if not ok:
                return False
            if not move and s.reg == d.reg:
                raise Unsupported('overlapping memcpy')
            src = rs.content
            rd = st.w(d.reg)
            rd.content = ACopy(rd.content, d.off, add(d.off, cnt), src, s.off)
            return True
        if rs.kind == 'cells' and rd.kind == 'cells' and isc(n) and isc(s.off) and isc(d.off):
            if not (s.off + n <= rs.size and d.off + n <= rd.size):
                return self.obligation(st, 'bounds', False, 'memcpy inside the object')
            items = [(o, c) for o, c in rs.cells.items() if s.off <= o and o + c[0] <= s.off + n]
            zs = [(max(lo, s.off), min(hi, s.off + n)) for lo, hi in rs.zero]
            r = st.w(d.reg)
            for o in [o for o, c in r.cells.items() if o < d.off + n and d.off < o + c[0]]:
                del r.cells[o]
            for lo, hi in zs:
                if lo < hi:
                    r.zero.append((lo - s.off + d.off, hi - s.off + d.off))
            for o, c in items:
                r.cells[o - s.off + d.off] = c
            return True
        # single element between an object and an array
        if isc(n) and n in (1, 4, 8):
            t = (rs.ety or rd.ety)
            if t is None:
                raise Unsupported('memcpy element type')
            v = self.load(st, s, t)
            return v is not None and self.store(st, d, t, v)
        raise Unsupported('memcpy between objects')

    # ---------------------------------------------------------------- operands
    def glob_ptr(self, st, name):
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        if name not in self.globreg:
            ty, v = llir.get_global(self.m, name)
            tmp = State(self)
            if ty is None or ty == 'opaque':
                rid = self.new_region(tmp, 'cells', 'global', 1 << 20, name)
            else:
                try:
                    size = self.m.sizeof(ty)
                except Exception:
                    size = 1 << 20
                rid = self.new_region(tmp, 'cells', 'stack', size, name)
                if v is not None:
                    try:
                        if v == ('zero',):
                            tmp.mem[rid].zero.append((0, size))
                        elif v[0] != 'cstr':
                            self.store(tmp, Ptr(rid, 0), ty, self.const(tmp, ty, v))
                    except Unsupported:
                        pass
                tmp.mem[rid].status = 'global'
            self.globreg[name] = rid
            self.globstates[rid] = tmp.mem[rid]
        rid = self.globreg[name]
        if rid not in st.mem:
            st.mem[rid] = self.globstates[rid]
        return Ptr(rid, 0)

    def const(self, st, ty, v):
        k = v[0]
        ty = self.m.resolve(ty) if isinstance(ty, tuple) else ty
        if k == 'int':
            if ty == 'ptr':
                raise Unsupported('int ptr')
            return const_canon(v[1], ty[1])
        if k == 'fp':
            if ty[1] not in ('double',):
                raise Unsupported('fp type ' + ty[1])
            return parse_fp(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            if ty == 'ptr':
                return Opaque('undef')
            return self.fresh_of(ty, 'undef')
        if k == 'zero':
            return self.zero_of(ty)
        if k == 'agg':
            return [self.const(st, t, x) for t, x in v[1]]
        if k == 'glob':
            return self.glob_ptr(st, v[1])
        if k == 'cexpr' and v[1] == 'gep':
            ety, ops = v[2], v[3]
            base = self.const(st, ops[0][0], ops[0][1])
            return self.gep(st, ety, base, [self.const(st, t, x) for t, x in ops[1:]], [t for t, _ in ops[1:]])
        raise Unsupported('constant %r' % (v,))

    def val(self, st, env, ty, v):
        if v[0] == 'reg':
            return env[v[1]]
        return self.const(st, ty, v)

    def gep(self, st, ety, base, idx, itys):
        cur = ety
        total = 0
        for n, (i, t) in enumerate(zip(idx, itys)):
            if n == 0:
                s = self.m.sizeof(cur)
                total = add(total, mul(self.signed(st, i, t[1]), s))
                scal = cur
            else:
                rt = self.m.resolve(cur)
                if rt[0] == 'st':
                    o, f = self.m.field(rt, i)
                    total = add(total, o)
                    cur = f
                elif rt[0] == 'arr':
                    cur = rt[2]
                    total = add(total, mul(self.signed(st, i, t[1]), self.m.sizeof(cur)))
                else:
                    raise Unsupported('gep')
        if isinstance(base, FnPtr) or isinstance(base, Opaque):
            return Opaque('gep')
        return self.ptr_add(st, base, total, cur)

    def signed(self, st, v, w):
        if w == 64:
            if isc(v):
                return v - M64 if v >= 2 ** 63 else v
            b = bounds(v)
            if b[1] is not None and b[1] < 2 ** 63:
                return v
            d = st.decide(lt(v, 2 ** 63))
            if d is True:
                return v
            if d is False:
                return sub(v, M64)
            return z3.If(v < 2 ** 63, v, v - M64)
        if w == 8:
            if isc(v):
                return v - 256 if v >= 128 else v
            b = bounds(v)
            if b[1] is not None and b[1] < 128:
                return v
            return z3.If(v < 128, v, v - 256)
        return v

    def unsigned(self, st, v, w):
        if w in (64, 8):
            return v
        if isc(v):
            return v + (1 << w) if v < 0 else v
        b = bounds(v)
        if b[0] is not None and b[0] >= 0:
            return v
        d = st.decide(le(0, v))
        if d is True:
            return v
        if d is False:
            return add(v, 1 << w)
        return z3.If(v >= 0, v, v + (1 << w))

    def wrap(self, st, v, w):
        if isc(v):
            return const_canon(int(v), w)
        lo, hi = canon_range(w)
        b = bounds(v)
        if b[0] is not None and b[1] is not None and lo <= b[0] and b[1] <= hi:
            return v
        if st.decide(band(le(lo, v), le(v, hi))) is True:
            return v
        if lo == 0:
            if st.decide(band(le(-(hi + 1), v), lt(v, 0))) is True:
                return add(v, hi + 1)
            if w == 64 and self.lenient:
                return v
            return I(v) % (hi + 1)
        m = 1 << w
        return (I(v) - lo) % m + lo

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isc(v):
            return bool(v & 1)
        if z3.is_bool(v):
            return v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b = v.arg(1), v.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long() & 1, b.as_long() & 1
                if x == 1 and y == 0:
                    return foldb(v.arg(0))
                if x == 0 and y == 1:
                    return bnot(v.arg(0))
        b = bounds(v)
        if b[0] is not None and b[1] is not None and b[0] >= 0 and b[1] <= 1:
            return v == 1
        return v % 2 == 1

    # ---------------------------------------------------------------- instructions
    def binop(self, st, op, ty, a, b, flags):
        if ty[0] == 'f':
            return fbin(op, a, b)
        w = ty[1]
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if a.p.reg == b.p.reg:
                    d = sub(a.p.off, b.p.off)
                    r = st.mem.get(a.p.reg) if a.p.reg else None
                    if r is not None and r.kind == 'arr':
                        d = mul(d, r.es or 1)
                    return self.wrap(st, d, w)
            raise Unsupported('pointer arithmetic on integers')
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                if b is True:
                    return bnot(a)
                if a is True:
                    return bnot(b)
                if b is False:
                    return a
                if a is False:
                    return b
                return z3.Xor(a, b)
            raise Unsupported(op)
        if op == 'add':
            sa = a - M64 if isc(a) and w == 64 and a >= 2 ** 63 else a
            sb = b - M64 if isc(b) and w == 64 and b >= 2 ** 63 else b
            return self.wrap(st, add(sa, sb), w)
        if op == 'sub':
            return self.wrap(st, sub(a, b), w)
        if op == 'mul':
            sa = a - M64 if isc(a) and w == 64 and a >= 2 ** 63 else a
            sb = b - M64 if isc(b) and w == 64 and b >= 2 ** 63 else b
            if not isc(sa) and not isc(sb):
                sa, sb = self.settled(st, sa), self.settled(st, sb)
            return self.wrap(st, mul(sa, sb), w)
        if op in ('udiv', 'urem'):
            a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
            if not self.obligation(st, 'division', bnot(eqv(b, 0)), 'divisor is not zero'):
                return None
            return self.wrap(st, ediv(a, b) if op == 'udiv' else emod(a, b), w)
        if op in ('sdiv', 'srem'):
            if not self.obligation(st, 'division', bnot(eqv(b, 0)), 'divisor is not zero'):
                return None
            a, b = self.signed(st, a, w), self.signed(st, b, w)
            if isc(a) and isc(b):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return self.wrap(st, q if op == 'sdiv' else a - q * b, w)
            if isc(b) and b > 0:
                p = poly(I(a))
                if all(v % b == 0 for v in p.values()):
                    return self.wrap(st, ediv(a, b) if op == 'sdiv' else 0, w)
            an, bn = st.decide(le(0, a)), st.decide(lt(0, b))
            if an and bn:
                return self.wrap(st, ediv(a, b) if op == 'sdiv' else emod(a, b), w)
            na, nb = sub(0, a), sub(0, b)
            aa = ite(le(0, a), a, na)
            bb = ite(lt(0, b), b, nb)
            if op == 'sdiv':
                q = ediv(aa, bb)
                return self.wrap(st, ite(eqv(lt(a, 0), lt(b, 0)), q, sub(0, q)), w)
            r = emod(aa, bb)
            return self.wrap(st, ite(lt(a, 0), sub(0, r), r), w)
        if isc(a) and isc(b):
            ua, ub = a & ((1 << w) - 1), b & ((1 << w) - 1)
            r = {'and': ua & ub, 'or': ua | ub, 'xor': ua ^ ub, 'shl': ua << (ub % w), 'lshr': ua >> (ub % w),
                 'ashr': a >> (ub % w)}[op]
            return const_canon(r, w)
        if op == 'shl' and isc(b):
            return self.wrap(st, mul(a, 1 << b), w)
        if op == 'lshr' and isc(b):
            return self.wrap(st, ediv(self.unsigned(st, a, w), 1 << b), w)
        if op == 'ashr' and isc(b):
            return self.wrap(st, fold(z3.simplify(I(self.signed(st, a, w)) / (1 << b))), w)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isc(y) and y >= 0 and (y & (y + 1)) == 0:
                    return emod(self.unsigned(st, x, w), y + 1)
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if isc(y) and (y & ((1 << w) - 1)) == (1 << w) - 1:
                    return self.wrap(st, sub(-1, x) if w != 64 else sub(M64 - 1, x), w)
        if op in ('and', 'or', 'xor'):
            # 0/1 valued operands
            ba, bb = bounds(a), bounds(b)
            if ba[0] == 0 and ba[1] == 1 and bb[0] == 0 and bb[1] == 1:
                x, y = self.tobool(a), self.tobool(b)
                z = band(x, y) if op == 'and' else bor(x, y) if op == 'or' else z3.Xor(B(x), B(y))
                return ite(z, 1, 0)
        lo, hi = canon_range(w)
        u = freshf('bit_' + op, Iso, Iso, Iso)
        RANGES[u.name()] = (lo, hi)
        return u(I(a), I(b))

    def settled(self, st, t):
        """t without the conditionals and remainders that the path condition decides"""
        for _ in range(12):
            if isc(t):
                return t
            hit, seen, todo = None, set(), [t]
            while todo and hit is None:
                x = todo.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_ITE:
                    d = st.decide(x.arg(0))
                    if d is not None:
                        hit = (x, x.arg(1) if d else x.arg(2))
                elif x.decl().eq(imod) or x.decl().kind() == z3.Z3_OP_MOD:
                    if st.decide(z3.And(x.arg(0) >= 0, x.arg(0) < x.arg(1))) is True:
                        hit = (x, x.arg(0))
                todo.extend(x.children())
            if hit is None:
                return t
            t = norm2(z3.substitute(I(t), hit))
        return t

    def icmp(self, st, pred, ty, a, b):
        if ty == 'ptr':
            return self.pcmp(st, pred, a, b)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            x = a.p if isinstance(a, PtrInt) else NULL
            y = b.p if isinstance(b, PtrInt) else NULL
            return self.pcmp(st, pred, x, y)
        w = ty[1]
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return eqv(a, b)
            if pred == 'ne':
                return bnot(eqv(a, b))
            raise Unsupported('icmp i1')
        if pred == 'eq':
            return eqv(a, b)
        if pred == 'ne':
            return bnot(eqv(a, b))
        if pred[0] == 's':
            a, b = self.signed(st, a, w), self.signed(st, b, w)
        else:
            a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
        c = pred[1:]
        return {'lt': lambda: lt(a, b), 'le': lambda: le(a, b), 'gt': lambda: lt(b, a), 'ge': lambda: le(b, a)}[c]()

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fresh('pcmp', Bso)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        elif a.reg == b.reg:
            if pred in ('eq', 'ne'):
                e = eqv(a.off, b.off)
            else:
                c = pred[1:]
                x, y = a.off, b.off
                return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x), 'ge': lambda: le(y, x)}[c]()
        else:
            e = False
            if pred not in ('eq', 'ne'):
                # order of unrelated objects: unspecified
                return fresh('porder', Bso)
        return e if pred == 'eq' else bnot(e)

    def cast(self, st, op, fty, ty, v):
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            return Opaque('inttoptr')
        if op in ('trunc', 'zext', 'sext') and isinstance(v, PtrInt):
            return v
        if op == 'trunc':
            if ty[1] == 1:
                return self.tobool(v)
            if isc(v):
                return const_canon(int(v), ty[1])
            x = v
            if fty[1] == 64:
                lo, hi = canon_range(ty[1])
                if lo < 0 and st.decide(band(le(0, v), le(v, hi))) is not True:
                    x = self.signed(st, v, 64)
            return self.wrap(st, x, ty[1])
        if op == 'zext':
            if fty[1] == 1:
                return int(v) if isinstance(v, bool) else ite(v, 1, 0)
            return self.unsigned(st, v, fty[1])
        if op == 'sext':
            if fty[1] == 1:
                m = -1 if ty[1] != 64 else M64 - 1
                return (m if v else 0) if isinstance(v, bool) else ite(v, m, 0)
            s = self.signed(st, v, fty[1])
            if ty[1] == 64:
                if isc(s):
                    return s % M64
                b = bounds(s)
                if b[0] is not None and b[0] >= 0:
                    return s
                d = st.decide(le(0, s))
                if d is True:
                    return s
                if d is False:
                    return add(s, M64)
                return z3.If(s >= 0, s, s + M64)
            return s
        if op in ('uitofp', 'sitofp'):
            w = fty[1]
            if w == 1:
                v = int(v) if isinstance(v, bool) else ite(self.tobool(v), 1, 0)
                if op == 'sitofp':
                    v = sub(0, v)
            else:
                v = self.unsigned(st, v, w) if op == 'uitofp' else self.signed(st, v, w)
            if ty[1] != 'double':
                raise Unsupported('float')
            if isc(v) and abs(v) < 2 ** 53:
                return fconst(Fraction(int(v)))
            return i2f(I(v))
        if op in ('fptoui', 'fptosi'):
            w = ty[1]
            if op == 'fptoui':
                lo, hi = 0, (1 << w) - 1
            else:
                lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
            fr = fval_const(v)
            if fr is not None:
                t = int(fr)
                if lo <= t <= hi:
                    return const_canon(t, w)
            if v.decl().eq(i2f):
                n = v.arg(0)
                if st.decide(band(le(max(lo, -2 ** 53), n), le(n, min(hi, 2 ** 53)))) is True:
                    return self.recanon(st, fold(n), w)
            tm = None
            if v.decl().name() == 'm_fmul' or v.decl().eq(bfun('fmul')):
                for x, y in ((v.arg(0), v.arg(1)), (v.arg(1), v.arg(0))):
                    c = fval_const(x)
                    if c is not None and 1 <= c <= 2 and y.decl().eq(i2f):
                        n = fold(y.arg(0))
                        top = min(2 ** 52 if not 1 + Fraction(1, 2 ** 40) < c < 2 - Fraction(1, 2 ** 40) else hi // 2, hi // 2)
                        if st.decide(band(le(0, n), le(n, top))) is True:
                            return self.recanon(st, trmul(c, n), w)
                        if canon_range(w)[1] >= hi:
                            tm = (z3.And(I(n) >= 0, I(n) <= top), trmul(c, n))
            inr = z3.And(z3.Not(nan(v)), val(v) > lo - 1, val(v) < hi + 1)
            if st.decide(inr) is True:
                nonneg = st.decide(val(v) > -1) is True
                t = z3.ToInt(val(v)) if nonneg and st.decide(val(v) >= 0) is True else ftrunc_int(v)
                return self.recanon(st, t, w)
            clo, chi = canon_range(w)
            ubf = z3.Function('ub_%s_%d' % (op, w), F, Iso)
            RANGES[ubf.name()] = (clo, chi)
            self.trusted.add('conversion of a NaN or out-of-range double to an integer yields an arbitrary value of the type')
            ub = ubf(v)
            t = ftrunc_int(v)
            if clo == 0 and lo < 0:
                t = z3.If(t < 0, t + M64, t)
            elif lo == 0 and clo < 0:
                t = z3.If(t > chi, t - (1 << w), t)
            r = z3.If(inr, t, ub)
            if tm is not None:
                r = z3.If(tm[0], I(tm[1]), r)
            _bc_set(r, clo, chi)
            return r
        if op == 'fpext' or op == 'fptrunc':
            raise Unsupported(op)
        raise Unsupported(op)

    def recanon(self, st, t, w):
        clo, chi = canon_range(w)
        if isc(t):
            return const_canon(t, w)
        if st.decide(band(le(clo, t), le(t, chi))) is True:
            return t
        return self.wrap(st, t, w)


def _bc_set(t, lo, hi):
    import terms
    terms._bc[t.get_id()] = (t, (lo, hi))


def short(d):
    d = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>', 'string', d)
    d = re.sub(r', etr::(Base|Buffer|Variable|Vector|Borrow|Subset|RVec|RBuf|SubVec)\w*Trait', '', d)
    return d[:160]


def demangle_all(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))
