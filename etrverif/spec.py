"""Specification layer: symbolic input objects satisfying the class invariant, views of
the objects after the call, frame and leak conditions."""
import z3, time, sys
sys.setrecursionlimit(20000)
from fractions import Fraction
import llir, terms
from terms import *
from symex import *
from engine import Engine, Out

SZMAX = 2 ** 31 - 1

_F = ('f', 'double')
ELT = {'D': _F, 'I': ('i', 32), 'B': ('i', 8), 'S': ('i', 64)}
ESZ = {'D': 8, 'I': 4, 'B': 1, 'S': 8}


class Layout:
    """offsets printed by the C++ compiler into constants lay_<N>"""
    def __init__(self, m):
        self.m = m
        self.c = {}

    def get(self, n):
        if n not in self.c:
            ty, v = llir.get_global(self.m, 'lay_' + n)
            self.c[n] = [x[1][1] for x in v[1]]
        return self.c[n]


STORE_F = ('p', 'sz', 'capacity', 'allocated', 'ismatrix', 'rows', 'cols')
STORE_W = (8, 8, 8, 1, 1, 8, 8)


class Store:
    """handle on a BaseStore/Borrow-like object at (region, offset)"""
    def __init__(self, rid, base, offs, T):
        self.rid, self.base, self.offs, self.T = rid, base, offs, T
        self.init = {}
        self.arr = None

    def f(self, st, name):
        i = STORE_F.index(name)
        r = st.mem[self.rid]
        c = r.cells.get(self.base + self.offs[i])
        if c is None:
            for lo, hi in reversed(r.zero):
                if lo <= self.base + self.offs[i] < hi:
                    return NULL if name == 'p' else 0
            raise Unsupported('field %s undefined' % name)
        v = c[1]
        return v

    def set(self, st, name, v):
        i = STORE_F.index(name)
        r = st.w(self.rid)
        r.cells[self.base + self.offs[i]] = (STORE_W[i], v)

    def elt(self, st, i):
        p = self.f(st, 'p')
        if not isinstance(p, Ptr) or p.reg is None or p.reg not in st.mem:
            raise Unsupported('no storage')
        r = st.mem[p.reg]
        if r.content is None and r.zero:
            r = st.mem[p.reg] = st.ex.typed(r, ELT[self.T])
        if r.content is None:
            return None
        return aselect(r.content, add(p.off, i), st)


class Case:
    """one verification case: initial state, call, outcomes"""
    def __init__(self, mod, dem, name, contracts=(), budget=120):
        self.name = name
        self.ex = Engine(mod, dem)
        self.ex.contracts = list(contracts)
        self.ex.deadline = time.time() + budget
        self.st = State(self.ex)
        self.lay = Layout(mod)
        self.objs = []
        self.sk = []
        self.notes = []
        self.reach = set()
        self.hints = []

    # ------------------------------------------------------------ inputs
    def size(self, name, lo=1, hi=SZMAX):
        v = bounded(name, lo, hi)
        self.hints.append((name, v))
        return v

    def array(self, T, n, name, status='heap'):
        u = freshf('in_' + name, Iso, F if T == 'D' else Iso)
        if T != 'D':
            lo, hi = {'I': (-2 ** 31, 2 ** 31 - 1), 'B': (0, 1), 'S': (0, M64 - 1)}[T]
            RANGES[u.name()] = (lo, hi)
        rid = self.ex.new_region(self.st, 'arr', status, mul(n, ESZ[T]), name, es=ESZ[T], ety=ELT[T], n=n, content=ABase(lambda i: u(I(i))))
        return rid, u

    def fill_store(self, s, T, name, alloc=True, matrix='any', sz=None, owned=True, status=None):
        st = self.st
        if alloc:
            n = sz if sz is not None else bounded(name + '.sz', 0, SZMAX) if alloc == 'any' else self.size(name + '.sz')
            if owned:
                cap = bounded(name + '.cap', 1, 2 ** 33)
                st.assume(le(n, cap))
            else:
                cap = bounded(name + '.cap', 1, SZMAX) if owned is None else n
                if owned is None:
                    st.assume(le(n, cap))
            blen = cap
            if owned or owned is None:
                # the block may be longer than the capacity (push_back)
                blen = bounded(name + '.len', 1, 2 ** 34)
                st.assume(le(cap, blen))
            rid, u = self.array(T, blen, name, status or ('heap' if owned else 'ext'))
            s.arr, s.u = rid, u
            s.set(st, 'p', Ptr(rid, 0))
            s.set(st, 'sz', n)
            s.set(st, 'capacity', cap)
            s.set(st, 'allocated', 1)
        else:
            n, cap = 0, 0
            s.u = None
            s.set(st, 'p', NULL)
            s.set(st, 'sz', 0)
            s.set(st, 'capacity', 0)
            s.set(st, 'allocated', 0)
        if matrix is True or matrix == 'any':
            r, c = bounded(name + '.nr', 0, SZMAX), bounded(name + '.nc', 0, SZMAX)
            if matrix is True:
                im = 1
                st.assume(z3.And(r >= 1, c >= 1))
                st.assume(eqv(mul(r, c), n))
            else:
                im = bounded(name + '.im', 0, 1)
                st.assume(z3.Or(z3.And(im == 1, r >= 1, c >= 1, B(eqv(mul(r, c), n))), z3.And(im == 0)))
            self.hints += [(name + '.nr', r), (name + '.nc', c), (name + '.im', I(im))]
        else:
            im, r, c = 0, 0, 0
        s.set(st, 'ismatrix', im)
        s.set(st, 'rows', r)
        s.set(st, 'cols', c)
        s.n, s.cap, s.im, s.nr, s.nc, s.T, s.name = n, cap, im, r, c, T, name

    def vec(self, T, name, alloc=True, matrix=False, temp=None, sz=None, layname=None, owned=True):
        """a Vec<T> over a Buffer (owned) or Borrow"""
        L = self.lay.get(layname or ('V' + T))
        rid = self.ex.new_region(self.st, 'cells', 'ext', L[0], name)
        d = Store(rid, 0, L[2:9], T)
        self.fill_store(d, T, name, alloc, matrix, sz, owned)
        # temp is a Buffer<T>
        t = Store(rid, 0, L[10:17], T)
        self.fill_store(t, T, name + '.temp', 'any' if temp in ('any', 'alloc') else False, False)
        d.temp = t
        d.ptr = Ptr(rid, 0)
        d.vrid = rid
        d.owned = owned is True
        self.objs.append(d)
        return d

    def buf(self, T, name, alloc=True, matrix='any', sz=None, layname=None):
        """a Buffer / BaseStore on its own"""
        L = self.lay.get(layname or ('B' + T))
        rid = self.ex.new_region(self.st, 'cells', 'ext', L[0], name)
        d = Store(rid, 0, L[2:9], T)
        self.fill_store(d, T, name, alloc, matrix, sz)
        d.temp = None
        d.ptr = Ptr(rid, 0)
        d.vrid = rid
        d.owned = True
        self.objs.append(d)
        return d

    def raw(self, T, name, layname=None, vec=True):
        """uninitialised memory for an object that the call constructs"""
        L = self.lay.get(layname or (('V' if vec else 'B') + T))
        rid = self.ex.new_region(self.st, 'cells', 'ext', L[0], name)
        d = Store(rid, 0, L[2:9], T)
        d.arr, d.u, d.T, d.name, d.temp = None, None, T, name, None
        if vec:
            t = d.temp = Store(rid, 0, L[10:17], T)
            t.arr, t.u, t.T, t.name = None, None, T, name + '.temp'
            t.owned = True
        d.ptr = Ptr(rid, 0)
        d.vrid = rid
        d.owned = True
        d.israw = True
        self.objs.append(d)
        return d

    def filt(self, b):
        """counting/selection function of a predicate over indices: cnt(k) = #{i<k: b(i)},
        sel(j) = position of the j-th such i"""
        f = Filt(b)
        f.ex = self.ex
        return f

    def scatter(self, ix):
        """last write function of a sequence of positions: last(i, n) = the largest k < n
        with ix(k) == i, or -1"""
        f = Scat(ix)
        f.ex = self.ex
        return f

    def every(self, v, n, fn):
        """precondition: fn(element k of v) for all 0 <= k < n"""
        nm = v.u.name()
        EXTRA_AX[nm] = lambda a: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < I(n)), B(fn(a)))]

    def scalar(self, T, name):
        if T == 'D':
            v = fresh(name, F)
        elif T == 'B':
            v = fresh(name, Bso)
        else:
            v = bounded(name, *{'I': (-2 ** 31, 2 ** 31 - 1), 'S': (0, M64 - 1)}[T])
        self.hints.append((name, v))
        return v

    def ref(self, T, v):
        """a scalar in memory"""
        rid = self.ex.new_region(self.st, 'cells', 'ext', ESZ[T], 'scalar')
        self.st.w(rid).cells[0] = (ESZ[T], ite(v, 1, 0) if T == 'B' else v)
        return Ptr(rid, 0)

    def assume(self, c):
        self.st.assume(c)

    # ------------------------------------------------------------ execution
    def call(self, fname, args):
        self.pre = self.st.copy()
        if not self.st.feasible():
            raise Unsupported('the precondition of %s is unsatisfiable' % self.name)
        outs = self.ex.call(self.st.copy(), fname, args)
        return [o for o in outs if o.st.feasible()]

    def run(self, fname, args):
        """call; returns the outcomes by kind and records which ones are reachable"""
        args = [a.ptr if isinstance(a, Store) else a for a in args]
        outs = self.call(fname, args)
        for o in outs:
            self.reach.add(o.kind)
        return outs

    def returns(self, fname, args):
        return [o for o in self.run(fname, args) if o.kind == 'ret']

    def index(self, st, n, name='q'):
        """an arbitrary index 0 <= j < n (universally quantified by being fresh)"""
        j = fresh(name, Iso)
        st.assume(z3.And(j >= 0, j < I(n)))
        return j

    def forall_elts(self, st, s, n, fn, what):
        """s has exactly n elements and element j equals fn(j)"""
        self.require(st, what + ': number of elements', eqv(s.f(st, 'sz'), n))
        st2 = st.copy()
        if isc(n) and n <= 0:
            return
        j = self.index(st2, n)
        self.instances(st2, j)
        e = fn(j)
        p = s.f(st2, 'p')
        if not isinstance(p, Ptr) or p.reg is None or p.reg not in st2.mem:
            # no storage: right only when there is no element
            self.require(st2, what + ': elements are stored', False)
            return
        v = s.elt(st2, j)
        if v is None:
            self.require(st2, what + ': element j is defined', False)
            return
        self.require(st2, what + ': element j', eqv(v, e))

    def instances(self, st, j):
        for lo, hi, f in getattr(st, 'fa', ()):
            try:
                fj = B(f(j))
                st.assume(z3.Implies(z3.And(B(le(lo, j)), B(lt(j, hi))), fj))
                if self.mirrored(fj, j):
                    # a loop that runs backwards: element j is handled by iteration lo+hi-1-j
                    m = add(add(lo, hi), add(mul(-1, j), -1))
                    st.assume(z3.Implies(z3.And(B(le(lo, m)), B(lt(m, hi))), B(f(m))))
            except Exception:
                pass

    def mirrored(self, t, j):
        if isc(j):
            return False
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == -1 and x.arg(1).eq(j):
                return True
            todo.extend(x.children())
        return False

    def shape(self, st, s, im, nr=None, nc=None, what='shape'):
        self.require(st, what + ': matrix flag', eqv(ite(s.f(st, 'ismatrix'), 1, 0) if isinstance(s.f(st, 'ismatrix'), (bool, z3.BoolRef)) else s.f(st, 'ismatrix'), im))
        if nr is not None:
            m = eqv(im, 1)
            self.require(st, what + ': rows', implies(m, eqv(s.f(st, 'rows'), nr)))
            self.require(st, what + ': columns', implies(m, eqv(s.f(st, 'cols'), nc)))

    def clean(self, o, changed, what='frame', dead=(), also=()):
        """memory discipline on one outcome: only `changed` objects were written, every live
        block has one owner, class invariants hold"""
        st = o.st
        ok = list(also)
        for s in changed:
            ok += [s.vrid]
            if s.arr is not None:
                ok.append(s.arr)
            if getattr(s, 'temp', None) is not None and s.temp.arr is not None:
                ok.append(s.temp.arr)
        self.frame(st, ok, what)
        roots = []
        for s in self.objs:
            if s in dead:
                continue
            roots.append(s)
            if getattr(s, 'temp', None) is not None:
                roots.append(s.temp)
        self.noleak(st, roots, 'ownership')
        for s in changed:
            if s in dead:
                continue
            if s.owned:
                self.wf(st, s)
            if getattr(s, 'temp', None) is not None:
                self.wf(st, s.temp)

    def thrown(self, o, s, what='after an exception'):
        """the exceptional contract: s keeps its elements, size and dimensions; every block has one owner"""
        st = o.st
        for f in ('p', 'sz', 'capacity', 'allocated', 'ismatrix', 'rows', 'cols'):
            a, b = s.f(st, f), s.f(self.pre, f)
            if a is b:
                continue
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                same = isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and eqv(a.off, b.off) is True
                self.require(st, '%s: %s keeps its storage' % (what, s.name), same)
            else:
                self.require(st, '%s: %s of %s unchanged' % (what, f, s.name), eqv(a, b))
        if s.arr is not None:
            r, q = self.pre.mem[s.arr], st.mem[s.arr]
            if q.content is not r.content:
                j = fresh('fr', Iso)
                t = st.copy()
                t.assume(z3.And(j >= 0, j < I(s.n)))
                self.require(t, '%s: elements of %s unchanged' % (what, s.name), q.content is not None and eqv(aselect(q.content, j, None), aselect(r.content, j, None)))
        self.clean(o, [s], what)

    def require(self, st, what, cond):
        s = st.copy()
        return self.ex.obligation(s, 'ensures', cond, what)

    # frame: everything that existed before, except `allowed` regions, is unchanged
    def frame(self, st, allowed=(), what='frame'):
        for rid, r in self.pre.mem.items():
            if rid in allowed or r.status == 'global':
                continue
            q = st.mem.get(rid)
            if q is r:
                continue
            if q is None or q.status != r.status:
                self.require(st, '%s: object %s stays alive and owned' % (what, r.name), False)
                continue
            if r.kind == 'cells':
                for o, c in r.cells.items():
                    c2 = q.cells.get(o)
                    if c2 is c:
                        continue
                    if c2 is None or not self.ex.item_equal(st, _It(c[1]), c2[1], c[1]):
                        self.require(st, '%s: field +%d of %s unchanged' % (what, o, r.name), False)
            elif q.content is not r.content:
                j = fresh('fr', Iso)
                s = st.copy()
                s.assume(z3.And(j >= 0, j < I(r.n)))
                self.require(s, '%s: contents of %s unchanged' % (what, r.name), eqv(aselect(q.content, j, None), aselect(r.content, j, None)))

    def noleak(self, st, roots, what='ownership'):
        """every block allocated during the call that is still alive is reachable through the
        owning pointer of exactly one root store; no root refers to a dead block"""
        own = {}
        for s in roots:
            p = s.f(st, 'p')
            al = s.f(st, 'allocated')
            if isinstance(p, Ptr) and p.reg is not None:
                r = st.mem.get(p.reg)
                if r is None or r.status == 'freed':
                    self.require(st, '%s: %s does not keep a released pointer' % (what, s.name), False)
                    continue
                own.setdefault(p.reg, []).append(s)
        for rid in list(st.newheap) + [s.arr for s in self.objs + [o.temp for o in self.objs if getattr(o, 'temp', None)] if s.arr is not None and self.pre.mem[s.arr].status == 'heap']:
            if st.mem[rid].status == 'freed':
                continue
            n = len(own.get(rid, []))
            self.require(st, '%s: every live block has exactly one owner (block %s: %d)' % (what, st.mem[rid].name, n), n == 1)
            if n == 1:
                self.require(st, '%s: the owner of block %s is marked allocated' % (what, st.mem[rid].name), eqv(own[rid][0].f(st, 'allocated'), 1))

    def wf(self, st, s, what='invariant'):
        """class invariant of an owning store"""
        p, sz, cap, al = s.f(st, 'p'), s.f(st, 'sz'), s.f(st, 'capacity'), s.f(st, 'allocated')
        if not isinstance(p, Ptr):
            self.require(st, '%s of %s: pointer initialised' % (what, s.name), False)
            return
        if p.reg is None:
            self.require(st, '%s of %s: null pointer implies empty, unallocated' % (what, s.name),
                         band(eqv(al, 0), eqv(sz, 0), eqv(cap, 0)))
            return
        r = st.mem.get(p.reg)
        self.require(st, '%s of %s: storage alive' % (what, s.name), r is not None and r.status != 'freed' and eqv(p.off, 0) is True)
        self.require(st, '%s of %s: allocated' % (what, s.name), eqv(al, 1))
        if r is not None and r.status != 'freed':
            n = r.n if r.n is not None else ediv(r.size, ESZ[s.T])
            self.require(st, '%s of %s: size <= capacity = block length' % (what, s.name), band(le(sz, cap), le(cap, n)))

    def results(self):
        return self.ex.obls


class _It:
    def __init__(self, v):
        self.kind = 'cell'
