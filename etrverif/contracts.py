"""Contracts of the library's own storage helpers (BaseStore, Borrow).

Each contract lists behaviours: a guard over the state before the call, the kind of outcome, and its effects (fields set,
fields chosen within a constraint, a fresh block with given elements, elements written, blocks released, value returned);
everything not listed stays as it was.  The same list is used twice in every run:

* `cases` verifies it against the body found in the module, from an arbitrary state satisfying the class invariant;
* `handlers` applies it at the call sites of the other functions of the module, in the place of the body.

A contract some obligation of which was not discharged in this run is not applied: its callers go through the body.
Where the precondition of a contract (the class invariant of its arguments) cannot be shown at a call site, that call goes
through the body as well.
"""
import re
import z3
from terms import *
from symex import *
from engine import Out
import spec
from spec import Store, ELT, ESZ, STORE_F

CXX = {'double': 'D', 'int': 'I', 'bool': 'B', 'unsigned long': 'S'}
NAME = {v: k for k, v in CXX.items()}
BIG = 2 ** 63 - 1
CAPMAX = 2 ** 47


class Effect:
    def __init__(self, guard, kind='ret', sets=(), block=None, writes=(), free=(), val=None):
        self.guard, self.kind, self.sets, self.writes, self.free, self.val = guard, kind, list(sets), list(writes), list(free), val
        self.block = block      # (store, least capacity, defined elements, element function)


def zero(T):
    return fconst(Fraction(0)) if T == 'D' else 0


def flag(v):
    return ite(v, 1, 0) if isinstance(v, (bool, z3.BoolRef)) else v


class View(Store):
    """the store an argument points to; None fields when the class invariant cannot be shown"""
    def __init__(self, ex, st, p, T, offs, owned=True):
        if not isinstance(p, Ptr) or p.reg is None or p.reg not in st.mem or not isc(p.off):
            raise NotHere
        r = st.mem[p.reg]
        if r.kind != 'cells' or r.status == 'freed':
            raise NotHere
        Store.__init__(self, p.reg, p.off, offs, T)
        self.ptr, self.owned = p, owned
        try:
            self.v = {n: self.f(st, n) for n in STORE_F}
        except Unsupported:
            raise NotHere
        for n in ('sz', 'capacity', 'allocated', 'ismatrix', 'rows', 'cols'):
            if isinstance(self.v[n], (Ptr, Opaque, FnPtr, PtrInt, list)):
                raise NotHere
        self.n, self.cap, self.al = self.v['sz'], self.v['capacity'], flag(self.v['allocated'])
        self.data = self.v['p']
        if not isinstance(self.data, Ptr):
            raise NotHere

    def ready(self, st):
        """class invariant; -> True allocated, False not allocated"""
        a = st.decide(eqv(self.al, 1))
        if a is None:
            raise NotHere
        if not a:
            if self.data.reg is not None or st.decide(band(eqv(self.al, 0), eqv(self.n, 0), eqv(self.cap, 0))) is not True:
                raise NotHere
            return False
        r = st.mem.get(self.data.reg) if self.data.reg is not None else None
        if r is None or r.kind != 'arr' or r.status == 'freed' or eqv(self.data.off, 0) is not True:
            raise NotHere
        if self.owned and r.status != 'heap':
            raise NotHere
        if r.es is None or r.ety is None:
            r = st.mem[self.data.reg] = st.ex.typed(r, ELT[self.T])
        if r.ety != ELT[self.T][:2]:
            raise NotHere
        if st.decide(band(le(self.n, self.cap), le(self.cap, r.n))) is not True:
            raise NotHere
        return True

    def old(self, st):
        """element function before the call"""
        c = st.mem[self.data.reg].content
        return lambda j: aselect(c, j, None)


class NotHere(Exception):
    """the precondition cannot be shown: the body is used"""


def fields(s, src):
    return [(s, n, src.v[n]) for n in ('ismatrix', 'rows', 'cols')]


# ------------------------------------------------------------------ the contracts
def at_const(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L, owned=False)
    if not s.ready(st):
        return [Effect(True, 'exc')]
    r = st.mem[s.data.reg]
    return [Effect(lt(a[1], s.n), val=lambda t: aselect(r.content, a[1], t)), Effect(le(s.n, a[1]), 'exc')]


def at_ref(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L, owned=False)
    if not s.ready(st):
        return [Effect(True, 'exc')]
    return [Effect(lt(a[1], s.n), val=Ptr(s.data.reg, a[1])), Effect(le(s.n, a[1]), 'exc')]


def init(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L)
    al = s.ready(st)
    return [Effect(lt(BIG, a[1]), 'exc'),
            Effect(le(a[1], BIG), sets=[(s, 'sz', a[1])], block=(s, a[1], 0, None), free=[s] if al else [])]


def resize(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L)
    al = s.ready(st)
    n = a[1]
    out = [Effect(bor(lt(n, 1), lt(BIG, n)), 'exc') if not al else Effect(bor(lt(n, 1), band(lt(s.cap, n), lt(BIG, n))), 'exc'),
           Effect(band(le(1, n), le(n, BIG), lt(s.cap, n) if al else True), sets=[(s, 'sz', n)], block=(s, n, n, lambda j: zero(T)), free=[s] if al else [])]
    if al:
        out.append(Effect(band(le(1, n), le(n, s.cap)), sets=[(s, 'sz', n)]))
    return out


def realloc(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L)
    al = s.ready(st)
    n = a[1]
    old = s.old(st) if al else None
    fn = (lambda j: ite(lt(j, s.n), old(j), zero(T))) if al else (lambda j: zero(T))
    return [Effect(lt(BIG, n), 'exc'), Effect(le(n, BIG), sets=[(s, 'sz', n)], block=(s, n, n, fn), free=[s] if al else [])]


def push_back(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L)
    al = s.ready(st)
    x = a[1]
    if T == 'B':
        x = flag(x)
    if not al:
        return [Effect(True, sets=[(s, 'sz', 1)], block=(s, 1, 1, lambda j: x))]
    if st.decide(le(s.n, 2 ** 40)) is not True:
        raise NotHere
    old = s.old(st)
    more = add(s.n, 1)
    return [Effect(lt(s.n, s.cap), sets=[(s, 'sz', more)], writes=[(s, s.n, more, lambda j: x)]),
            Effect(eqv(s.n, s.cap), sets=[(s, 'sz', more)], block=(s, more, more, lambda j: ite(eqv(j, s.n), x, old(j))), free=[s])]


def destroy(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L)
    if not s.ready(st):
        return [Effect(True)]
    return [Effect(True, sets=[(s, n, v) for n, v in EMPTY[:4]], free=[s])]


def made(ex, st, a, T, L):
    """the object a constructor is given: nothing is known of its memory"""
    p = a[0]
    if not isinstance(p, Ptr) or p.reg is None or p.reg not in st.mem or not isc(p.off):
        raise NotHere
    r = st.mem[p.reg]
    if r.kind != 'cells' or r.status == 'freed':
        raise NotHere
    s = Store(p.reg, p.off, L, T)
    s.ptr, s.owned, s.v, s.data = p, True, None, None
    return s


EMPTY = [('p', NULL), ('sz', 0), ('capacity', 0), ('allocated', 0), ('ismatrix', 0), ('rows', 0), ('cols', 0)]


def default_ctor(ex, st, T, a, L):
    s = made(ex, st, a, T, L)
    return [Effect(True, sets=[(s, n, v) for n, v in EMPTY])]


def size_ctor(ex, st, T, a, L):
    s = made(ex, st, a, T, L)
    n = a[1]
    out = [Effect(lt(n, 1), 'exc')]
    mp = [(s, x, 0) for x in ('ismatrix', 'rows', 'cols')]
    out.append(Effect(lt(BIG, n), 'exc'))
    out.append(Effect(band(le(1, n), le(n, BIG)), sets=[(s, 'sz', n)] + mp, block=(s, n, n, lambda j: zero(T))))
    return out


def copy_ctor(ex, st, T, a, L):
    s = made(ex, st, a, T, L)
    o = View(ex, st, a[1], T, L)
    if s.rid == o.rid and s.base == o.base:
        raise NotHere
    if not o.ready(st):
        return [Effect(True, sets=[(s, n, v) for n, v in EMPTY[:4]] + fields(s, o))]
    old = o.old(st)
    return [Effect(True, sets=[(s, 'sz', o.n)] + fields(s, o), block=(s, o.n, o.n, old))]


def move_ctor(ex, st, T, a, L):
    s = made(ex, st, a, T, L)
    o = View(ex, st, a[1], T, L)
    if s.rid == o.rid and s.base == o.base:
        raise NotHere
    o.ready(st)
    return [Effect(True, sets=[(s, n, o.v[n]) for n in STORE_F] + [(o, n, v) for n, v in EMPTY[:4]])]


def assign(ex, st, T, a, L):
    s, o = View(ex, st, a[0], T, L), View(ex, st, a[1], T, L)
    if s.rid == o.rid:
        if s.base == o.base:
            return [Effect(True, val=a[0])]
        raise NotHere
    al, oal = s.ready(st), o.ready(st)
    if al and oal and s.data.reg == o.data.reg:
        raise NotHere
    n = o.n
    out = [Effect(eqv(n, 0), sets=[(s, 'sz', 0)] + fields(s, o), val=a[0])]
    if not oal:
        return out
    if st.decide(le(n, BIG)) is not True:
        raise NotHere
    old = o.old(st)
    if al:
        out.append(Effect(band(le(1, n), le(n, s.cap)), sets=[(s, 'sz', n)] + fields(s, o), writes=[(s, 0, n, old)], val=a[0]))
    out.append(Effect(band(le(1, n), lt(s.cap, n) if al else True), sets=[(s, 'sz', n)] + fields(s, o), block=(s, n, n, old), free=[s] if al else [], val=a[0]))
    return out


def borrow_resize(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L, owned=False)
    n = a[1]
    return [Effect(bor(lt(n, 1), lt(s.cap, n)), 'exc'), Effect(band(le(1, n), le(n, s.cap)), sets=[(s, 'sz', n)])]


def borrow_init(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L, owned=False)
    if not isinstance(a[1], Ptr):
        raise NotHere
    return [Effect(True, sets=[(s, 'p', a[1]), (s, 'sz', a[2]), (s, 'capacity', a[2]), (s, 'allocated', 1)])]


def borrow_assign(ex, st, T, a, L):
    s, o = View(ex, st, a[0], T, L, owned=False), View(ex, st, a[1], T, L, owned=False)
    return [Effect(True, sets=[(s, n, o.v[n]) for n in STORE_F], val=a[0])]


def set_shape(ex, st, T, a, L):
    s = View(ex, st, a[0], T, L, owned=False)
    return [Effect(True, sets=[(s, 'ismatrix', flag(a[1])), (s, 'rows', a[2]), (s, 'cols', a[3])])]


# name after the class, behaviours, arguments made by the verification (this is always first)
ARG_N = lambda c, T: [c.scalar('S', 'n')]
ARG_X = lambda c, T: [c.scalar(T, 'x')]
ARG_O = 'store'
OWN, BOR = 'BaseStore', 'Borrow'
TABLE = [
    (OWN, 'operator[](unsigned long) const', at_const, ARG_N, 'any'),
    (OWN, 'operator[](unsigned long)', at_ref, ARG_N, 'any'),
    (OWN, 'init(unsigned long)', init, ARG_N, 'any'),
    (OWN, 'resize(unsigned long)', resize, ARG_N, 'any'),
    (OWN, 'realloc(unsigned long)', realloc, ARG_N, 'any'),
    (OWN, 'push_back(T)', push_back, ARG_X, 'any'),
    (OWN, '~BaseStore()', destroy, lambda c, T: [], 'any'),
    (OWN, 'BaseStore()', default_ctor, lambda c, T: [], 'raw'),
    (OWN, 'BaseStore(unsigned long)', size_ctor, ARG_N, 'raw'),
    (OWN, 'BaseStore(int)', size_ctor, lambda c, T: [c.scalar('I', 'n')], 'raw'),
    (OWN, 'BaseStore(S const&)', copy_ctor, ARG_O, 'raw'),
    (OWN, 'BaseStore(S&&)', move_ctor, ARG_O, 'raw'),
    (OWN, 'operator=(S const&)', assign, ARG_O, 'any'),
    (OWN, 'setMatrix(bool, unsigned long, unsigned long)', set_shape, lambda c, T: [c.scalar('B', 'm'), c.scalar('S', 'rows'), c.scalar('S', 'cols')], 'any'),
    (BOR, 'operator[](unsigned long) const', at_const, ARG_N, 'borrowed'),
    (BOR, 'operator[](unsigned long)', at_ref, ARG_N, 'borrowed'),
    (BOR, 'resize(unsigned long)', borrow_resize, ARG_N, 'borrowed'),
    (BOR, 'init(T*, unsigned long)', borrow_init, lambda c, T: [Ptr(c.array(T, c.size('m', 0), 'new', status='ext')[0], 0), c.scalar('S', 'n')], 'borrowed'),
    (BOR, 'operator=(S const&)', borrow_assign, ARG_O, 'borrowed'),
]


class Contract:
    def __init__(self, cls, sig, fn, args, how, cxx):
        self.cls, self.T, self.fn, self.args, self.how = cls, CXX[cxx], fn, args, how
        me = 'etr::%s<%s, etr::%sTrait>' % (cls, cxx, cls)
        self.key = '%s<%s>::%s' % (cls, cxx, sig.replace('T)', cxx + ')').replace('T*', cxx + '*').replace('S ', '%s<%s> ' % (cls, cxx)).replace('S&', '%s<%s>&' % (cls, cxx)))
        self.dem = me + '::' + sig.replace('T)', cxx + ')').replace('T*', cxx + '*').replace('S ', me + ' ').replace('S&', me + '&')
        self.symbols = []

    def offs(self, lay):
        L = lay.get('WD') if self.cls == BOR else lay.get('B' + self.T)
        return [x - L[1] for x in L[2:9]]


def find(mod, dem):
    """the contracts of functions the module defines"""
    out = []
    byname = {}
    for f in mod.funcs:
        byname.setdefault(dem.get(f, f), []).append(f)
    for row in TABLE:
        for cxx in CXX:
            if row[0] == BOR and cxx != 'double':
                continue
            k = Contract(*row, cxx)
            k.symbols = byname.get(k.dem, [])
            if k.symbols:
                out.append(k)
    return out


# ------------------------------------------------------------------ applying at a call site
def apply(ex, st, effects):
    outs = []
    for b in effects:
        d = st.decide(b.guard)
        if d is False:
            continue
        s = st.copy()
        if d is None:
            s.assume(B(b.guard))
        if b.block is not None:
            ex.trusted.add('operator new[] (returns a fresh block of the requested size' + (' or throws)' if getattr(ex, 'allocfail', False) else '; allocation failure is not modelled here)'))
            ex.trusted.add('a single allocation is smaller than 2^47 bytes (larger requests fail with std::bad_alloc)')
            if getattr(ex, 'allocfail', False):
                outs.append(Out(s.copy(), 'exc', None))
            t, least, nd, fn = b.block
            cap, n = bounded('cap', 0, CAPMAX), bounded('len', 0, CAPMAX)
            s.assume(B(le(least, cap)))
            s.assume(B(le(cap, n)))
            s.assume(B(le(mul(n, ESZ[t.T]), CAPMAX)))
            if not s.feasible():
                continue
            u = freshf('arr_new', Iso, F if t.T == 'D' else Iso)
            if t.T != 'D':
                RANGES[u.name()] = {'I': (-2 ** 31, 2 ** 31 - 1), 'B': (0, 1), 'S': (0, 2 ** 64 - 1)}[t.T]
            content = ABase(lambda i, u=u: u(I(i)))
            if fn is not None:
                content = ARange(content, 0, nd, lambda j, fn=fn: norm(t.T, fn(j)))
            rid = ex.new_region(s, 'arr', 'heap', mul(n, ESZ[t.T]), 'new', es=ESZ[t.T], ety=ELT[t.T][:2], n=n, content=content)
            s.newheap = s.newheap + (rid,)
        for t in b.free:
            s.w(t.data.reg).status = 'freed'
            s.newheap = tuple(x for x in s.newheap if x != t.data.reg)
        for t, lo, hi, fn in b.writes:
            r = s.w(t.data.reg)
            r.content = ARange(r.content, lo, hi, lambda j, fn=fn: norm(t.T, fn(j)))
        for t, f, v in b.sets:
            t.set(s, f, v)
        if b.block is not None:
            t.set(s, 'p', Ptr(rid, 0))
            t.set(s, 'capacity', cap)
            t.set(s, 'allocated', 1)
        v = b.val
        if callable(v):
            v = v(s)
        outs.append(Out(s, b.kind, v))
    return outs


def norm(T, v):
    return flag(v) if T == 'B' else v


def handlers(mod, dem, usable):
    """[(pattern, handler)] for Engine.contracts"""
    table = {}
    lay = spec.Layout(mod)
    for k in find(mod, dem) if usable else ():
        if k.key in usable:
            for f in k.symbols:
                table[f] = k
    if not table:
        return []

    def handle(ex, st, name, d, args):
        k = table.get(name)
        if k is None:
            return None
        try:
            eff = k.fn(ex, st, k.T, args, k.offs(lay))
        except NotHere:
            return None
        if not hasattr(ex, 'contracts_used'):
            ex.contracts_used = {}
        if ex.active:
            ex.contracts_used[k.key] = ex.contracts_used.get(k.key, 0) + 1
            ex.obls.append(Obl('precondition', 'class invariant at a call of ' + k.key, True, ex.where(), status='unsat'))
        outs = apply(ex, st, eff)
        if k.T == 'B' and k.fn is at_const:
            for o in outs:
                if o.kind == 'ret' and not isinstance(o.val, (bool, z3.BoolRef)):
                    o.val = eqv(o.val, 1)
        return outs
    return [(re.compile(''), handle)]


# ------------------------------------------------------------------ verifying against the body
def verify(k, symbol, how, oth):
    def go(c, allocfail=False):
        c.ex.allocfail = allocfail
        T = k.T
        L = k.offs(c.lay)
        lay = 'WD' if k.cls == BOR else 'B' + T
        mk = lambda n, alloc: (c.vec(T, n, alloc, matrix='any', layname='WD', owned=None) if k.cls == BOR else c.buf(T, n, alloc=alloc, matrix='any'))
        base = c.lay.get(lay)[1]
        if how == 'raw':
            s = c.raw(T, 'this', vec=False)
        else:
            s = mk('this', how)
        args = [Ptr(s.vrid, base)]
        o = None
        if k.args == ARG_O:
            if oth == 'same':
                args.append(args[0])
            else:
                o = mk('other', oth)
                args.append(Ptr(o.vrid, base))
        else:
            args += k.args(c, T)
        stores = [x for x in (s, o) if x is not None]
        for x in stores:
            x.base, x.offs = base, L        # the object itself, not the vector around it
        if k.fn is push_back and how == 'any':
            c.assume(B(le(s.n, 2 ** 40)))
        if k.fn is assign and o is not None:
            pass
        outs = c.run(symbol, args)
        pre = c.pre
        eff = k.fn(c.ex, pre, T, args, L)
        for out in outs:
            check_outcome(c, k, out, pre, eff, stores, allocfail)
    return go


def changed(c, st, x, want, pre, what):
    """fields of the store x are want[field] (None: left open)"""
    for n in STORE_F:
        if n not in want:
            continue
        w = want[n]
        got = x.f(st, n)
        if isinstance(w, Ptr) or isinstance(got, (Ptr, Opaque)):
            ok = isinstance(w, Ptr) and isinstance(got, Ptr) and w.reg == got.reg and (w.reg is None or eqv(w.off, got.off) is True)
            c.require(st, '%s: %s' % (what, n), ok)
        else:
            c.require(st, '%s: %s' % (what, n), eqv(flag(got), flag(w)))


def check_outcome(c, k, out, pre, effects, stores, allocfail):
    covered = []
    by = lambda t: next(x for x in stores if x.rid == t.rid and x.base == t.base)
    for b in effects:
        covered.append(b.guard)
        st = out.st.copy()
        st.assume(B(b.guard))
        if not st.feasible():
            continue
        nothing = False
        if out.kind != b.kind:
            if not (allocfail and b.block is not None and out.kind == 'exc'):
                c.require(st, 'the outcome is "%s"' % b.kind, False)
                continue
            nothing = True
        raised = out.kind == 'exc'
        free, writes, block = ([], [], None) if nothing else (b.free, b.writes, b.block)
        ok = [x.vrid for x in stores]
        # fields
        for x in stores:
            if getattr(x, 'israw', False) and raised:
                continue
            try:
                want = {} if getattr(x, 'israw', False) else {n: x.f(pre, n) for n in STORE_F}
            except Unsupported:
                want = {}
            if not nothing:
                for t, n, v in b.sets:
                    if by(t) is x:
                        want[n] = v
            if block is not None and by(block[0]) is x:
                p = x.f(st, 'p')
                good = isinstance(p, Ptr) and p.reg in out.st.newheap and eqv(p.off, 0) is True
                c.require(st, 'a new block is stored', good)
                if not good:
                    continue
                r = st.mem[p.reg]
                n = r.n if r.n is not None else ediv(r.size, ESZ[k.T])
                cap = x.f(st, 'capacity')
                c.require(st, 'needed size <= capacity <= length of the block', band(le(cap, n), le(block[1], cap)))
                c.require(st, 'marked as allocated', eqv(flag(x.f(st, 'allocated')), 1))
                for n in ('p', 'capacity', 'allocated'):
                    want.pop(n, None)
                if block[3] is not None:
                    s2 = st.copy()
                    j = c.index(s2, block[2])
                    c.instances(s2, j)
                    v = x.elt(s2, j) if r.content is not None or r.zero else None
                    c.require(s2, 'element j of the new block', v is not None and eqv(v, norm(k.T, block[3](j))))
                c.require(st, 'no other block stays', all(q == p.reg for q in out.st.newheap))
            changed(c, st, x, want, pre, 'field of ' + x.name)
        # anything else in the objects
        known = {x.rid: set() for x in stores}
        for x in stores:
            known[x.rid] |= {x.base + o for o in x.offs}
        for rid, offs in known.items():
            r0, r = pre.mem[rid], st.mem[rid]
            c.require(st, 'other members untouched', r.zero == r0.zero and all(
                o in offs or (o in r0.cells and r0.cells[o][0] == v[0] and c.ex.item_equal(st, spec._It(r0.cells[o][1]), v[1], r0.cells[o][1])) for o, v in r.cells.items()))
        if block is None:
            c.require(st, 'no block is allocated', len(out.st.newheap) == 0)
        # blocks
        gone = {t.data.reg for t in free}
        for rid in gone:
            c.require(st, 'the old block is released', st.mem[rid].status == 'freed')
        for t, lo, hi, fn in writes:
            r0, r = pre.mem[t.data.reg], st.mem[t.data.reg]
            s2 = st.copy()
            j = c.index(s2, r0.n)
            c.instances(s2, j)
            c.require(s2, 'elements written', eqv(aselect(r.content, j, s2), ite(band(le(lo, j), lt(j, hi)), norm(k.T, fn(j)), aselect(r0.content, j, None))))
            c.require(st, 'the block stays', r.status == r0.status)
        ok += list(gone) + [t.data.reg for t, *_ in writes]
        c.frame(st, ok, 'frame')
        if not raised and b.val is not None:
            v = b.val(st) if callable(b.val) else b.val
            if isinstance(v, Ptr):
                g = out.val
                c.require(st, 'result', isinstance(g, Ptr) and g.reg == v.reg and st.decide(eqv(g.off, v.off)) is True)
            else:
                g = out.val
                c.require(st, 'result', eqv(flag(g), flag(v)))
    c.require(out.st, 'the behaviours cover the outcome', bor(*covered))


def cases(mod, dem, unit, CaseSpec, allocfail):
    """verification cases of the contracts: [(contract, CaseSpec)]"""
    res = []
    for k in find(mod, dem):
        hows = {'any': ['any', False], 'raw': ['raw'], 'borrowed': ['any', False]}[k.how]
        oths = [None]
        if k.args == ARG_O:
            oths = ['any', False] + (['same'] if k.how != 'raw' else [])
        for i, f in enumerate(k.symbols):
            for h in hows:
                for o in oths:
                    n = 'contract %s, %s%s%s' % (k.key, {'any': 'allocated', False: 'empty', 'raw': 'new object'}[h],
                                                 '' if o is None else {'any': ', other allocated', False: ', other empty', 'same': ', itself'}[o],
                                                 '' if not i else ' (symbol %d)' % (i + 1))
                    res.append((k, CaseSpec(n, lambda c, g=verify(k, f, h, o): g(c, allocfail), unit, (), 60, 0, '')))
    return res
