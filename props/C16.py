"""C16 vectors over memory of the caller"""
from prop import Prop
from lib import *
from C08 import inr, pos

prop = Prop('C16', ['C16.cpp'], replay='C16.cpp')
prop.assumptions += ['a borrowed vector refers to memory that is alive and holds at least its capacity']


def memory(c, name='mem'):
    """memory of the caller"""
    n = bounded(name + '.n', 1, 2 ** 33)
    rid, u = c.array('D', n, name, status='ext')
    return rid, u, n


def view(c, mem, name, matrix=False, vec=True, empty=False, temp=None, base=False):
    """a borrowed vector over a part of mem"""
    rid, u, N = mem
    L = c.lay.get('WD' if vec else 'RD')
    st = c.st
    o = c.ex.new_region(st, 'cells', 'ext', L[0], name)
    d = Store(o, 0, L[2:9], 'D')
    sz, cap, off = bounded(name + '.sz', 0 if empty else 1, SZMAX), bounded(name + '.cap', 0 if empty else 1, SZMAX), 0 if base else bounded(name + '.off', 0, 2 ** 33)
    st.assume(z3.And(sz <= cap, I(add(off, cap)) <= N))
    c.hints.append((name + '.sz', sz))
    for f, v in (('p', Ptr(rid, off)), ('sz', sz), ('capacity', cap), ('allocated', 1)):
        d.set(st, f, v)
    im = nr = nc = 0
    if matrix:
        nr, nc = bounded(name + '.nr', 0, SZMAX), bounded(name + '.nc', 0, SZMAX)
        im = 1 if matrix is True else bounded(name + '.im', 0, 1)
        m = z3.And(nr >= 1, nc >= 1, B(eqv(mul(nr, nc), sz)))
        st.assume(m if matrix is True else z3.Or(im == 0, z3.And(im == 1, m)))
    for f, v in (('ismatrix', im), ('rows', nr), ('cols', nc)):
        d.set(st, f, v)
    d.n, d.cap, d.off, d.im, d.nr, d.nc, d.T, d.name, d.arr = sz, cap, off, im, nr, nc, 'D', name, None
    d.u = lambda i: u(I(add(off, i)))
    d.mem = mem
    d.temp = None
    if vec:
        t = Store(o, 0, L[10:17], 'D')
        c.fill_store(t, 'D', name + '.temp', 'any' if temp else False, False)
        d.temp = t
    d.ptr, d.vrid, d.owned = Ptr(o, 0), o, False
    c.objs.append(d)
    return d


def contents(c, st, mem, what, lo=0, n=0, fn=None):
    """the n elements of mem from lo on are fn(0), ...; all others are unchanged"""
    rid, u, N = mem
    q = st.mem[rid]
    s = st.copy()
    j = c.index(s, N, 'm')
    c.instances(s, sub(j, lo))
    v = None if q.content is None else aselect(q.content, j, s)
    c.require(s, what, q.status == 'ext' and v is not None and eqv(v, ite(band(le(lo, j), lt(j, add(lo, n))), fn(sub(j, lo)), u(j)) if fn else u(j)))


def same_place(c, st, a, b=None, off=None):
    """a refers to the memory b (itself) referred to"""
    b = b or a
    p = a.f(st, 'p')
    c.require(st, '%s refers to the memory of %s' % (a.name, b.name), isinstance(p, Ptr) and p.reg == b.mem[0] and eqv(p.off, b.off))
    c.require(st, 'capacity of the borrowed memory', eqv(a.f(st, 'capacity'), b.cap))


def done(c, st, objs, changed, also=()):
    """nothing but the listed objects and the borrowed memory was written"""
    ok = list(also)
    for s in changed:
        ok.append(s.vrid)
        if s.arr is not None:
            ok.append(s.arr)
        if s.temp is not None and s.temp.arr is not None:
            ok.append(s.temp.arr)
    c.frame(st, ok)
    roots = [s for s in c.objs] + [s.temp for s in c.objs if s.temp is not None]
    c.noleak(st, [s for s in roots if s in [x.temp for x in c.objs] or s.owned], 'ownership')
    for s in changed:
        if s.owned:
            c.wf(st, s)
        if s.temp is not None:
            c.wf(st, s.temp)


def put(fname, kinds, n, fn, shape=None, pre=None, alias=False, dom=None, throws=True, order=None):
    """a = ...: kinds D I B vectors, W another borrowed vector over the same memory, s i b scalars"""
    def go(c):
        mem = memory(c)
        a = view(c, mem, 'a', 'any', temp=True, empty=kinds in ('s', 'i', 'b') and not alias)
        xs = [view(c, mem, 'b', 'any') if k == 'W' else c.vec(k, 'xyz'[i], matrix='any') if k in 'DIB' else c.scalar({'s': 'D', 'i': 'I', 'b': 'B'}[k], 's') for i, k in enumerate(kinds)]
        if pre:
            pre(c, a, xs)
        m = n(a, xs)
        ok = dom(a, xs) if dom else True
        for o in c.run(fname, [a] + xs):
            if o.kind != 'ret':
                c.require(o.st, 'throws only when the borrowed vector is longer or the borrowed block is shorter', bor(bnot(ok), lt(m, a.n), lt(a.cap, m)))
                contents(c, o.st, mem, 'after an exception: the memory is unchanged')
                for f in ('sz', 'ismatrix', 'rows', 'cols'):
                    c.require(o.st, 'after an exception: %s unchanged' % f, eqv(a.f(o.st, f), a.f(c.pre, f)))
                same_place(c, o.st, a)
                done(c, o.st, [], [a], also=[mem[0]])
                continue
            c.require(o.st, 'nothing longer than the borrowed block is stored', band(ok, le(m, a.cap)))
            c.require(o.st, 'length of the right side', eqv(a.f(o.st, 'sz'), m))
            contents(c, o.st, mem, 'memory holds the right side, the rest is unchanged', a.off, m, lambda j: fn(a, xs, j))
            im, nr, nc = shape(a, xs) if shape else (0, 0, 0)
            c.shape(o.st, a, im, nr, nc)
            same_place(c, o.st, a)
            done(c, o.st, [], [a], also=[mem[0]])
    return go


def shape2(x, y):
    return bit(bor(eqv(x.im, 1), eqv(y.im, 1))), ite(eqv(x.im, 1), x.nr, y.nr), ite(eqv(x.im, 1), x.nc, y.nc)


def plainv(*k):
    def pre(c, a, xs):
        for i in k:
            v = a if i == 'a' else xs[i]
            if not isc(v.im):
                c.assume(v.im == 0)
    return pre


own = lambda x: (x.im, x.nr, x.nc)
BOTH = ('ret', 'exc')
C = lambda n, *a, **k: prop.case(n, put('drv_' + n, *a, **k), expect=BOTH, weight=k.pop('weight', 2) if 'weight' in k else 2)
C('sum', 'DD', lambda a, x: mx(x[0].n, x[1].n), lambda a, x, j: fbin('fadd', at(x[0], j), at(x[1], j)), pre=plainv(0, 1))
C('self_sum', 'D', lambda a, x: mx(x[0].n, a.n), lambda a, x, j: fbin('fadd', at(x[0], j), a.u(emod(j, a.n))), pre=plainv(0, 'a'))
prop.case('scaled', put('drv_scaled', 's', lambda a, x: a.n, lambda a, x, j: fbin('fmul', a.u(j), x[0]), shape=lambda a, x: own(a), alias=True))
prop.case('neg', put('drv_neg', '', lambda a, x: a.n, lambda a, x, j: ufun('fneg')(a.u(j)), shape=lambda a, x: own(a), alias=True))
C('sin', 'D', lambda a, x: x[0].n, lambda a, x, j: ufun('sin')(raw(x[0], j)), shape=lambda a, x: own(x[0]))
C('copy', 'D', lambda a, x: x[0].n, lambda a, x, j: raw(x[0], j), shape=lambda a, x: own(x[0]))
C('int', 'I', lambda a, x: x[0].n, lambda a, x, j: i2f(raw(x[0], j)), shape=lambda a, x: own(x[0]))
C('bool', 'B', lambda a, x: x[0].n, lambda a, x, j: i2f(raw(x[0], j)), shape=lambda a, x: own(x[0]))
C('cmp', 'DD', lambda a, x: mx(x[0].n, x[1].n), lambda a, x, j: i2f(bit(flt(at(x[0], j), at(x[1], j)))), pre=plainv(0, 1))
C('coca', 'DD', lambda a, x: add(x[0].n, x[1].n), lambda a, x, j: ite(lt(j, x[0].n), raw(x[0], j), raw(x[1], sub(j, x[0].n))), pre=lambda c, a, x: c.assume(B(le(add(x[0].n, x[1].n), SZMAX))))
C('borrow', 'W', lambda a, x: x[0].n, lambda a, x, j: x[0].u(j), shape=lambda a, x: own(x[0]))
C('borrow_sum', 'WD', lambda a, x: mx(x[0].n, x[1].n), lambda a, x, j: fbin('fadd', x[0].u(emod(j, x[0].n)), at(x[1], j)), pre=plainv(0, 1))
def in_range(v, src):
    return lambda c, a, x: c.every(x[v], x[v].n, lambda e: inr('I', e, (a if src == 'a' else x[src]).n))


C('subset', 'DI', lambda a, x: x[1].n, lambda a, x, j: raw(x[0], sub(raw(x[1], j), 1)), pre=in_range(1, 0))
C('own_subset', 'I', lambda a, x: x[0].n, lambda a, x, j: a.u(sub(raw(x[0], j), 1)), pre=in_range(0, 'a'))
prop.case('self', put('drv_self', '', lambda a, x: a.n, lambda a, x, j: a.u(j), shape=lambda a, x: own(a), alias=True))


def scalar(fname, T, conv):
    def go(c):
        mem = memory(c)
        a = view(c, mem, 'a', 'any', temp=True, empty=True)
        s = c.scalar(T, 's')
        for o in c.run(fname, [a, s]):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for a borrowed block of length zero', eqv(a.cap, 0))
                contents(c, o.st, mem, 'after an exception: the memory is unchanged')
                same_place(c, o.st, a)
                done(c, o.st, [], [a], also=[mem[0]])
                continue
            c.require(o.st, 'a block of length zero holds nothing', le(1, a.cap))
            c.require(o.st, 'length one', eqv(a.f(o.st, 'sz'), 1))
            contents(c, o.st, mem, 'the first element is stored, the rest is unchanged', a.off, 1, lambda j: conv(s))
            c.shape(o.st, a, 0)
            same_place(c, o.st, a)
            done(c, o.st, [], [a], also=[mem[0]])
    return go


prop.case('scalar', scalar('drv_scalar', 'D', lambda s: s), expect=BOTH)
prop.case('scalar_i', scalar('drv_scalar_i', 'I', i2f), expect=BOTH)
prop.case('scalar_b', scalar('drv_scalar_b', 'B', lambda s: i2f(bit(s))), expect=BOTH)


def read(fname, T, fn, n=None, kinds='', new=False, shape=True, pre=None):
    def go(c):
        mem = memory(c)
        r = c.raw(T, 'r') if new else target(c, T, True)
        a = view(c, mem, 'a', 'any' if shape else False)
        xs = [c.vec(k, 'x', matrix=False) for k in kinds]
        if pre:
            pre(c, a)
        for o in c.run(fname, [r, a] + xs):
            if o.kind != 'ret':
                c.require(o.st, 'reading does not throw', False)
                continue
            c.forall_elts(o.st, r, n(a, xs) if n else a.n, lambda j: fn(a, xs, j), 'read')
            c.shape(o.st, r, *(own(a) if shape else (0, 0, 0)))
            contents(c, o.st, mem, 'the memory is unchanged')
            done(c, o.st, [], [r])
    return go


prop.case('read', read('drv_read', 'D', lambda a, x, j: a.u(j)))
prop.case('read_sum', read('drv_read_sum', 'D', lambda a, x, j: fbin('fadd', a.u(emod(j, a.n)), at(x[0], j)), lambda a, x: mx(a.n, x[0].n), 'D', shape=False), weight=2)
prop.case('read_new', read('drv_read_new', 'D', lambda a, x, j: fbin('fadd', a.u(j), fconst(0)), new=True))


def element(fname, kinds, posn, ok, matrix='any', write=True, expect=BOTH, conv=lambda x: x, vec=True, empty=False):
    """one element is written (or read into the last argument)"""
    def go(c):
        mem = memory(c)
        a = view(c, mem, 'a', matrix, vec=vec, empty=empty)
        ix = [c.scalar({'i': 'I', 's': 'D', 'S': 'S'}[k], 'ik'[q]) for q, k in enumerate(kinds)]
        for k, v in zip(kinds, ix):
            if k == 's':
                c.assume(z3.And(z3.Not(nan(v)), val(v) < 2 ** 31, val(v) > -2 ** 31))
        x = c.scalar('D', 'x')
        out = None if write else c.ref('D', x)
        for o in c.run(fname, [a] + ix + [x if write else out]):
            good = ok(a, ix)
            if o.kind != 'ret':
                c.require(o.st, 'throws only outside the vector', bnot(good))
                contents(c, o.st, mem, 'after an exception: the memory is unchanged')
                done(c, o.st, [], [])
                continue
            c.require(o.st, 'an index outside the vector throws', good)
            p = posn(a, ix)
            if write:
                contents(c, o.st, mem, 'exactly the element is written', add(a.off, p), 1, lambda j: x)
                done(c, o.st, [], [], also=[mem[0]])
            else:
                c.require(o.st, 'value read', eqv(o.st.mem[out.reg].cells[0][1], a.u(p)))
                contents(c, o.st, mem, 'the memory is unchanged')
                done(c, o.st, [], [], also=[out.reg])
    return go


ipos = lambda a, x: sub(x[0], 1)
iok = lambda a, x: band(le(1, x[0]), le(x[0], a.n))
prop.case('at', element('drv_at', 'i', ipos, iok), expect=BOTH)
prop.case('at_get', element('drv_at_get', 'i', ipos, iok, write=False), expect=BOTH)
prop.case('at_double', element('drv_at_d', 's', lambda a, x: sub(ftrunc_int(x[0]), 1), lambda a, x: band(le(1, ftrunc_int(x[0])), le(ftrunc_int(x[0]), a.n))), expect=BOTH)
prop.case('at_matrix', element('drv_at_mat', 'ii', lambda a, x: add(sub(x[0], 1), mul(sub(x[1], 1), a.nr)), lambda a, x: band(le(1, x[0]), le(x[0], a.nr), le(1, x[1]), le(x[1], a.nc)), matrix=True), expect=BOTH)
prop.case('subset_i', element('drv_sub_i', 'i', ipos, iok), expect=BOTH)
for p, q, v in (('get', 'drv', True), ('set', 'drv', True), ('put', 'rd', False), ('set', 'rd', False), ('get', 'rd', False)):
    prop.case('%s_%s' % (q, p), element('%s_%s' % (q, p), 'S', lambda a, x: x[0], lambda a, x: lt(x[0], a.n), write=p != 'get', vec=v, empty=True), expect=BOTH)


def subset(fname, scalar=False, every=False):
    def go(c):
        mem = memory(c)
        a = view(c, mem, 'a', 'any')
        i = None if every else c.vec('I', 'i')
        x = c.scalar('D', 'x') if scalar else c.vec('D', 'x', matrix='any')
        if not every:
            c.every(i, i.n, lambda e: inr('I', e, a.n))
            sc = c.scatter(lambda k: add(a.off, sub(raw(i, k), 1)))
        for o in c.run(fname, [a] + ([] if every else [i]) + [x]):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for another number of elements', False if scalar else bnot(eqv(x.n, i.n)))
                contents(c, o.st, mem, 'after an exception: the memory is unchanged')
                done(c, o.st, [], [a])
                continue
            if not scalar:
                c.require(o.st, 'another number of elements throws', eqv(x.n, i.n))

            def fn(j):
                if every:
                    return x
                l = sc.last(I(add(a.off, j)), I(i.n))
                return ite(lt(l, 0), a.u(j), x if scalar else raw(x, l))
            contents(c, o.st, mem, 'exactly the selected elements are written', a.off, a.n, fn)
            for f in ('sz', 'ismatrix', 'rows', 'cols'):
                c.require(o.st, '%s unchanged' % f, eqv(a.f(o.st, f), a.f(c.pre, f)))
            same_place(c, o.st, a)
            done(c, o.st, [], [a], also=[mem[0]])
    return go


prop.case('subset', subset('drv_sub'), expect=BOTH, weight=2)
prop.case('subset_scalar', subset('drv_sub_s', True), weight=2)
prop.case('subset_TRUE', subset('drv_sub_TRUE', True, True))


def build(fname, src, vec=True, fields=None, dead=False):
    """a new borrowed vector, from a pointer or another borrowed vector"""
    def go(c):
        mem = memory(c)
        L = c.lay.get('WD' if vec else 'RD')
        rid = c.ex.new_region(c.st, 'cells', 'ext', L[0], 'r')
        r = Store(rid, 0, L[2:9], 'D')
        r.name, r.arr, r.T, r.owned, r.temp, r.u = 'r', None, 'D', False, None, None
        if vec:
            t = r.temp = Store(rid, 0, L[10:17], 'D')
            t.arr, t.u, t.T, t.name, t.owned = None, None, 'D', 'r.temp', True
        r.ptr, r.vrid = Ptr(rid, 0), rid
        c.objs.append(r)
        if src in ('p', 'm'):
            off, n = bounded('off', 0, 2 ** 33), bounded('n', 0 if src == 'p' else 1, SZMAX)
            m = bounded('m', 1, SZMAX) if src == 'm' else None
            e = mul(n, m) if m is not None else n
            c.assume(z3.And(B(le(e, SZMAX)), B(le(add(off, e), mem[2]))))
            a = None
            args = [r, Ptr(mem[0], off), n] + ([m] if m is not None else [])
            sz, cap, im, nr, nc = e, e, 1 if m is not None else 0, n, m if m is not None else 0
        else:
            a = view(c, mem, 'a', 'any', vec=src == 'w', empty=True)
            args = [r, a]
            off, sz, cap, im, nr, nc = a.off, a.n, a.cap, a.im, a.nr, a.nc
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, 'construction does not throw', False)
                continue
            p = r.f(o.st, 'p')
            c.require(o.st, 'refers to the given memory', isinstance(p, Ptr) and p.reg == mem[0] and eqv(p.off, off))
            c.require(o.st, 'length', eqv(r.f(o.st, 'sz'), sz))
            c.require(o.st, 'length of the borrowed block', eqv(r.f(o.st, 'capacity'), cap))
            c.require(o.st, 'marked as usable', eqv(r.f(o.st, 'allocated'), 1))
            c.shape(o.st, r, im, nr, nc)
            contents(c, o.st, mem, 'the memory is unchanged')
            if dead:
                q, z = a.f(o.st, 'p'), a.f(o.st, 'sz')
                same = isinstance(q, Ptr) and q.reg == mem[0]
                c.require(o.st, 'what was moved from is empty or as it was', bor(eqv(z, 0), band(same, eqv(z, a.n), eqv(q.off, off) if same else False)))
            done(c, o.st, [], [r] + ([a] if dead else []))
    return go


prop.case('new', build('drv_new', 'p'))
prop.case('new_matrix', build('drv_new_mat', 'm'))
prop.case('new_copy', build('drv_new_copy', 'w'))
prop.case('new_move', build('drv_new_move', 'w', dead=True))
prop.case('new_of_borrow', build('drv_new_b', 'b'))
prop.case('returned', build('drv_return', 'w'))
prop.case('rd_new', build('rd_new', 'p', vec=False))
def nothing(fname, sized):
    """a borrowed vector that was given no memory has no elements"""
    def go(c):
        L = c.lay.get('RD')
        rid = c.ex.new_region(c.st, 'cells', 'ext', L[0], 'r')
        r = Store(rid, 0, L[2:9], 'D')
        r.name, r.arr, r.T, r.owned, r.temp, r.u = 'r', None, 'D', False, None, None
        r.ptr, r.vrid = Ptr(rid, 0), rid
        c.objs.append(r)
        for o in c.run(fname, [r] + ([bounded('n', 0, SZMAX)] if sized else [])):
            if o.kind != 'ret':
                c.require(o.st, 'construction does not throw', False)
                continue
            c.require(o.st, 'length', eqv(r.f(o.st, 'sz'), 0))
            c.require(o.st, 'length of the borrowed block', eqv(r.f(o.st, 'capacity'), 0))
            c.require(o.st, 'not marked as usable', eqv(r.f(o.st, 'allocated'), 0))
            c.shape(o.st, r, 0)
            c.clean(o, [], also=[rid], dead=[r])
    return go


def nowhere(fname, T):
    def go(c):
        L = c.lay.get('WD')
        rid = c.ex.new_region(c.st, 'cells', 'ext', L[0], 'r')
        r = Store(rid, 0, L[2:9], 'D')
        t = r.temp = Store(rid, 0, L[10:17], 'D')
        t.arr, t.u, t.T, t.name, t.owned = None, None, 'D', 'r.temp', True
        r.name, r.arr, r.T, r.owned, r.u = 'r', None, 'D', False, None
        r.ptr, r.vrid = Ptr(rid, 0), rid
        c.objs.append(r)
        a = c.vec(T, 'a', matrix='any')
        c.assume(B(le(a.n, SZMAX // 2)))
        for o in c.run(fname, [r, a]):
            c.require(o.st, 'refused: there is no memory for the elements', o.kind != 'ret')
            c.thrown(o, a)
            c.clean(o, [], dead=[r], also=[rid])
    return go


for n, T in (('D', 'D'), ('I', 'I'), ('coca_D', 'D'), ('coca_I', 'I'), ('sum', 'D')):
    prop.case('of_' + n, nowhere('wd_of_' + n, T), expect=('exc',))
prop.case('rd_sized', nothing('rd_sized', True))
prop.case('rd_copy', build('rd_copy', 'b', vec=False))
prop.case('rd_move', build('rd_move', 'b', vec=False, dead=True))


def destroy(fname, vec):
    def go(c):
        mem = memory(c)
        a = view(c, mem, 'a', 'any', vec=vec, temp=True, empty=True)
        for o in c.run(fname, [a]):
            if o.kind != 'ret':
                c.require(o.st, 'destruction does not throw', False)
                continue
            contents(c, o.st, mem, 'the memory is unchanged and stays with the caller')
            c.frame(o.st, [a.vrid] + ([a.temp.arr] if vec and a.temp.arr is not None else []))
            for rid in [a.temp.arr] if vec and a.temp.arr is not None else []:
                if c.pre.mem[rid].status == 'heap':
                    c.require(o.st, 'the temporary is released', o.st.mem[rid].status == 'freed')
    return go


prop.case('destroy', destroy('drv_del', True))
prop.case('rd_destroy', destroy('rd_del', False))


def scope(c):
    mem = memory(c)
    off, n, s = bounded('off', 0, 2 ** 33), bounded('n', 1, SZMAX), c.scalar('D', 's')
    c.assume(B(le(add(off, n), mem[2])))
    u = mem[1]
    for o in c.run('drv_scope', [Ptr(mem[0], off), n, s]):
        if o.kind != 'ret':
            c.require(o.st, 'does not throw', False)
            continue
        contents(c, o.st, mem, 'written through', off, n, lambda j: fbin('fmul', u(I(add(off, j))), s))
        c.frame(o.st, [mem[0]])
        c.noleak(o.st, [])


prop.case('scope', scope)


def resize(fname, vec):
    def go(c):
        mem = memory(c)
        a = view(c, mem, 'a', 'any', vec=vec, empty=True)
        n = bounded('n', 0, M64 - 1)
        for o in c.run(fname, [a, n]):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for zero or beyond the borrowed block', bor(eqv(n, 0), lt(a.cap, n)))
                contents(c, o.st, mem, 'the memory is unchanged')
                done(c, o.st, [], [])
                continue
            c.require(o.st, 'never beyond the borrowed block', band(le(1, n), le(n, a.cap)))
            c.require(o.st, 'requested length', eqv(a.f(o.st, 'sz'), n))
            contents(c, o.st, mem, 'the memory is unchanged')
            same_place(c, o.st, a)
            done(c, o.st, [], [a])
    return go


prop.case('rd_resize', resize('rd_resize', False), expect=BOTH)
prop.case('resize', resize('wd_resize', True), expect=BOTH)


def fill(fname, kinds, fn, n=None):
    def go(c):
        mem = memory(c)
        a = view(c, mem, 'a', 'any', vec=False, empty=not n)
        xs = [c.scalar({'s': 'D', 'i': 'I'}[k], 'x') if k in 'si' else c.vec(k, 'xy'[i]) for i, k in enumerate(kinds)]
        m = n(xs) if n else a.n
        c.assume(B(le(m, SZMAX)))
        for o in c.run(fname, [a] + xs):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for a different length', bnot(eqv(m, a.n)))
                contents(c, o.st, mem, 'the memory is unchanged')
                done(c, o.st, [], [])
                continue
            c.require(o.st, 'another length throws', eqv(m, a.n))
            contents(c, o.st, mem, 'filled, the rest is unchanged', a.off, a.n, lambda j: fn(xs, j))
            done(c, o.st, [], [], also=[mem[0]])
    return go


prop.case('rd_fill', fill('rd_fill', 's', lambda x, j: x[0]))
prop.case('rd_fill_int', fill('rd_fill_int', 'i', lambda x, j: i2f(x[0])))
prop.case('rd_fill_vec', fill('rd_fill_vec', 'D', lambda x, j: raw(x[0], j), lambda x: x[0].n), expect=BOTH)
prop.case('rd_fill_ivec', fill('rd_fill_ivec', 'I', lambda x, j: i2f(raw(x[0], j)), lambda x: x[0].n), expect=BOTH)
prop.case('rd_fill_coca', fill('rd_fill_coca', 'DD', lambda x, j: ite(lt(j, x[0].n), raw(x[0], j), raw(x[1], sub(j, x[0].n))), lambda x: add(x[0].n, x[1].n)), expect=BOTH)


def redirect(fname, pointer):
    """init and assignment of the container: afterwards it refers to the other memory"""
    def go(c):
        mem, other = memory(c), memory(c, 'other')
        a = view(c, mem, 'a', 'any', vec=False, empty=True)
        if pointer:
            off, n = bounded('off', 0, 2 ** 33), bounded('n', 0, SZMAX)
            c.assume(B(le(add(off, n), other[2])))
            args, sz, cap, b = [a, Ptr(other[0], off), n], n, n, None
        else:
            b = view(c, other, 'b', 'any', vec=False, empty=True)
            args, off, sz, cap = [a, b], b.off, b.n, b.cap
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, 'does not throw', False)
                continue
            p = a.f(o.st, 'p')
            c.require(o.st, 'refers to the other memory', isinstance(p, Ptr) and p.reg == other[0] and eqv(p.off, off))
            c.require(o.st, 'length', eqv(a.f(o.st, 'sz'), sz))
            c.require(o.st, 'length of the borrowed block', eqv(a.f(o.st, 'capacity'), cap))
            if b is not None:
                c.shape(o.st, a, b.im, b.nr, b.nc)
            contents(c, o.st, mem, 'the memory is unchanged')
            contents(c, o.st, other, 'the other memory is unchanged')
            done(c, o.st, [], [a])
    return go


prop.case('rd_init', redirect('rd_init', True))
prop.case('rd_assign', redirect('rd_assign', False))


def last(c):
    mem = memory(c)
    a = view(c, mem, 'a', 'any', vec=False)
    out = c.ref('D', c.scalar('D', 'x'))
    for o in c.run('rd_back', [a, out]):
        if o.kind != 'ret':
            c.require(o.st, 'does not throw', False)
            continue
        c.require(o.st, 'last element', eqv(o.st.mem[out.reg].cells[0][1], a.u(sub(a.n, 1))))
        done(c, o.st, [], [], also=[out.reg])


prop.case('rd_back', last)


def empty(c):
    L = c.lay.get('RD')
    rid = c.ex.new_region(c.st, 'cells', 'ext', L[0], 'r')
    r = Store(rid, 0, L[2:9], 'D')
    r.name = 'r'
    for o in c.run('rd_empty', [Ptr(rid, 0)]):
        c.require(o.st, 'no memory', band(eqv(r.f(o.st, 'sz'), 0), eqv(r.f(o.st, 'capacity'), 0), eqv(r.f(o.st, 'allocated'), 0)))
        c.frame(o.st, [rid])


prop.case('rd_empty', empty)

for n, vec in (('wd', True), ('rd', False)):
    prop.case('visit_' + n, iteration('it_' + n, lambda c, vec=vec: [view(c, memory(c), 'a', 'any', vec=vec, empty=True)], lambda v: v[0].n, lambda v, j: v[0].u(j)))
