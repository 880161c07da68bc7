"""Function execution, calls, trusted externals, state merging."""
import re, time
import z3
import llir
from terms import *
from symex import *
from loops import LoopMixin

MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'log10', 'log2', 'cbrt', 'expm1', 'log1p', 'nearbyint', 'rint', 'exp2'}
MATH2 = {'pow', 'fmod', 'atan2', 'hypot', 'fmin', 'fmax', 'minnum', 'maxnum'}

STD_NOOP = re.compile(
    r'^(?:void |bool |char\*? |auto |unsigned long |std::\w+[^(]* )?'
    r'std::(?:__cxx11::basic_string|allocator<char>|__new_allocator<char>|char_traits|allocator_traits<std::allocator<char>|runtime_error|logic_error|exception|'
    r'basic_ostream|ostream|ios_base|operator<<|endl|flush|operator\+|_Alloc_traits|__alloc_traits)')


class Out:
    """outcome of a call"""
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


class Engine(LoopMixin, Executor):
    MERGE = True

    # ---------------------------------------------------------------- merging
    def merge_vals(self, c, a, b):
        """value equal to a if c else b; raises Unsupported if not expressible"""
        if a is b:
            return a
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge_vals(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg == b.reg:
                o = self.merge_vals(c, a.off, b.off)
                return Ptr(a.reg, o)
            raise Unsupported('merge ptr')
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return PtrInt(self.merge_vals(c, a.p, b.p))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        if isinstance(a, (Ptr, FnPtr, Opaque, PtrInt, list)) or isinstance(b, (Ptr, FnPtr, Opaque, PtrInt, list)):
            raise Unsupported('merge')
        if a is None or b is None:
            if a is None and b is None:
                return None
            raise Unsupported('merge none')
        def isb(x):
            return isinstance(x, bool) or (not isc(x) and z3.is_bool(x))
        if isb(a) != isb(b):
            a = ite(a, 1, 0) if isb(a) and not isinstance(a, bool) else int(a) if isinstance(a, bool) else a
            b = ite(b, 1, 0) if isb(b) and not isinstance(b, bool) else int(b) if isinstance(b, bool) else b
        if not isc(a) and not isc(b) and not a.sort().eq(b.sort()):
            raise Unsupported('merge sorts')
        return ite(c, a, b)

    def merge_states(self, a, b, va, vb):
        """-> (State, value) or None"""
        pa, pb = a.pc, b.pc
        n = 0
        while n < len(pa) and n < len(pb) and pa[n].eq(pb[n]):
            n += 1
        # (proved facts are left out: the rest of the path condition implies them)
        ra = [x for i, x in enumerate(pa) if i >= n and i not in a.lem]
        rb = [x for i, x in enumerate(pb) if i >= n and i not in b.lem]
        ca = band(*[foldb(x) for x in ra])
        cb = band(*[foldb(x) for x in rb])
        c = ca if ca is not True else bnot(cb)
        try:
            v = self.merge_vals(c, va, vb)
            s = State(self)
            if a.newheap != b.newheap or a.note != b.note:
                return None
            s.newheap, s.note = a.newheap, a.note
            s.fa = tuple(f for f in a.fa if any(f is g for g in b.fa))
            s.fa += tuple((lo, hi, lambda i, f=f: implies(c, f(i))) for lo, hi, f in a.fa if not any(f is g[2] for g in b.fa))
            s.fa += tuple((lo, hi, lambda i, f=f: implies(bnot(c), f(i))) for lo, hi, f in b.fa if not any(f is g[2] for g in a.fa))
            keys = set(a.mem) | set(b.mem)
            for k in keys:
                x, y = a.mem.get(k), b.mem.get(k)
                if x is y:
                    s.mem[k] = x
                    continue
                if x is None or y is None:
                    z = x or y
                    if z.status == 'global':
                        s.mem[k] = z
                        continue
                    if z.status == 'exc':
                        continue
                    return None
                if x.kind != y.kind or x.status != y.status:
                    return None
                if x.kind == 'cells':
                    if x.zero != y.zero:
                        return None
                    r = x.copy()
                    if set(x.cells) != set(y.cells):
                        # cells present only on one side: uninitialised on the other
                        for o in set(x.cells) ^ set(y.cells):
                            cc = x.cells.get(o) or y.cells.get(o)
                            if any(lo <= o < hi for lo, hi in x.zero):
                                return None
                            oth = y if o in x.cells else x
                            if any(o2 < o + cc[0] and o < o2 + c2[0] for o2, c2 in oth.cells.items()):
                                return None
                            r.cells.pop(o, None)
                    for o in set(x.cells) & set(y.cells):
                        s1, v1 = x.cells[o]
                        s2, v2 = y.cells[o]
                        if s1 != s2:
                            return None
                        r.cells[o] = (s1, self.merge_vals(c, v1, v2))
                    s.mem[k] = r
                else:
                    if x.n is not y.n and x.n is not None and y.n is not None and eqv(x.n, y.n) is not True:
                        return None
                    if x.content is y.content and x.ety == y.ety and x.es == y.es and x.zero == y.zero:
                        s.mem[k] = x
                        continue
                    t = x.ety or y.ety
                    if t is None:
                        if x.zero != y.zero:
                            return None
                        s.mem[k] = x if x.es is not None else y
                        continue
                    # a side that has no element type yet holds values nobody wrote
                    cx, cy = self.typed(x, t), self.typed(y, t)
                    if cx.es != cy.es or cx.ety != cy.ety:
                        return None
                    r = cx.copy()
                    r.content = AIte(c, cx.content, cy.content)
                    s.mem[k] = r
        except Unsupported:
            return None
        s.pc = pa[:n]
        s.lem = frozenset(i for i in a.lem & b.lem if i < n)
        if not (len(ra) == 1 and len(rb) == 1 and bnot(ra[0]) is not True and (z3.Not(ra[0]).eq(rb[0]) or z3.Not(rb[0]).eq(ra[0]) or _compl(ra[0], rb[0]))):
            d = bor(ca, cb)
            if d is not True:
                s.pc = s.pc + (d,)
        return s, v

    def merge_outs(self, outs):
        if not self.MERGE:
            return outs
        res = []
        for o in outs:
            for i, p in enumerate(res):
                if p.kind == o.kind:
                    m = self.merge_states(p.st, o.st, p.val, o.val)
                    if m:
                        res[i] = Out(m[0], o.kind, m[1])
                        break
            else:
                res.append(o)
        return res

    # ---------------------------------------------------------------- functions
    def call(self, st, name, args):
        """-> list of Out"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        r = self.external(st, name, args)
        if r is not None:
            return r
        fn = llir.get_function(self.m, name)
        if fn is None:
            raise Unsupported('external function ' + self.demangle(name))
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        self.stack.append(name)
        self.funcs_seen.add(name)
        try:
            return self.exec_function(fn, st, args)
        finally:
            self.stack.pop()

    def exec_function(self, fn, st, args):
        env = {}
        for (ty, nm, info), a in zip(fn.params, args):
            env[nm] = a
        env['#allocas'] = ()
        outs = []
        self.run(fn, [(fn.order[0], None, env, st, False)], None, None, outs, None, None)
        res = []
        for o, allocas in outs:
            for r in allocas:
                o.st.mem.pop(r, None)
            res.append(o)
        return self.merge_outs(res)

    def run(self, fn, items, scope, header, outs, backs, exits):
        """work list execution.  outs: list receiving (Out, allocas)."""
        work = list(items)
        while work:
            b, prev, env, st, start = work.pop()
            if header is not None and b == header and not start:
                backs.append((prev, env, st))
                continue
            if scope is not None and b not in scope:
                exits.append((prev, b, env, st))
                continue
            if b in fn.loops and not start:
                ex = []
                self.loop(fn, b, prev, env, st, outs, ex)
                for (p2, b2, e2, s2) in ex:
                    work.append((b2, p2, e2, s2, False))
                continue
            self.block(fn, b, prev, env, st, start, work, outs)

    def block(self, fn, bname, prev, env, st, skip_phis, work, outs):
        blk = fn.blocks[bname]
        if blk.phis and not skip_phis:
            vals = []
            for ph in blk.phis:
                for v, b in ph.a['inc']:
                    if b == prev:
                        vals.append((ph.res, self.val(st, env, ph.ty, v)))
                        break
                else:
                    raise Unsupported('phi')
            env = dict(env)
            env.update(vals)
        else:
            env = dict(env)
        for ins in blk.insts:
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported('instruction budget exhausted')
            op = ins.op
            if op in ('call', 'invoke'):
                res = self.do_call(fn, ins, env, st, work, outs, bname, blk)
                if res is None:
                    return
                # single plain continuation
                st = res
                if op == 'invoke':
                    work.append((ins.a['normal'], bname, env, st, False))
                    return
                continue
            if op == 'br':
                t = ins.a['targets']
                if ins.a['cond'] is None:
                    work.append((t[0], bname, env, st, False))
                    return
                c = self.tobool(self.val(st, env, ('i', 1), ins.a['cond']))
                if t[0] == t[1]:
                    work.append((t[0], bname, env, st, False))
                    return
                d = st.decide(c)
                if d is True:
                    work.append((t[0], bname, env, st, False))
                elif d is False:
                    work.append((t[1], bname, env, st, False))
                else:
                    s2 = st.copy().assume(bnot(c))
                    s1 = st.assume(c)
                    work.append((t[1], bname, env, s2, False))
                    work.append((t[0], bname, dict(env), s1, False))
                return
            if op == 'switch':
                x = self.val(st, env, ins.ty, ins.a['x'])
                rest = []
                for v, b in ins.a['cases']:
                    e = eqv(x, const_canon(v, ins.ty[1]))
                    d = st.decide(e)
                    if d is False:
                        continue
                    if d is True:
                        work.append((b, bname, env, st, False))
                        return
                    s1 = st.copy().assume(e)
                    work.append((b, bname, dict(env), s1, False))
                    st.assume(bnot(e))
                if st.feasible():
                    work.append((ins.a['default'], bname, env, st, False))
                return
            if op == 'ret':
                v = None if ins.a['val'] is None else self.val(st, env, ins.ty, ins.a['val'])
                outs.append((Out(st, 'ret', v), env['#allocas']))
                return
            if op == 'resume':
                outs.append((Out(st, 'exc', None), env['#allocas']))
                return
            if op == 'unreachable':
                self.obligation(st, 'unreachable', bnot(True) if st.feasible() else True, 'unreachable code is not reached')
                return
            if op == 'select':
                c = self.tobool(self.val(st, env, ('i', 1), ins.a['c']))
                x = self.val(st, env, ins.ty, ins.a['x'])
                y = self.val(st, env, ins.ty, ins.a['y'])
                d = st.decide(c)
                if d is not None:
                    env[ins.res] = x if d else y
                else:
                    try:
                        env[ins.res] = self.merge_vals(c, x, y)
                    except Unsupported:
                        s2 = st.copy().assume(bnot(c))
                        e2 = dict(env)
                        e2[ins.res] = y
                        self.cont(fn, bname, blk, ins, e2, s2, work, outs)
                        st.assume(c)
                        env[ins.res] = x
                continue
            v = self.simple(st, env, ins)
            if v is None and ins.res is None and op == 'store':
                continue
            if v is None:
                return
            if ins.res is not None:
                env[ins.res] = v
            elif v is False:
                return

    def cont(self, fn, bname, blk, ins, env, st, work, outs):
        """continue executing blk after ins in a split path"""
        i = blk.insts.index(ins)
        tail = llir.Block(bname)
        tail.insts = blk.insts[i + 1:]
        save = fn.blocks[bname]
        fn.blocks[bname] = tail
        try:
            self.block(fn, bname, None, env, st, True, work, outs)
        finally:
            fn.blocks[bname] = save

    def simple(self, st, env, ins):
        op, a = ins.op, ins.a
        if op in llir.BIN:
            return self.binop(st, op, ins.ty, self.val(st, env, ins.ty, a['x']), self.val(st, env, ins.ty, a['y']), a['flags'])
        if op == 'load':
            return self.load(st, self.val(st, env, 'ptr', a['ptr']), ins.ty)
        if op == 'store':
            ok = self.store(st, self.val(st, env, 'ptr', a['ptr']), ins.ty, self.val(st, env, ins.ty, a['val']))
            return None if ok else False
        if op == 'getelementptr':
            return self.gep(st, ins.ty, self.val(st, env, 'ptr', a['base']),
                            [self.val(st, env, t, i) for t, i in a['idx']], [t for t, _ in a['idx']])
        if op == 'icmp':
            return self.icmp(st, a['pred'], ins.ty, self.val(st, env, ins.ty, a['x']), self.val(st, env, ins.ty, a['y']))
        if op == 'fcmp':
            return fcmp(a['pred'], self.val(st, env, ins.ty, a['x']), self.val(st, env, ins.ty, a['y']))
        if op in llir.CAST:
            return self.cast(st, op, a['fty'], ins.ty, self.val(st, env, a['fty'], a['x']))
        if op == 'alloca':
            ty = ins.ty
            try:
                size = self.m.sizeof(ty)
            except Exception:
                size = 1 << 16
            if a['count'] is not None and a['count'] != ('int', 1):
                raise Unsupported('dynamic alloca')
            rid = self.new_region(st, 'cells', 'stack', size, ins.res)
            env['#allocas'] = env['#allocas'] + (rid,)
            return Ptr(rid, 0)
        if op == 'fneg':
            return ufun('fneg')(self.val(st, env, ins.ty, a['x']))
        if op == 'landingpad':
            return [Opaque('exc'), 0]
        if op == 'extractvalue':
            v = self.val(st, env, a['aty'], a['x'])
            for i in a['idx']:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(st, env, ins.ty, a['x'])
            v = _deep(v)
            w = v
            for i in a['idx'][:-1]:
                w = w[i]
            w[a['idx'][-1]] = self.val(st, env, a['ety'], a['v'])
            return v
        if op == 'freeze':
            return self.val(st, env, ins.ty, a['x'])
        raise Unsupported(op)

    def do_call(self, fn, ins, env, st, work, outs, bname, blk):
        """executes the call; pushes continuations; returns a State to continue inline or None"""
        callee = ins.a['callee']
        if callee[0] == 'glob':
            name = callee[1]
        else:
            fp = env.get(callee[1])
            if not isinstance(fp, FnPtr):
                raise Unsupported('indirect call')
            name = fp.name
        args = []
        for aty, v, info in ins.a['args']:
            x = None if aty == 'metadata' else self.val(st, env, aty, v)
            if 'byval' in info:
                # callee receives a private copy
                size = self.m.sizeof(info['byval'])
                rid = self.new_region(st, 'cells', 'stack', size, 'byval')
                env['#allocas'] = env['#allocas'] + (rid,)
                if not self.memcpy(st, Ptr(rid, 0), x, size, False):
                    return None
                x = Ptr(rid, 0)
            args.append(x)
        rs = self.call(st, name, args)
        inv = ins.op == 'invoke'
        conts = []
        for o in rs:
            if o.kind == 'ret':
                conts.append(o)
            elif o.kind == 'exc':
                if inv:
                    work.append((ins.a['unwind'], bname, dict(env), o.st, False))
                else:
                    outs.append((Out(o.st, 'exc', None), env['#allocas']))
        if not conts:
            return None
        if inv:
            for o in conts[1:]:
                e2 = dict(env)
                if ins.res is not None:
                    e2[ins.res] = o.val
                work.append((ins.a['normal'], bname, e2, o.st, False))
        else:
            for o in conts[1:]:
                e2 = dict(env)
                if ins.res is not None:
                    e2[ins.res] = o.val
                self.cont(fn, bname, blk, ins, e2, o.st, work, outs)
        o = conts[0]
        if ins.res is not None:
            env[ins.res] = o.val
        return o.st

    # ---------------------------------------------------------------- externals
    def external(self, st, name, args):
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args)
        R = lambda v=None: [Out(st, 'ret', v)]
        if name in ('_Znam', '_Znwm'):
            n = args[0]
            self.trusted.add('operator new[] (returns a fresh block of the requested size' + (' or throws)' if getattr(self, 'allocfail', False) else '; allocation failure is not modelled here)'))
            bad = Out(st.copy(), 'exc', None) if getattr(self, 'allocfail', False) else None
            self.trusted.add('a single allocation is smaller than 2^47 bytes (larger requests fail with std::bad_alloc)')
            st.assume(le(n, 2 ** 47))
            if not st.feasible():
                return [bad] if bad else []
            rid = self.new_region(st, 'arr', 'heap', n, 'new', es=None, ety=None, n=None)
            st.newheap = st.newheap + (rid,)
            return R(Ptr(rid, 0)) + ([bad] if bad else [])
        if name in ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'):
            p = args[0]
            if isinstance(p, Ptr) and p.reg is None:
                return R()
            if isinstance(p, Opaque):
                self.obligation(st, 'ownership', False, 'delete[] of an uninitialised pointer')
                return []
            r = st.mem.get(p.reg)
            if r is None or r.status == 'freed':
                self.obligation(st, 'ownership', False, 'delete[] of memory that was already released')
                return []
            if r.status != 'heap':
                self.obligation(st, 'ownership', False, 'delete[] of memory the library does not own')
                return []
            if not self.obligation(st, 'ownership', eqv(p.off, 0), 'delete[] of the start of the block'):
                return []
            st.w(p.reg).status = 'freed'
            st.newheap = tuple(x for x in st.newheap if x != p.reg)
            self.obligation(st, 'ownership', True, 'delete[] releases an owned live block exactly once')
            return R()
        if name == '__cxa_allocate_exception':
            rid = self.new_region(st, 'cells', 'exc', 4096, 'exception')
            return R(Ptr(rid, 0))
        if name == '__cxa_throw':
            return [Out(st, 'exc', None)]
        if name == '__cxa_free_exception':
            return R()
        if name in ('__clang_call_terminate', '_ZSt9terminatev', '__cxa_rethrow', '__cxa_pure_virtual', 'abort'):
            self.obligation(st, 'terminate', not st.feasible(), 'std::terminate is not reached (exception leaves a noexcept function)')
            return []
        if name.startswith('_ZSt') and '__throw_' in name:
            return [Out(st, 'exc', None)]
        if name in ('memmove', 'memcpy'):
            return R(args[0]) if self.memcpy(st, args[0], args[1], args[2], name == 'memmove') else []
        if name in MATH1:
            return R(ufun(name)(args[0]))
        if name in MATH2:
            return R(fbin(name, args[0], args[1]))
        if name == 'fabs':
            return R(ufun('fabs')(args[0]))
        d = self.demangle(name)
        if d.startswith('std::'):
            if d in ('std::isnan(double)',):
                return R(nan(args[0]))
            if d in ('std::isinf(double)',):
                v = val(args[0])
                return R(z3.And(z3.Not(nan(args[0])), z3.Or(v == INFV, v == -INFV)))
            if d in ('std::isfinite(double)',):
                v = val(args[0])
                return R(z3.And(z3.Not(nan(args[0])), v != INFV, v != -INFV))
            m = re.match(r'^std::(\w+)\(double\)$', d)
            if m and m.group(1) in MATH1:
                return R(ufun(m.group(1))(args[0]))
        if STD_NOOP.match(d) or (d.startswith('std::') and ('basic_ostream' in d or 'basic_string' in d)):
            self.trusted.add('std::string / std::ostream functions (no effect on vectors, do not throw)')
            ret = llir_ret(self.m, name)
            if ret == 'void' or ret is None:
                return R()
            if ret == 'ptr':
                return R(args[0] if args and isinstance(args[0], Ptr) else Opaque('std'))
            return R(self.fresh_of(ret, 'std'))
        for pat, h in self.contracts:
            if pat.match(d):
                r = h(self, st, name, d, args)
                if r is not None:
                    return r
        return None

    def intrinsic(self, st, name, args):
        R = lambda v=None: [Out(st, 'ret', v)]
        base = name.split('.')
        k = base[1]
        if k in ('memcpy', 'memmove'):
            return R() if self.memcpy(st, args[0], args[1], args[2], k == 'memmove') else []
        if k == 'memset':
            p, v, n = args[:3]
            if not (isc(v) and v == 0):
                raise Unsupported('memset value')
            if p.reg is None:
                raise Unsupported('memset null')
            r = st.mem[p.reg]
            if r.kind == 'cells' and isc(n):
                if not isc(p.off):
                    raise Unsupported('symbolic offset into object')
                if r.status == 'freed' or not 0 <= p.off <= p.off + n <= r.size:
                    self.obligation(st, 'memory', False, 'memset stays inside the object')
                    return []
                r = st.w(p.reg)
                for o in [o for o, c in r.cells.items() if o < p.off + n and p.off < o + c[0]]:
                    del r.cells[o]
                r.zero.append((p.off, p.off + n))
                return R()
            if r.kind == 'arr':
                r = st.w(p.reg)
                if r.status == 'freed':
                    self.obligation(st, 'memory', False, 'memset of dead memory')
                    return []
                if r.ety is None:
                    # typed later: remember the cleared bytes
                    if not (isc(p.off) and p.off == 0):
                        raise Unsupported('memset inside an untyped array')
                    if not self.obligation(st, 'bounds', le(n, r.size), 'memset stays inside the array'):
                        return []
                    r.zero.append((0, n))
                    return R()
                cnt = ediv(n, r.es)
                if not self.obligation(st, 'bounds', band(le(0, p.off), le(add(p.off, cnt), r.n), eqv(mul(cnt, r.es), n)), 'memset stays inside the array'):
                    return []
                r.content = ARange(r.content, p.off, add(p.off, cnt), lambda i, z=self.zero_of(r.ety): z)
                return R()
            raise Unsupported('memset')
        if k in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'trap', 'prefetch', 'stacksave', 'stackrestore'):
            if k == 'trap':
                self.obligation(st, 'unreachable', not st.feasible(), 'trap not reached')
                return []
            return R(Opaque('intr'))
        if k == 'umul':
            w = int(base[-1][1:])
            t = mul(args[0], args[1])
            b = bounds(t)
            over = lt(M64 - 1, t) if w == 64 else None
            if over is None:
                raise Unsupported(name)
            d = False if (b[1] is not None and b[1] < M64) else st.decide(over)
            if d is False:
                return R([t, False])
            return R([self.wrap(st, t, w), over])
        if k == 'uadd' and base[2] == 'with':
            t = add(args[0], args[1])
            over = lt(M64 - 1, t)
            d = st.decide(over)
            return R([self.wrap(st, t, 64), over if d is None else d])
        if k == 'fabs':
            return R(ufun('fabs')(args[0]))
        if k in MATH1:
            return R(ufun(k)(args[0]))
        if k in MATH2:
            return R(fbin(k, args[0], args[1]))
        if k == 'fmuladd':
            return R(fbin('fadd', fbin('fmul', args[0], args[1]), args[2]))
        if k == 'expect':
            return R(args[0])
        if k in ('smax', 'smin', 'umax', 'umin'):
            a, b = args
            w = int(base[-1][1:])
            x, y = (self.signed(st, a, w), self.signed(st, b, w)) if k[0] == 's' else (self.unsigned(st, a, w), self.unsigned(st, b, w))
            c = lt(x, y)
            return R(ite(c, a, b) if k.endswith('min') else ite(c, b, a))
        if k == 'abs':
            w = int(base[-1][1:])
            s = self.signed(st, args[0], w)
            return R(self.wrap(st, ite(le(0, s), s, sub(0, s)), w))
        if k == 'is' and base[2] == 'fpclass':
            mask = args[1]
            x = args[0]
            conds = []
            if mask & 3:
                conds.append(nan(x))
            if mask & 0x204:
                v = val(x)
                if mask & 0x200:
                    conds.append(z3.And(z3.Not(nan(x)), v == INFV))
                if mask & 4:
                    conds.append(z3.And(z3.Not(nan(x)), v == -INFV))
            if mask & ~0x207:
                raise Unsupported('fpclass')
            return R(bor(*conds))
        if k == 'eh':
            return R(0)
        if k == 'copysign':
            return R(fbin('copysign', args[0], args[1]))
        raise Unsupported(name)


def _compl(a, b):
    x = bnot(a)
    return not isinstance(x, bool) and x.eq(b) or (not isinstance(bnot(b), bool) and bnot(b).eq(a))


def _deep(v):
    return [_deep(x) for x in v] if isinstance(v, list) else v


def llir_ret(m, name):
    f = m.funcs.get(name)
    if f is not None:
        fn = llir.get_function(m, name)
        return fn.ret
    d = m.decls.get(name)
    if d:
        k = d.index('@')
        toks = [t for t in llir.tokenize(d[:k]) if t not in ('declare', 'dso_local', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'hidden', 'unnamed_addr')]
        p = llir.P(toks)
        p.attrs()
        return p.type()
    return None
