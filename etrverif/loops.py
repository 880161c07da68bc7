"""Loop summaries, inductively checked.

A loop head state is described by closed forms in a ghost iteration counter k >= 0.
The forms are guessed from one symbolic execution of the body and then *proved*:
executing the body once from the head state S(k) must lead to S(k+1) on every back
edge (and S(0) is the entry state).  An item whose form cannot be proved is weakened
to an arbitrary sequence h(k).  No loop is unrolled and there is no bound on k.
"""
import z3, re
from terms import *
from symex import *
import terms

_sufx = re.compile(r'!(\d+)$')


def mark():
    return terms._ctr[0]


_names = {}


def newest(t):
    """largest creation number of a symbol in t"""
    if isc(t) or not isinstance(t, z3.AstRef):
        return 0
    k = t.get_id()
    r = _names.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    m = 0
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                g = _sufx.search(x.decl().name())
                if g:
                    m = max(m, int(g.group(1)))
            stack.extend(x.children())
    _names[k] = (t, m)
    return m


def symbols(t):
    out = {}
    if isc(t) or not isinstance(t, z3.AstRef):
        return out
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            stack.extend(x.children())
    return out


def tainted(t, mk, allowed):
    for n in symbols(t):
        g = _sufx.search(n)
        if g and int(g.group(1)) > mk and n not in allowed:
            return True
    return False


def vmap(v, f):
    if v is None:
        return None
    if isinstance(v, list):
        return [vmap(x, f) for x in v]
    if isinstance(v, Ptr):
        return Ptr(v.reg, f(v.off))
    if isinstance(v, PtrInt):
        return PtrInt(vmap(v.p, f))
    if isinstance(v, (FnPtr, Opaque)):
        return v
    if isc(v):
        return v
    return f(v)


def unwrap(t):
    """strip modular wrapping:  x % m   or   (x - lo) % m + lo"""
    if isc(t):
        return t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() in (2 ** 64, 2 ** 32):
        return fold(norm(t.arg(0)))
    p = poly(t)
    for m, c in p.items():
        if c == 1 and len(m) == 1:
            a = terms._atoms[m[0]]
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() in (2 ** 64, 2 ** 32):
                q = dict(p)
                del q[m]
                return add(frompoly(q), fold(norm(a.arg(0))))
    return t


def nowrap(t):
    """t with every  x mod 2^w  replaced by x"""
    if isc(t):
        return t
    found, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            todo += x.children()
            if x.decl().kind() == z3.Z3_OP_MOD and unwrap(x) is not x and not isc(unwrap(x)):
                found.append((x, I(unwrap(x))))
    return rewrite(t, found) if found else t


def occurs(t, k):
    if isc(t) or not isinstance(t, z3.AstRef):
        return False
    return k.decl().name() in symbols(t)


def moduli(c):
    """the sums modulo 2^32 or 2^64 in an order comparison"""
    while z3.is_not(c):
        c = c.arg(0)
    if not (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)):
        return []
    out, todo = [], list(c.children())
    while todo:
        x = todo.pop()
        if x.sort() == Iso and z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() in (2 ** 32, 2 ** 64):
                out.append(x)
            elif x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
                todo += x.children()
    return out


def kcoef(t, k):
    """t = c*k + rest with c, rest k-free -> (c, rest) or None (c may be symbolic)"""
    if isc(t):
        return 0, t
    p = poly(t)
    kid = k.get_id()
    c, rest = {}, {}
    for m, v in p.items():
        n = m.count(kid)
        if n == 0:
            for a in m:
                if occurs(terms._atoms[a], k):
                    return None
            rest[m] = v
        elif n == 1:
            mm = list(m)
            mm.remove(kid)
            for a in mm:
                if occurs(terms._atoms[a], k):
                    return None
            c[tuple(mm)] = v
        else:
            return None
    terms._atoms[kid] = k
    return frompoly(c), frompoly(rest)


def subst_content(c, pairs, funs=None):
    f = lambda t: t if isc(t) else rewrite(t, pairs, funs)
    if isinstance(c, ABase):
        if funs is None:
            x = c.fn(fresh('probe', Iso))
            if isc(x) or not any(occurs(x, a) for a, _ in pairs):
                return c
        return ABase(lambda i, c=c: f(c.fn(i)))
    if isinstance(c, AStore):
        return AStore(subst_content(c.prev, pairs, funs), f(c.i), f(c.v))
    if isinstance(c, ARange):
        return ARange(subst_content(c.prev, pairs, funs), f(c.lo), f(c.hi), lambda i, c=c: f(c.fn(i)))
    if isinstance(c, ACopy):
        return ACopy(subst_content(c.prev, pairs, funs), f(c.lo), f(c.hi), subst_content(c.src, pairs, funs), f(c.so))
    if isinstance(c, AIte):
        return AIte(f(c.c), subst_content(c.a, pairs, funs), subst_content(c.b, pairs, funs))
    raise Unsupported('content')


class Item:
    __slots__ = ('kind', 'key', 'init', 'sym', 'size', 'form', 'nxt', 'how', 'fnname', 'width')

    def __init__(self, kind, key, init, size=None, width=None):
        self.kind, self.key, self.init, self.size, self.width = kind, key, init, size, width
        self.form = None
        self.how = None
        self.nxt = None
        self.sym = None
        self.fnname = None


def sort_of(v):
    if isinstance(v, bool):
        return Bso
    if isinstance(v, int):
        return Iso
    if isinstance(v, z3.AstRef):
        return v.sort()
    return None


class Bail(Exception):
    pass


class Relax(Exception):
    pass


class LoopMixin:
    LOOPLOG = False

    # ------------------------------------------------------------ head states
    def head_state(self, env0, st0, items, value):
        """env/state at the head with items replaced by value(item)"""
        env = dict(env0)
        st = st0.copy()
        for it in items:
            if it.kind == 'phi':
                env[it.key] = value(it)
            elif it.kind == 'cell':
                rid, off = it.key
                r = st.w(rid)
                r.cells[off] = (it.size, value(it))
            elif it.kind == 'drop':
                rid, off = it.key
                r = st.w(rid)
                r.cells.pop(off, None)
            elif it.kind == 'arr':
                r = st.w(it.key)
                r.content = value(it)
        return env, st

    def item_sym(self, it):
        v = it.init
        if it.kind == 'arr':
            r = it.size
            u = freshf('ha', Iso, F if r[0] == 'f' else Iso)
            if r[0] != 'f':
                lo, hi = canon_range(r[1])
                RANGES[u.name()] = (0, 1) if r[1] == 8 else (lo, hi)
            it.fnname = u.name()
            return ABase(lambda i, u=u: u(I(i)))
        if isinstance(v, Ptr):
            if v.reg is None:
                return v
            return Ptr(v.reg, fresh('ho', Iso))
        if isinstance(v, (Opaque, FnPtr, PtrInt, list)) or v is None:
            return v
        so = sort_of(v)
        if so.eq(Iso):
            w = it.width
            lo, hi = canon_range(w) if w else (None, None)
            return bounded('h', lo, hi)
        return fresh('h', so)

    # ------------------------------------------------------------ one pass over the body
    def body(self, fn, H, env, st):
        backs, exits, outs = [], [], []
        self.run(fn, [(H, None, env, st, True)], fn.loops[H], H, outs, backs, exits)
        return backs, exits, outs

    def phi_in(self, fn, H, prev, env, st):
        vals = {}
        for ph in fn.blocks[H].phis:
            for v, b in ph.a['inc']:
                if b == prev:
                    vals[ph.res] = self.val(st, env, ph.ty, v)
                    break
            else:
                raise Unsupported('phi')
        return vals

    PEEL = ('allocation survives a loop iteration', 'ownership changes inside a loop', 'symbolic offset into object',
            'loop discovery does not stabilise', 'loop form not inductive', 'memset in loop')

    def loop(self, fn, H, prev, env, st, outs, ex, peeled=0, fixed=0):
        """summarise the loop; when its first rounds differ from the later ones, execute them and
        summarise the rest"""
        was_active = self.active
        self.loop_depth = getattr(self, 'loop_depth', 0) + 1
        env1, st1, n = dict(env), st.copy(), (len(outs), len(ex), len(self.obls), len(self.loops_seen))
        was_lenient = self.lenient

        def undo():
            self.active, self.lenient = was_active, was_lenient
            for l, k in zip((outs, ex, self.obls, self.loops_seen), n):
                del l[k:]
        try:
            if was_lenient:
                self._loop(fn, H, prev, env, st, outs, ex, was_active, 'settle')
                return
            try:
                self._loop(fn, H, prev, env, st, outs, ex, was_active, 'strict')
            except Relax:
                # an array without closed form: guess once more as if sums did not wrap
                undo()
                try:
                    self._loop(fn, H, prev, dict(env1), st1.copy(), outs, ex, was_active, 'lenient')
                except (Relax, Unsupported):
                    undo()
                    self._loop(fn, H, prev, dict(env1), st1.copy(), outs, ex, was_active, 'settle')
            return
        except Unsupported as e:
            if str(e) not in self.PEEL or peeled >= 2 or fixed >= 40:
                raise
        finally:
            self.active, self.lenient = was_active, was_lenient
            self.loop_depth -= 1
        for l, k in zip((outs, ex, self.obls, self.loops_seen), n):
            del l[k:]
        env1.update(self.phi_in(fn, H, prev, env1, st1))
        backs, exits, o = self.body(fn, H, env1, st1)
        outs.extend(o)
        self.emit_exits(exits, ex, None, None)
        certain = len(backs) <= 1 and not exits
        for bp, benv, bst in backs:
            self.loop(fn, H, bp, benv, bst, outs, ex, peeled if certain else peeled + 1, fixed + 1)

    def _loop(self, fn, H, prev, env, st, outs, ex, was_active, mode):
        was_lenient = self.lenient
        env0 = dict(env)
        pv = self.phi_in(fn, H, prev, env, st)
        env0.update(pv)
        tys = {ph.res: ph.ty for ph in fn.blocks[H].phis}
        # ---- discovery
        self.active = False
        items = {}
        for n, v in pv.items():
            ty = self.m.resolve(tys[n])
            items[('phi', n)] = Item('phi', n, v, width=ty[1] if ty != 'ptr' and ty[0] == 'i' else None)
        st0 = st
        for attempt in range(12):
            mk = mark()
            for it in items.values():
                it.sym = self.item_sym(it) if it.kind != 'drop' else None
            il = list(items.values())
            henv, hst = self.head_state(env0, st0, il, lambda it: it.sym)
            n0 = len(hst.pc)
            head = hst.copy()
            hmem = dict(hst.mem)
            self.lenient = was_lenient or mode == 'lenient'
            backs, exits, _ = self.body(fn, H, henv, hst)
            self.lenient = was_lenient
            again = False
            newitems = {}
            for (bp, benv, bst) in backs:
                for rid, r in list(bst.mem.items()):
                    h = hmem.get(rid)
                    if h is r:
                        continue
                    if h is None:
                        if r.status == 'global':
                            st0.mem[rid] = r
                        elif r.status == 'heap' :
                            raise Unsupported('allocation survives a loop iteration')
                        continue
                    if h.status != r.status:
                        raise Unsupported('ownership changes inside a loop')
                    if r.kind == 'cells':
                        for o, c in r.cells.items():
                            hc = h.cells.get(o)
                            if hc is c:
                                continue
                            if hc is not None and hc[0] == c[0] and self.same(hc[1], c[1]):
                                continue
                            if ('cell', rid, o) in items or ('drop', rid, o) in items:
                                continue
                            if hc is None:
                                z = any(lo <= o and o + c[0] <= hi for lo, hi in h.zero)
                                if z:
                                    init = self.zero_like(c[1])
                                    newitems[('cell', rid, o)] = Item('cell', (rid, o), init, size=c[0], width=8 * c[0])
                                else:
                                    newitems[('drop', rid, o)] = Item('drop', (rid, o), None)
                            else:
                                if hc[0] != c[0]:
                                    newitems[('drop', rid, o)] = Item('drop', (rid, o), None)
                                else:
                                    newitems[('cell', rid, o)] = Item('cell', (rid, o), hc[1], size=c[0], width=8 * c[0])
                        if r.zero != h.zero:
                            raise Unsupported('memset in loop')
                        for o in h.cells:
                            if o not in r.cells and ('drop', rid, o) not in items and ('cell', rid, o) not in items:
                                newitems[('drop', rid, o)] = Item('drop', (rid, o), None)
                    else:
                        if h.es is None or h.ety is None:
                            # lazily typed: give the entry state the same typing
                            w = st0.w(rid)
                            w.es, w.n = r.es, r.n
                            if r.ety is not None:
                                st0.mem[rid] = self.typed(w, r.ety)
                            again = True
                            continue
                        if r.content is not h.content:
                            if ('arr', rid) not in items:
                                newitems[('arr', rid)] = Item('arr', rid, st0.mem[rid].content, size=r.ety)
            # typed on throwing or exiting paths only: harmless
            for k, it in newitems.items():
                items[k] = it
                again = True
            if not again:
                break
        else:
            raise Unsupported('loop discovery does not stabilise')
        il = [it for it in items.values()]
        if not backs:
            # body never reaches the back edge: execute it once
            self.active = was_active
            e2, s2 = dict(env0), st0
            b2, x2, o2 = self.body(fn, H, e2, s2)
            assert not b2
            outs.extend(o2)
            self.emit_exits(x2, ex, None, None)
            return
        # ---- combine the back states
        self.combine(fn, H, il, backs, n0, head)
        # back-edge condition in head symbols
        symnames = {}
        for it in il:
            if it.kind == 'arr':
                symnames[it.fnname] = it
            elif isinstance(it.sym, Ptr) and it.sym.reg is not None:
                symnames[it.sym.off.decl().name()] = it
            elif isinstance(it.sym, z3.AstRef):
                symnames[it.sym.decl().name()] = it
        Cdisj = []
        for (bp, benv, bst) in backs:
            cj = []
            for c in bst.pc[n0:]:
                cj += conj(c)
            Cdisj.append([c for c in cj if not tainted(c, mk, symnames)])
        havoc = set()
        for attempt in range(8):
            k = fresh('k', Iso)
            self.cur_C = Cdisj
            self.guess(il, symnames, k, mk, havoc, head)
            fm = lambda kk: self.forms_at(il, kk)
            env_k, st_k = self.head_state(env0, st0, il, lambda it: it.form(k))
            sub = self.substituter(il, symnames)
            facts = []
            st_k.assume(k >= 0)
            km1 = sub_(k, 1)
            C = lambda kk: bor(*[band(*[sub(c, kk) for c in cj]) for cj in Cdisj])
            Ckm1 = C(km1)
            if Ckm1 is not True:
                st_k.assume(z3.Or(k == 0, B(Ckm1)))
            # candidate bounds for != exits
            for cand in self.candidates(Cdisj, sub, k):
                i0 = rewrite(cand, [(k, I(0))])
                if st0.decide(i0) is not True:
                    continue
                cm = rewrite(cand, [(k, km1)])
                if check(list(st_k.pc) + [k >= 1, cm, bnot(cand)]) == z3.unsat:
                    st_k.assume(cand)
            nob = len(self.obls)
            self.active = was_active
            n1 = len(st_k.pc)
            head_k = st_k.copy()
            backs2, exits2, outs2 = self.body(fn, H, env_k, st_k)
            self.active = False
            bad = None
            kp1 = add(k, 1)
            for (bp, benv, bst) in backs2:
                nv = self.phi_in(fn, H, bp, benv, bst)
                for it in il:
                    if it in havoc and it.kind != 'arr' and not isinstance(it.init, Ptr):
                        continue
                    if it.kind == 'drop' or it in havoc:
                        continue
                    want = it.form(kp1)
                    if it.kind == 'phi':
                        got = nv[it.key]
                    elif it.kind == 'cell':
                        got = bst.mem[it.key[0]].cells[it.key[1]][1]
                    else:
                        got = bst.mem[it.key].content
                    if not self.item_equal(bst, it, got, want):
                        bad = it
                        break
                if bad:
                    break
                # nothing else may have changed
                for rid, r in bst.mem.items():
                    h = head_k.mem.get(rid)
                    if h is None or h is r:
                        continue
                    if h.status != r.status:
                        raise Unsupported('ownership changes inside a loop')
                    if r.kind == 'arr':
                        if r.content is not h.content and ('arr', rid) not in items and h.content is not None:
                            raise Unsupported('unexpected array write in a loop')
                    else:
                        for o, c in r.cells.items():
                            hc = h.cells.get(o)
                            if ('cell', rid, o) in items or ('drop', rid, o) in items or hc is c:
                                continue
                            if hc is None or hc[0] != c[0] or not self.same(hc[1], c[1]):
                                raise Unsupported('unexpected object write in a loop')
            if bad is None:
                break
            del self.obls[nob:]
            if self.LOOPLOG:
                print('   loop item weakened:', fn.name[:40], H, bad.kind, bad.key, bad.how)
            havoc.add(bad)
        else:
            raise Unsupported('loop form not inductive')
        if mode != 'settle' and any(it.kind == 'arr' and it in havoc for it in il):
            raise Relax()
        self.active = was_active
        if self.LOOPLOG:
            print('   loop', short(self.demangle(fn.name))[:60], H, [(it.kind, it.key, it.how) for it in il])
        if was_active:
            self.obls.append(Obl('loop-invariant', 'loop summary is inductive (%s)' % ', '.join(sorted(set(it.how for it in il if it.how))), True, self.where() + ' @' + H, status='unsat'))
            self.loops_seen.append((self.stack[-1] if self.stack else '', H, [it.how for it in il]))
        # throwing outcomes
        for o in outs2:
            outs.append(o)
        fa = (0, k, lambda i: C(i))
        self.emit_exits(exits2, ex, k, n1, fa)

    # ------------------------------------------------------------ exits
    def emit_exits(self, exits, ex, k, n1, fa=None):
        res = []
        for (p, b, env, st) in exits:
            if fa is not None:
                st.fa = st.fa + (fa,)
            if k is not None:
                t = self.solve_k(st, k, n1)
                if t is not None:
                    env, st = self.subst_state(env, st, k, t)
            res.append((p, b, env, st))
        # merge exits with the same edge
        out = []
        for (p, b, env, st) in res:
            for i, (p2, b2, env2, st2) in enumerate(out):
                if b2 == b and p2 == p:
                    m = self.merge_env(env2, st2, env, st)
                    if m:
                        out[i] = (p, b, m[0], m[1])
                        break
            else:
                out.append((p, b, env, st))
        ex.extend(out)

    def merge_env(self, ea, a, eb, b):
        keys = [x for x in ea if x in eb and x != '#allocas']
        va, vb, ks = [], [], []
        for x in keys:
            u, v = ea[x], eb[x]
            if u is v or self.same(u, v):
                continue
            va.append(u)
            vb.append(v)
            ks.append(x)
        if ea['#allocas'] != eb['#allocas']:
            return None
        m = self.merge_states(a, b, va, vb)
        if not m:
            return None
        env = {x: ea[x] for x in keys}
        env['#allocas'] = ea['#allocas']
        for x, v in zip(ks, m[1]):
            env[x] = v
        return env, m[0]

    def solve_k(self, st, k, n1):
        cands = []
        for c in st.pc[n1 - 1:]:
            for c1 in conj(c):
                d = cmp_diff(c1)
                if d is None:
                    continue
                op, t = d
                r = kcoef(t, k)
                if r is None or not isc(r[0]) or r[0] == 0:
                    continue
                co, rest = r
                if op == '==' and co in (1, -1):
                    cands.append(mul(-co, rest))
                elif op == '<=' and co == -1:     # -k + rest <= 0
                    cands.append(rest)
                elif op == '<' and co == -1:
                    cands.append(add(rest, 1))
                elif op == '<=' and co < -1:
                    # |co|*k >= rest: k = ceil(rest/|co|)
                    cands.append(fold(z3.simplify((I(rest) + (-co - 1)) / (-co))))
                elif op == '<' and co < -1:
                    cands.append(fold(z3.simplify(I(rest) / (-co) + 1)))
        if k is not None:
            cands.append(0)
        for t in cands:
            if occurs(t, k):
                continue
            if check(list(st.pc) + [bnot(eqv(k, t))]) == z3.unsat:
                return t
        for t in cands:
            if occurs(t, k) or isc(t):
                continue
            u = ite(lt(0, t), t, 0)
            if check(list(st.pc) + [bnot(eqv(k, u))]) == z3.unsat:
                return u
        return None

    def subst_state(self, env, st, k, t):
        pr = [(k, I(t))]
        f = lambda x: x if isc(x) or not occurs(x, k) else rewrite(x, pr)
        s = State(self)
        s.newheap, s.note = st.newheap, st.note
        s.fa = tuple((f(lo), f(hi), g) for lo, hi, g in st.fa)
        pc, lem = [], set()
        for ci, c in enumerate(st.pc):
            c2 = f(c)
            if isinstance(c2, bool):
                if c2 is False:
                    pc.append(z3.BoolVal(False))
                continue
            c2 = z3.simplify(c2) if (z3.is_and(c2) or z3.is_or(c2)) and not c2.eq(c) else c2
            if z3.is_true(c2):
                continue
            d = cmp_diff(c2)
            if d is not None and z3.is_int_value(d[1]):
                z = d[1].as_long()
                if {'<': z < 0, '<=': z <= 0, '==': z == 0, '!=': z != 0}[d[0]]:
                    continue
            if not any(c2.eq(x) for x in pc):
                if ci in st.lem:
                    lem.add(len(pc))
                pc.append(c2)
        s.pc, s.lem = tuple(pc), frozenset(lem)
        for rid, r in st.mem.items():
            if r.kind == 'cells':
                ch = {}
                for o, (sz, v) in r.cells.items():
                    v2 = vmap(v, f)
                    if v2 is not v:
                        ch[o] = (sz, v2)
                if ch:
                    r = r.copy()
                    r.cells.update(ch)
            elif r.content is not None and self.content_occurs(r.content, k):
                r = r.copy()
                r.content = subst_content(r.content, pr)
            s.mem[rid] = r
        e2 = {}
        for n, v in env.items():
            e2[n] = v if n == '#allocas' else vmap(v, f)
        return e2, s

    def content_occurs(self, c, k):
        if isinstance(c, ABase):
            x = fresh('probe', Iso)
            return occurs(c.fn(x), k)
        if isinstance(c, AStore):
            return occurs(c.i, k) or occurs(c.v, k) or self.content_occurs(c.prev, k)
        if isinstance(c, ARange):
            x = fresh('probe', Iso)
            return occurs(c.lo, k) or occurs(c.hi, k) or occurs(c.fn(x), k) or self.content_occurs(c.prev, k)
        if isinstance(c, ACopy):
            return occurs(c.lo, k) or occurs(c.hi, k) or occurs(c.so, k) or self.content_occurs(c.prev, k) or self.content_occurs(c.src, k)
        if isinstance(c, AIte):
            return occurs(c.c, k) or self.content_occurs(c.a, k) or self.content_occurs(c.b, k)
        return True

    # ------------------------------------------------------------ helpers
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.reg == b.reg and eqv(a.off, b.off) is True
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return isinstance(a, Opaque) and isinstance(b, Opaque)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return self.same(a.p, b.p)
        if isinstance(a, (Ptr, FnPtr, PtrInt, list)) or isinstance(b, (Ptr, FnPtr, PtrInt, list)) or a is None or b is None:
            return False
        sa, sb = sort_of(a), sort_of(b)
        if not sa.eq(sb):
            return False
        return eqv(a, b) is True

    def zero_like(self, v):
        if isinstance(v, (Ptr, Opaque)):
            return NULL
        so = sort_of(v)
        if so is None:
            raise Unsupported('zero like')
        if so.eq(Bso):
            return False
        if so.eq(Iso):
            return 0
        return fconst(Fraction(0))

    def item_equal(self, st, it, got, want):
        if it.kind == 'arr':
            if got is want:
                return True
            j = fresh('j', Iso)
            s = st.copy()
            s.assume(z3.And(j >= 0, j < I(s.mem[it.key].n)))
            a = aselect(got, j, None)
            b = aselect(want, j, None)
            e = eqv(a, b)
            if s.decide(e) is True:
                return True
            return False
        if isinstance(want, Ptr):
            if not isinstance(got, Ptr) or got.reg != want.reg:
                return False
            return st.decide(eqv(got.off, want.off)) is True
        if isinstance(want, (Opaque, FnPtr, PtrInt, list)) or want is None:
            return self.same(got, want) or (isinstance(want, Opaque))
        if isinstance(got, (Ptr, Opaque, FnPtr, PtrInt, list)):
            return False
        if not sort_of(got).eq(sort_of(want)):
            return False
        return st.decide(eqv(got, want)) is True

    def combine(self, fn, H, il, backs, n0, head):
        """it.nxt = list of (cond, value) over the back states"""
        suf = []
        for (bp, benv, bst) in backs:
            cs = []
            for c in bst.pc[n0:]:
                cs += conj(c)
            suf.append(cs)
        common = [c for c in suf[0] if all(any(c.eq(d) for d in s) for s in suf[1:])]
        conds = [band(*[c for c in s if not any(c.eq(d) for d in common)]) for s in suf]
        nvs = [self.phi_in(fn, H, bp, benv, bst) for (bp, benv, bst) in backs]
        for it in il:
            vs = []
            for (bp, benv, bst), c, nv in zip(backs, conds, nvs):
                if it.kind == 'phi':
                    v = nv[it.key]
                elif it.kind == 'cell':
                    cc = bst.mem[it.key[0]].cells.get(it.key[1])
                    v = cc[1] if cc else None
                elif it.kind == 'arr':
                    v = bst.mem[it.key].content
                else:
                    v = None
                vs.append((c, v))
            it.nxt = vs

    def substituter(self, il, symnames):
        """function (term, kk) -> term with head symbols replaced by their forms at kk"""
        def sub(t, kk):
            if isc(t):
                return t
            names = symbols(t)
            pairs = []
            funs = {}
            for n in names:
                it = symnames.get(n)
                if it is None:
                    continue
                v = it.form(kk)
                if it.kind == 'arr':
                    funs[n] = lambda i, v=v: aselect(v, i, None)
                elif isinstance(it.sym, Ptr):
                    pairs.append((it.sym.off, v.off))
                else:
                    pairs.append((it.sym, v))
            if not pairs and not funs:
                return t
            if funs:
                t = rewrite(t, (), funs)
                if isc(t):
                    return t
                return rewrite(t, pairs) if pairs else t
            return rewrite(t, pairs)
        return sub

    def candidates(self, Cdisj, sub, k):
        out = []
        for cj in Cdisj[:4]:
            for c in cj:
                if z3.is_not(c) and z3.is_eq(c.arg(0)) and z3.is_int(c.arg(0).arg(0)):
                    e = sub(c.arg(0), k)
                    if isc(e) or not z3.is_eq(e):
                        continue
                    d = sub_(e.arg(0), e.arg(1))
                    r = kcoef(d, k)
                    if r is None or r[0] not in (1, -1):
                        continue
                    b = mul(-r[0], r[1])   # equality at k = b
                    x = le(k, b)
                    if not isc(x):
                        out.append(x)
                elif moduli(c):
                    # a test of a sum taken modulo 2^w, which bounds the sum itself
                    e = sub(c, sub_(k, 1))
                    if isc(e) or isinstance(e, bool):
                        continue
                    ms = [m for m in moduli(e) if kcoef(m.arg(0), k) is not None]
                    if ms:
                        out.append(z3.Or(k == 0, z3.substitute(e, *[(m, m.arg(0)) for m in ms])))
        return out

    # ------------------------------------------------------------ guessing forms
    def forms_at(self, il, kk):
        return {it: it.form(kk) for it in il}

    def guess(self, il, symnames, k, mk, havoc, head):
        allowed = set(symnames)
        pending = []
        for it in il:
            it.form = None
            it.how = None
        for it in il:
            if it.kind == 'drop':
                it.form = lambda kk: None
                it.how = None
                continue
            if it.kind == 'arr':
                continue
            if it in havoc:
                self.havoc_form(it)
                continue
            vs = [v for _, v in it.nxt]
            if all(self.same(v, it.sym) for v in vs):
                it.form = lambda kk, it=it: it.init
                it.how = None
                continue
            if isinstance(it.sym, Ptr) and it.sym.reg is not None:
                if any(not isinstance(v, Ptr) or v.reg != it.sym.reg for v in vs):
                    raise Unsupported('pointer changes object in a loop')
            elif isinstance(it.sym, Ptr) or isinstance(it.init, (Opaque, FnPtr, PtrInt, list)):
                if isinstance(it.init, Opaque):
                    it.form = lambda kk, it=it: it.init
                    continue
                raise Unsupported('pointer changes object in a loop')
            pending.append(it)
        arrs = [it for it in il if it.kind == 'arr']
        sub = self.substituter(il, symnames)

        def scal(it):
            """symbol term, init term, list of (cond, next term)"""
            if isinstance(it.sym, Ptr):
                return it.sym.off, it.init.off, [(c, v.off) for c, v in it.nxt]
            return it.sym, it.init, it.nxt

        def setform(it, f, how):
            if isinstance(it.sym, Ptr):
                it.form = lambda kk, it=it, f=f: Ptr(it.sym.reg, f(kk))
            else:
                it.form = f
            it.how = how

        def known(t):
            for n in symbols(t):
                o = symnames.get(n)
                if o is not None and o.form is None:
                    return False
            return True

        # 1. affine
        for it in list(pending):
            s, i0, nx = scal(it)
            if not z3.is_int(s):
                continue
            ds = [sub_(unwrap(v), s) for _, v in nx]
            d0 = ds[0]
            if not all((isc(d) and isc(d0) and d == d0) or (not isc(d) and not isc(d0) and d.eq(d0)) for d in ds):
                continue
            if isc(d0) or not any(n in allowed for n in symbols(d0)) and not tainted(d0, mk, allowed):
                setform(it, lambda kk, i0=i0, d0=d0: add(i0, mul(d0, kk)), 'affine')
                pending.remove(it)
        # 2. the rest, in dependency order
        arr_done = False
        progress = True
        while pending or not arr_done:
            progress = False
            for it in list(pending):
                s, i0, nx = scal(it)
                sn = s.decl().name()
                deps_ok = True
                for c, v in nx:
                    for t in (c, v):
                        for n in symbols(t):
                            if n == sn:
                                continue
                            o = symnames.get(n)
                            if o is not None and o.form is None:
                                deps_ok = False
                            elif o is None:
                                g = _sufx.search(n)
                                if g and int(g.group(1)) > mk:
                                    deps_ok = None
                if deps_ok is None:
                    self.havoc_form(it)
                    it.how = 'arbitrary'
                    havoc.add(it)
                    pending.remove(it)
                    progress = True
                    break
                if not deps_ok:
                    continue
                self.guess_scalar(it, s, i0, nx, sub, k, setform, mk, head)
                pending.remove(it)
                progress = True
                break
            if progress:
                continue
            # items that wait for each other only through path conditions: guess without those conditions
            for it in list(pending):
                s, i0, nx = scal(it)
                sn = s.decl().name()
                unknown = lambda t: any(n != sn and (symnames[n].form is None if n in symnames else _sufx.search(n) and int(_sufx.search(n).group(1)) > mk) for n in symbols(t))
                if any(unknown(v) for _, v in nx):
                    continue
                nx = [(band(*[c1 for c1 in conj(c) if not unknown(c1)]), v) for c, v in nx]
                self.guess_scalar(it, s, i0, nx, sub, k, setform, mk, head)
                if it.how in ('fold', 'previous'):
                    it.form = it.how = None
                    continue
                pending.remove(it)
                progress = True
                break
            if progress:
                continue
            # arrays whose pieces are known
            if not arr_done:
                for it in arrs:
                    if it.form is not None:
                        continue
                    if it in havoc:
                        self.havoc_arr(it)
                        continue
                    f = None
                    try:
                        f = self.guess_array(it, sub, k, symnames, known, mk, allowed, head)
                    except Bail as e:
                        if self.LOOPLOG:
                            import traceback
                            print('   bail at', traceback.extract_tb(e.__traceback__)[-1].lineno, e.args)
                        f = None
                    if f is not None:
                        it.form = f
                    elif not pending:
                        self.havoc_arr(it)
                        havoc.add(it)
                    if it.form is not None:
                        progress = True
                if all(it.form is not None for it in arrs):
                    arr_done = True
                    if not pending:
                        break
                    progress = True
            if progress:
                continue
            if pending:
                it = pending.pop(0)
                self.havoc_form(it)
                havoc.add(it)
            elif not arr_done:
                for it in arrs:
                    if it.form is None:
                        self.havoc_arr(it)
                        havoc.add(it)
                arr_done = True

    def havoc_form(self, it):
        s = it.sym.off if isinstance(it.sym, Ptr) else it.sym
        i0 = it.init.off if isinstance(it.sym, Ptr) else it.init
        h = freshf('hv', Iso, s.sort())
        if s.sort().eq(Iso) and it.width and not isinstance(it.sym, Ptr):
            RANGES[h.name()] = canon_range(it.width)
        EXTRA_AX[h.name()] = lambda a, i0=i0: [z3.Implies(a.arg(0) == 0, a == (I(i0) if s.sort().eq(Iso) else B(i0)))]
        f = lambda kk: i0 if isc(kk) and kk == 0 else h(I(kk))
        if isinstance(it.sym, Ptr):
            it.form = lambda kk: Ptr(it.sym.reg, f(kk))
        else:
            it.form = f
        it.how = 'arbitrary'

    def havoc_arr(self, it):
        et = it.size
        h = freshf('hva', Iso, Iso, F if et[0] == 'f' else Iso)
        if et[0] != 'f':
            RANGES[h.name()] = (0, 1) if et[1] == 8 else canon_range(et[1])
        it.form = lambda kk: it.init if isc(kk) and kk == 0 else AIte(eqv(kk, 0), it.init, ABase(lambda i, kk=kk: h(I(kk), I(i))))
        it.how = 'arbitrary array'

    def guess_scalar(self, it, s, i0, nx, sub, k, setform, mk, head):
        # merged next value
        val_ = nx[-1][1]
        for c, v in reversed(nx[:-1]):
            val_ = ite(c, v, val_)
        isint = z3.is_int(s)
        def known(t):
            try:
                sub(t, k)
                return True
            except Exception:
                return False
        indep = not any(occurs(v, s) for _, v in nx) and not any(occurs(c, s) for c, _ in nx)
        if isint:
            # conditional counter
            branches = self.ite_leaves(val_)
            if branches:
                ds = {}
                ok = True
                for c, v in branches:
                    d = sub_(unwrap(v), s)
                    if not isc(d):
                        ok = False
                        break
                    ds.setdefault(d, []).append(c)
                b = None
                if not ok and len(branches) == 1:
                    # x -> x + t with t 0 or 1
                    t = sub_(unwrap(branches[0][1]), s)
                    if not isc(t) and not occurs(t, s) and bounds(t) == (0, 1):
                        ok, ds = True, {1: [eqv(t, 1)], 0: [eqv(t, 0)]}
                if ok and len(ds) == 2 and 0 in ds:
                    d = [x for x in ds if x != 0][0]
                    drop = lambda c: band(*[y for y in conj(c) if not occurs(y, s)])
                    for b in (bor(*ds[d]), bnot(bor(*ds[0])), bor(*[drop(c) for c in ds[d]])):
                        if not isinstance(b, bool) and not occurs(b, s):
                            break
                    else:
                        b = None
                if b is not None:
                    bk = sub(b, k)
                    bf = lambda j, bk=bk: rewrite(bk, [(k, I(j))]) if not isinstance(bk, bool) else bk
                    def within(j):
                        def known(c):
                            try:
                                return sub(c, k)
                            except Exception:
                                return True
                        h = bor(*[band(*[known(c) for c in cj]) for cj in self.cur_C])
                        return rewrite(h, [(k, I(j))]) if not isinstance(h, bool) else h
                    f = self.find_filter(bf, head, within, create=d != -1)
                    if f is None:
                        # counting down: what is left is the number of the others
                        f = self.find_filter(lambda j: bnot(bf(j)), head, within)
                        setform(it, lambda kk, f=f: sub_(add(i0, f.cnt(I(kk))), kk) if not (isc(kk) and kk == 0) else i0, 'count down')
                        return
                    setform(it, lambda kk, f=f, d=d: add(i0, mul(d, f.cnt(I(kk)))) if not (isc(kk) and kk == 0) else i0, 'count')
                    return
                # reset counter:  x+1 == n ? 0 : x+1
                # guess without wrap-around; the induction step decides
                branches = by_value(self.ite_leaves(nowrap(val_)) or ())
                if len(branches) == 2:
                    for (c0, v0), (c1, v1) in (branches, branches[::-1]):
                        if isc(v0) and v0 == 1:
                            # reset when the end was reached, then advance:  (x == n ? 0 : x) + 1
                            d = sub_(unwrap(v1), s)
                            if isc(d) and d == 1:
                                for cc in conj(c1):
                                    q = cmp_diff(cc)
                                    r = kcoef(q[1], s) if q and q[0] in ('<', '!=', '<=') else None
                                    if r and r[0] in (1, -1) and (q[0] == '!=' or r[0] == 1) and not occurs(r[1], s) and known(r[1]):
                                        m = sub(add(mul(-r[0], r[1]), 1 if q[0] == '<=' else 0), k)
                                        if not occurs(m, k):
                                            setform(it, lambda kk, m=m: i0 if isc(kk) and kk == 0 else ite(eqv(kk, 0), i0, add(emod(add(i0, sub_(kk, 1)), m), 1)), 'cyclic')
                                            return
                        if isc(v0) and v0 == 0:
                            d = sub_(unwrap(v1), s)
                            if isc(d) and d == 1:
                                dd = None
                                for cc in conj(c1):
                                    q = cmp_diff(cc)
                                    if q and q[0] in ('<', '!=', '<='):
                                        r = kcoef(q[1], s)
                                        if r and r[0] in (1, -1) and not any(n2 == s.decl().name() for n2 in symbols(r[1])):
                                            if q[0] != '!=' and r[0] != 1:
                                                continue
                                            # continues while x < m, x <= m or x != m
                                            dd = add(mul(-r[0], r[1]), 2 if q[0] == '<=' else 1)
                                if dd is not None and not any(True for n2 in symbols(dd) if n2.startswith('h!')):
                                    setform(it, lambda kk, m=dd: emod(add(i0, kk), m), 'cyclic')
                                    return
            # x -> (x + 1) mod n
            w = nowrap(val_) if not isc(val_) else val_
            if not isc(w) and z3.is_app(w) and (w.decl().eq(imod) or w.decl().kind() == z3.Z3_OP_MOD) and not occurs(w.arg(1), s):
                d, m = sub_(fold(w.arg(0)), s), fold(w.arg(1))
                if isc(d) and d == 1:
                    setform(it, lambda kk, m=m: emod(add(i0, kk), m), 'cyclic')
                    return
        if indep:
            g = lambda kk: sub(val_, kk)
            setform(it, lambda kk, g=g: i0 if isc(kk) and kk == 0 else g(sub_(kk, 1)) if isc(kk) else ite(eqv(kk, 0), i0, g(sub_(kk, 1))), 'previous')
            return
        # fold
        h = freshf('fold', Iso, s.sort())
        if isint and it.width and not isinstance(it.sym, Ptr):
            RANGES[h.name()] = canon_range(it.width)
        def step(kk, cur, val_=val_, s=s):
            t = rewrite(val_, [(s, cur)]) if not isc(val_) else val_
            if not isc(t):
                t = sub(t, kk)
            return I(t) if isint else B(t)
        # note: sub() would replace s itself by form; cur is substituted first
        FOLDS[h.name()] = (h, I(i0) if isint else B(i0), step)
        setform(it, lambda kk, h=h: i0 if isc(kk) and kk == 0 else h(I(kk)), 'fold')

    def ite_leaves(self, t, cond=True, depth=0):
        if depth > 6:
            return None
        if not isc(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = foldb(t.arg(0))
            a = self.ite_leaves(t.arg(1), band(cond, c), depth + 1)
            b = self.ite_leaves(t.arg(2), band(cond, bnot(c)), depth + 1)
            if a is None or b is None:
                return None
            return a + b
        if not isc(t) and z3.is_int(t):
            # 1-level sum with an ite:  x + ite(b,1,0)
            p = poly(t)
            for m, v in p.items():
                if len(m) == 1:
                    a = terms._atoms[m[0]]
                    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                        q = dict(p)
                        del q[m]
                        rest = frompoly(q)
                        c = foldb(a.arg(0))
                        x = self.ite_leaves(add(rest, mul(v, fold(a.arg(1)))), band(cond, c), depth + 1)
                        y = self.ite_leaves(add(rest, mul(v, fold(a.arg(2)))), band(cond, bnot(c)), depth + 1)
                        if x is None or y is None:
                            return None
                        return x + y
        return [(cond, fold(t) if not isc(t) else t)]

    def find_filter(self, bf, head, within=None, create=True):
        """a known filter with this predicate (for the indices the loop runs through); only a guess, the
        loop summary built from it is checked"""
        j = fresh('fj', Iso)
        b1 = bf(j)
        w = [j >= 0]
        for f in reversed(Filt.allf[-12:]):
            if getattr(f, 'ex', None) is not self:
                continue
            b2 = f.b(j)
            if isinstance(b1, bool) or isinstance(b2, bool):
                if isinstance(b1, bool) and isinstance(b2, bool) and b1 == b2:
                    return f
                continue
            if b1.eq(b2):
                return f
            if within is not None:
                h = within(j)
                w += [] if h is True else [B(h)]
                within = None
            if check(list(head.pc) + w + [z3.Xor(b1, b2)]) == z3.unsat:
                return f
        if not create:
            return None
        f = Filt(bf)
        f.ex = self
        return f

    def simp_under(self, t, facts, depth=0, wraps=False):
        """t with the conditionals and remainders decided by the facts replaced; a conditional whose two
        values agree (each under its own condition) becomes that value"""
        tried = set()
        for _ in range(24):
            if isc(t):
                return t
            pairs = []
            seen = set()
            st = [t]
            while st and not pairs:
                x = st.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_ITE:
                    c = x.arg(0)
                    if check(facts + [z3.Not(c)]) == z3.unsat:
                        pairs.append((x, x.arg(1)))
                    elif check(facts + [c]) == z3.unsat:
                        pairs.append((x, x.arg(2)))
                    elif z3.is_int(x) and depth < 4 and x.get_id() not in tried:
                        tried.add(x.get_id())
                        self._keep = getattr(self, '_keep', []) + [x]
                        fa, fb = facts + [c], facts + [z3.Not(c)]
                        a, b = I(self.simp_under(fold(x.arg(1)), fa, depth + 1)), I(self.simp_under(fold(x.arg(2)), fb, depth + 1))
                        if a.eq(b) or check(fb + [a != b]) == z3.unsat:
                            pairs.append((x, a))
                        elif check(fa + [a != b]) == z3.unsat:
                            pairs.append((x, b))
                elif x.decl().eq(imod) or wraps and x.decl().kind() == z3.Z3_OP_MOD:
                    if check(facts + [z3.Not(z3.And(x.arg(0) >= 0, x.arg(0) < x.arg(1)))]) == z3.unsat:
                        pairs.append((x, x.arg(0)))
                if not pairs:
                    st.extend(x.children())
            if not pairs:
                return t
            t = fold(norm(z3.substitute(I(t), *pairs)))
        return t

    def find_scatter(self, ixf, head, facts):
        j = fresh('sj', Iso)
        x = ixf(j)
        for f in reversed(Scat.alls[-12:]):
            if getattr(f, 'ex', None) is not self:
                continue
            y = f.ix(j)
            e = eqv(x, y)
            if e is True:
                return f
            if e is not False and check(list(head.pc) + [j >= 0] + facts(j) + [bnot(e)]) == z3.unsat:
                return f
        f = Scat(ixf)
        f.ex = self
        return f

    def guess_array(self, it, sub, k, symnames, known, mk, allowed, head):
        base = it.sym

        def prevsub(t, kk):
            """like sub, but reads of the array itself see the entry content"""
            if isc(t):
                return t
            names = symbols(t)
            if it.fnname in names:
                t = rewrite(t, (), {it.fnname: lambda i: aselect(it.init, i, None)})
                if isc(t):
                    return t
            return sub(t, kk)

        def chk(t):
            if tainted(t, mk, allowed):
                raise Bail()
            for n in symbols(t):
                o = symnames.get(n)
                if o is not None and o.form is None and o is not it:
                    raise Bail()
            return t

        writes = []   # per back state: list of layers above the head base
        for c, v in it.nxt:
            layers = []
            x = v
            flat = self.flatten(x, base)
            if flat is None:
                raise Bail()
            writes.append((c, flat))
        nz = [w for w in writes if w[1]]
        if not nz:
            it.how = None
            return lambda kk: it.init
        first = nz[0][1]
        if all(len(w[1]) == 1 and isinstance(w[1][0], AStore) or all(isinstance(l, AStore) for l in w[1]) for w in nz):
            # stores: same index in every state (later stores to the same index win)
            idxs = []
            per = []
            for c, ls in writes:
                if not ls:
                    per.append((c, None, None))
                    continue
                i0 = ls[-1].i
                for l in ls:
                    if eqv(l.i, i0) is not True:
                        raise Bail()
                per.append((c, i0, ls[-1].v))
                idxs.append(i0)
            ik = [sub(chk(i), k) for i in idxs]
            if any(eqv(i, ik[0]) is not True for i in ik):
                raise Bail()
            ix = ik[0]
            conds_w = [c for c, i, v in per if i is not None]
            always = all(i is not None for _, i, _ in per)
            w = True if always else bor(*[chk(c) if not isinstance(c, bool) else c for c in conds_w])
            wk = sub(w, k) if not isinstance(w, bool) else w
            vals = [(c, v) for c, i, v in per if i is not None]
            vv = vals[-1][1]
            chk(vv)
            for c, v in reversed(vals[:-1]):
                chk(v)
                if not isinstance(c, bool):
                    chk(c)
                vv = ite(c, v, vv)
            if isinstance(vv, Ptr) or isinstance(vv, Opaque):
                raise Bail()
            vk = prevsub(vv, k)
            at = lambda kk: vk if isc(vk) else rewrite(vk, [(k, I(kk))])
            wat = lambda kk: wk if isinstance(wk, bool) else rewrite(wk, [(k, I(kk))])
            r = kcoef(ix, k)
            cks = None
            if r is None:
                cks = [] if len(self.cur_C) != 1 else [sub(cc, k) for cc in self.cur_C[0] if not any(symnames.get(n) is not None and symnames[n].form is None for n in symbols(cc))]
                cks = [cc for cc in cks if not isinstance(cc, bool)]
                ix = self.simp_under(ix, list(head.pc) + [k >= 0] + cks)
                r = kcoef(ix, k)
                if r is None and not isc(ix):
                    r = kcoef(self.simp_under(ix, list(head.pc) + [k >= 0] + cks, wraps=True), k)
            if r is not None:
                co, a = r
                if co == 1 or co == -1:
                    def f(kk, a=a, co=co):
                        if isc(kk) and kk == 0:
                            return it.init
                        if co == 1:
                            lo, hi = a, add(a, kk)
                            src = lambda i: sub_(i, a)
                        else:
                            lo, hi = add(sub_(a, kk), 1), add(a, 1)
                            src = lambda i: sub_(a, i)
                        if wk is True:
                            return ARange(it.init, lo, hi, lambda i: at(src(i)))
                        return ARange(it.init, lo, hi, lambda i: ite(wat(src(i)), at(src(i)), aselect(it.init, i, None)))
                    it.how = 'elementwise'
                    return f
                if isc(co) and co == 0:
                    if wk is True and not (it.fnname in symbols(vv)):
                        it.how = 'cell'
                        return lambda kk: it.init if isc(kk) and kk == 0 else AIte(eqv(kk, 0), it.init, AStore(it.init, a, at(sub_(kk, 1))))
                    raise Bail()
                if wk is True:
                    def f(kk, a=a, co=co):
                        if isc(kk) and kk == 0:
                            return it.init
                        return ARange(it.init, a, add(a, mul(co, kk)),
                                      lambda i: ite(eqv(emod(sub_(i, a), co), 0), at(ediv(sub_(i, a), co)), aselect(it.init, i, None)))
                    it.how = 'strided'
                    return f
                raise Bail()
            # counter of a filter
            p = poly(ix)
            for m, v in p.items():
                if v == 1 and len(m) == 1:
                    t = terms._atoms[m[0]]
                    if z3.is_app(t) and t.decl().name() in FILT and t.num_args() == 1 and t.decl().eq(FILT[t.decl().name()].cnt) and t.arg(0).eq(k):
                        q = dict(p)
                        del q[m]
                        a = frompoly(q)
                        if occurs(a, k):
                            continue
                        fl = FILT[t.decl().name()]
                        it.how = 'filter'
                        return lambda kk, a=a, fl=fl: it.init if isc(kk) and kk == 0 else ARange(it.init, a, add(a, fl.cnt(I(kk))), lambda i: at(fl.sel(I(sub_(i, a)))))
            # the selected positions of a filter, in order
            for m, v in p.items():
                if v == 1 and len(m) == 1 and wk is True and it.fnname not in symbols(vv):
                    t = terms._atoms[m[0]]
                    if z3.is_app(t) and t.decl().name() in FILT and t.num_args() == 1 and t.decl().eq(FILT[t.decl().name()].sel) and t.arg(0).eq(k):
                        q = dict(p)
                        del q[m]
                        a = frompoly(q)
                        if occurs(a, k):
                            continue
                        fl = FILT[t.decl().name()]
                        it.how = 'selected'

                        def f(kk, a=a, fl=fl):
                            if isc(kk) and kk == 0:
                                return it.init
                            def el(i):
                                x = sub_(i, a)
                                n = fl.cnt(I(x))
                                return ite(band(le(0, x), lt(n, kk), fl.b(I(x))), at(n), aselect(it.init, i, None))
                            return ABase(el)
                        return f
            # scattered positions: the last write to a position wins
            if wk is True and it.fnname not in symbols(vv) and not any(it.fnname in symbols(i) for i in idxs):
                sc = self.find_scatter(lambda j: rewrite(ix, [(k, I(j))]) if not isc(ix) else ix, head,
                                       lambda j: [rewrite(cc, [(k, I(j))]) for cc in cks])
                it.how = 'scatter'

                def f(kk, sc=sc):
                    if isc(kk) and kk == 0:
                        return it.init
                    def el(i):
                        l = sc.last(i, kk)
                        return ite(le(0, l), at(l), aselect(it.init, i, None))
                    return ABase(el)
                return f
            raise Bail()
        # inner loops: one range per selected iteration
        if len(nz) == 1 and len(first) == 1 and isinstance(first[0], ARange):
            f = self.filter_blocks(it, first[0], sub, k, symnames, mk, allowed, head, prevsub, chk)
            if f is not None:
                return f
        # inner loops: one range per iteration
        if len(writes) == 1 and len(first) >= 1 and isinstance(first[-1], ARange):
            if len(first) != 1:
                raise Bail()
            rg = first[0]
            chk(rg.lo)
            chk(rg.hi)
            lo, hi = sub(rg.lo, k), sub(rg.hi, k)
            r = kcoef(lo, k)
            if r is None:
                raise Bail()
            co, a = r
            wdt = sub_(hi, lo)
            if occurs(wdt, k):
                raise Bail()
            probe = fresh('probe', Iso)
            v = rg.fn(probe)
            if v is None or tainted(v, mk, set(allowed) | {probe.decl().name()}):
                raise Bail(str(v), mk)
            chk2 = [n for n in symbols(v) if symnames.get(n) is not None and symnames[n].form is None and symnames[n] is not it]
            if chk2:
                raise Bail()
            if isc(co) and co == 0:
                raise Bail()
            e = eqv(co, wdt)
            if co == 1 and not isc(v):
                f = self.interleaved(it, v, probe, a, rg.lo, wdt, prevsub, sub, k)
                if f is not None:
                    return f
            if e is not True and head.decide(e) is not True:
                # stride differs from the width: rows of a strided layout
                raise Bail()
            def f(kk, a=a, co=co):
                if isc(kk) and kk == 0:
                    return it.init
                def el(i):
                    q = ediv(sub_(i, a), co)
                    x = v if isc(v) else rewrite(v, [(probe, I(i))])
                    return prevsub(x, q)
                return ARange(it.init, a, add(a, mul(co, kk)), el)
            it.how = 'blocks'
            return f
        raise Bail()

    def interleaved(self, it, v, probe, a, lo, wdt, prevsub, sub, k):
        """iteration k writes every H-th position starting at a+k (a column-major layout filled row by row)"""
        if not z3.is_app(v) or v.decl().kind() != z3.Z3_OP_ITE:
            return None
        c, x, y = v.arg(0), v.arg(1), v.arg(2)
        H = None
        st = [c]
        while st:
            t = st.pop()
            if z3.is_app(t) and t.num_args() == 2 and (t.decl().eq(imod) or t.decl().kind() == z3.Z3_OP_MOD):
                H, off = fold(t.arg(1)), fold(t.arg(0))
                break
            st.extend(t.children())
        if H is None or occurs(sub(H, k), k) or eqv(sub(H, k), H) is not True or eqv(off, sub_(probe, lo)) is not True:
            return None
        if eqv(foldb(c), eqv(emod(sub_(probe, lo), H), 0)) is not True and not foldb(c).eq(B(eqv(emod(sub_(probe, lo), H), 0))):
            return None
        if not (z3.is_app(y) and y.decl().name() == it.fnname and y.num_args() == 1 and y.arg(0).eq(probe)):
            return None
        quo = ediv(sub_(probe, lo), H)
        row = fresh('row', Iso)
        x2 = x if isc(quo) else rewrite(x, [(quo, row)])

        def f(kk):
            if isc(kk) and kk == 0:
                return it.init
            def el(i):
                o = sub_(i, a)
                j = emod(o, H)
                z = x2 if isc(x2) else rewrite(x2, [(probe, I(i)), (row, I(ediv(o, H)))])
                return ite(lt(j, kk), prevsub(z, j), aselect(it.init, i, None))
            return ARange(it.init, a, add(a, wdt), el)
        it.how = 'interleaved'
        return f

    def filter_blocks(self, it, rg, sub, k, symnames, mk, allowed, head, prevsub, chk):
        """rg is [a + w*cnt(k), a + w*cnt(k) + w): block q holds what the q-th selected iteration wrote"""
        lo, hi = sub(chk(rg.lo), k), sub(chk(rg.hi), k)
        p = poly(lo)
        fl, co, a = None, {}, {}
        for m, v in p.items():
            hit = [x for x in m if z3.is_app(terms._atoms[x]) and terms._atoms[x].decl().name() in FILT and terms._atoms[x].num_args() == 1
                   and terms._atoms[x].decl().eq(FILT[terms._atoms[x].decl().name()].cnt) and terms._atoms[x].arg(0).eq(k)]
            if len(hit) == 1:
                fl = FILT[terms._atoms[hit[0]].decl().name()]
                mm = list(m)
                mm.remove(hit[0])
                co[tuple(mm)] = v
            else:
                a[m] = v
        if fl is None:
            return None
        co, a = frompoly(co), frompoly(a)
        if occurs(co, k) or occurs(a, k):
            return None
        e = eqv(co, sub_(hi, lo))
        if e is not True and head.decide(e) is not True:
            return None
        probe = fresh('probe', Iso)
        v = rg.fn(probe)
        if v is None or tainted(v, mk, set(allowed) | {probe.decl().name()}) or it.fnname in symbols(v):
            return None
        if any(symnames.get(n) is not None and symnames[n].form is None and symnames[n] is not it for n in symbols(v)):
            return None

        def f(kk):
            if isc(kk) and kk == 0:
                return it.init
            def el(i):
                q = ediv(sub_(i, a), co)
                x = v if isc(v) else rewrite(v, [(probe, I(i))])
                return prevsub(x, fl.sel(I(q)))
            return ARange(it.init, a, add(a, mul(co, fl.cnt(I(kk)))), el)
        it.how = 'filter blocks'
        return f

    def flatten(self, c, base):
        out = []
        while c is not base:
            if isinstance(c, (AStore, ARange)):
                out.append(c)
                c = c.prev
            else:
                return None
        return out[::-1]


def by_value(branches):
    """leaves with the same value joined, with the conditions they share"""
    out = []
    for c, v in branches:
        for i, (c2, v2) in enumerate(out):
            if eqv(v, v2) is True:
                out[i] = (band(*[x for x in conj(c2) if any(x.eq(y) for y in conj(c))]), v2)
                break
        else:
            out.append((c, v))
    return out


def sub_(a, b):
    return sub(a, b)


def conj(c):
    if isinstance(c, bool):
        return []
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += conj(x)
        return out
    return [c]


def cmp_diff(c):
    """comparison -> (op, poly term) meaning term op 0"""
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or not z3.is_int(c.arg(0)):
        return None
    k = c.decl().kind()
    a, b = c.arg(0), c.arg(1)
    d = lambda: sub(fold(norm(a)) if not isc(a) else a, fold(norm(b)))
    if k == z3.Z3_OP_EQ:
        return ('!=' if neg else '==', I(d()))
    if k == z3.Z3_OP_LE:
        return ('<=', I(d())) if not neg else ('<', I(sub(0, d())))
    if k == z3.Z3_OP_LT:
        return ('<', I(d())) if not neg else ('<=', I(sub(0, d())))
    if k == z3.Z3_OP_GE:
        return ('<=', I(sub(0, d()))) if not neg else ('<', I(d()))
    if k == z3.Z3_OP_GT:
        return ('<', I(sub(0, d()))) if not neg else ('<=', I(d()))
    return None
