"""C06 every block is released exactly once, on normal and exceptional exits"""
from prop import Prop
from lib import *
from C09 import int_range

prop = Prop('C06', ['C06.cpp'], replay='C06.cpp', allocfail=True)
prop.assumptions += ['any allocation may fail: operator new either returns a fresh block or throws']


def scope(f, spec, rng=(), sizes='', states=('any',), throws=True):
    """run f on objects described by spec: D I B vectors, d x bare buffers, s i n scalars, m borrowed memory,
    R Q uninitialised objects; a following ! marks an object that may change, ~ one that is destroyed.
    Whatever the outcome: objects not marked are untouched, every block has exactly one owner and the
    marked ones satisfy the class invariant."""
    def go(c):
        c.ex.allocfail = True
        args, changed, dead, made = [], [], [], []
        k = 0
        for q, T in enumerate(spec):
            if T in '!~':
                continue
            mark = spec[q + 1] if q + 1 < len(spec) else ''
            nm = 'abcdefg'[k]
            k += 1
            if T in 'DIB':
                o = c.vec(T, nm, alloc=states[0] if mark in ('!', '~') and mark else True, matrix='any', temp='any' if mark and mark in '!~' else None)
            elif T == 'W':
                o = c.vec('D', nm, layname='WD', owned=False, temp='any')
            elif T == 'd':
                o = c.buf('D', nm, alloc=states[0] if mark and mark in '!~' else True)
            elif T == 'x':
                o = c.buf('S', nm, alloc=states[0] if mark and mark in '!~' else True)
            elif T in 'RQ':
                o = c.raw('D', nm, vec=T == 'R')
                made.append(o)
            elif T == 'm':
                m = bounded('m', 1, SZMAX)
                c.hints.append(('m', m))
                rid, u = c.array('D', m, 'mem', status='ext')
                args += [Ptr(rid, 0), m]
                c.borrowed = rid
                continue
            else:
                o = c.scalar({'s': 'D', 'i': 'I', 'n': 'S', 'p': 'S'}[T], nm)
                if T == 'p':
                    c.assume(band(le(1, o), le(o, SZMAX)))
                args.append(o)
                continue
            args.append(o)
            if mark == '!' or T in 'RQ':
                changed.append(o)
            elif mark == '~':
                changed.append(o)
                dead.append(o)
        for i, j in rng:
            c.every(args[i], args[i].n, int_range if j is None else (lambda x, n=args[j].n, T=args[i].T: inr_(T, x, n)))
        if sizes:
            c.assume(B(le(sizes_(args, sizes), SZMAX)))
        for o in c.run(f, args):
            if not throws:
                c.require(o.st, 'does not throw', o.kind == 'ret')
            gone = dead + (made if o.kind != 'ret' else [])
            ok = [getattr(c, 'borrowed')] if hasattr(c, 'borrowed') else []
            c.clean(o, changed, 'on return' if o.kind == 'ret' else 'on an exception', dead=gone, also=ok)
    return go


def inr_(T, x, n):
    return B(band(le(1, x), le(x, n)))


def sizes_(args, s):
    t = 0
    for ch in s:
        t = add(t, args[int(ch)].n if ch.isdigit() and isinstance(args[int(ch)], Store) else 1)
    return t


def many(table, **kw):
    for line in table.strip().splitlines():
        w = line.split()
        f, spec = w[0], w[1]
        opts = dict(x.split('=') for x in w[2:])
        exp = ('ret', 'exc') if opts.get('t', 'y') == 'y' else ('ret',)
        one = True if 'ne' in opts else 'any'
        for al in ((one, False) if opts.get('st') == '2' else (one,)):
            prop.case(f + ('' if al else '_empty'), scope(f, spec if spec != '-' else '', states=(al,), throws=opts.get('t', 'y') == 'y', sizes=opts.get('n', ''),
                                                        rng=[(int(opts['rd']), None)] if 'rd' in opts else ()),
                      expect=exp, weight=int(opts.get('w', 1)))


many("""
l_size n
l_scalar s
l_mat pp
l_ptr m
l_copy D
l_copy_i I
l_copy_b B
l_move D!
l_conv I
l_expr DD
l_expr2 DD w=3
l_chain DD w=3
l_cmp DD
l_un D
l_coca DI n=01ss w=2
l_coca_init DD n=01 w=2
l_coca_conv II n=01 w=2
l_coca_nest DD n=001s w=3
l_colon ii
l_rep Di
l_rep_s si
l_matrix Dii
l_matrix_s sii
l_vector i
l_isna D
l_dim D
l_subset DI w=2
l_subset_d DD w=2
l_subset_b DB w=2
l_subset_s Di w=2
l_subset_t D w=2
l_subset_x DD w=2
l_subset_e DI w=2
l_subset_c Dii w=2
l_subset_n DII w=3
l_assign_sub D!ID w=2
l_assign_subs D!Is w=2
l_at Dis
l_at_d Dss
l_index Dn
l_resize Dn w=2
l_if Di w=2
l_passby D
l_borrow mD
l_borrow_s m
l_ret D!Di w=2
o_assign D!D st=2
o_assign_i D!I st=2
o_expr D!DD st=2
o_self D!D ne=1
o_scalar D!s t=n
o_int D!i t=n
o_sub D!DI w=2
o_sub_cmp D!s w=2
o_into D!ID w=2
o_into_s D!Is w=2
o_into_e D!ID w=2 ne=1
o_into_d D!Ds w=2
o_into_b D!Bs w=2
o_into_sub D!IDI w=3
o_coca D!D n=001 w=3
o_rep D!i
o_colon I!II
o_matrix D!ii
o_isinf B!D
o_destroy D~ t=n st=2
o_destroy_i I~ t=n
o_destroy_b B~ t=n
o_destroy_w W~ t=n
b_destroy d~ t=n st=2
b_destroy_s x~ t=n st=2
b_resize d!n st=2
b_init d!n st=2
b_realloc d!i st=2
b_push d!s st=2
b_assign d!d st=2
b_moveit d!d! t=n st=2
b_fill d!D
b_fill_c d!DD n=12
bs_push x!n st=2
bs_resize x!n st=2
bs_assign x!x st=2
c_copy RD
c_size Rn
c_mat Rpp
c_coca RDD n=12
c_conv RI
c_bcopy Qd
c_bmove Qd! t=n
""")
