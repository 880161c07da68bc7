"""C13 concatenation"""
from prop import Prop
from lib import *
from C08 import inr
import C09

prop = Prop('C13', ['C13.cpp'], replay='C13.cpp')
prop.assumptions += ['the total number of elements fits an int']
ORD = 'BID'
F_ = F
# every dispatch of the common type: two and more arguments, each kind of argument once the widest
TYPES = 'si ib sb Bi Bs sI sB iB bD Db Ib IB DB Dii iDi iiD Ibb bsi sbi ibs sIB BsI IDB DBI BBi iBb iIbD Dbbi'.split()


def cast(T, v, to):
    """value v of element type T as element type to (only widening occurs)"""
    if T == to:
        return v
    return i2f(v) if to == 'D' else v


def wrap(v):
    return sub(emod(add(v, 2 ** 31), 2 ** 32), 2 ** 31)


class Part:
    def __init__(self, T, n, fn):
        self.T, self.n, self.fn = T, n, fn


def P(x):
    if isinstance(x, Store):
        return Part(x.T, x.n, lambda j: raw(x, j))
    if z3.is_bool(x):
        return Part('B', 1, lambda j: bit(x))
    return Part('D' if x.sort().eq(F_) else 'I', 1, lambda j: x)




def value(parts, j):
    """element j of the concatenation"""
    if len(parts) == 1:
        return parts[0].fn(j)
    rest = sub(j, parts[0].n)
    return ite(lt(j, parts[0].n), parts[0].fn(j), value(parts[1:], rest))


def total(parts):
    n = 0
    for p in parts:
        n = add(n, p.n)
    return n


def concat(fname, rT, kinds, parts=None, first=True, alias=False, pre=None, new=False, post=None, lay=None):
    """r = coca(...): kinds of the driver's operands; parts(ops) of the concatenation"""
    def go(c):
        ops = []
        if not alias:
            r = c.raw(rT, 'r') if new else target(c, rT, True)
        for k, T in enumerate(kinds):
            x = 'abdefg'[k]
            if T in 'sib':
                ops.append(c.scalar({'s': 'D', 'i': 'I', 'b': 'B'}[T], x))
            elif T == 'W':
                ops.append(c.vec('D', x, matrix='any', layname='WD', owned=None))
            else:
                ops.append(c.vec(T, x, matrix='any', temp='alloc' if alias and k == 0 else None))
        if alias:
            r = ops[0]
        if pre:
            pre(c, ops)
        ps = parts(ops) if parts else [P(x) for x in ops]
        ps = [p if isinstance(p, Part) else P(p) for p in ps]
        common = max((p.T for p in ps), key=ORD.index)
        n = total(ps)
        c.assume(B(le(n, SZMAX)))
        conv = [Part(rT, p.n, lambda j, p=p: cast(common, cast(p.T, p.fn(j), common), rT)) for p in ps]
        m = n
        if post:
            m = mx(n, ops[-1].n)
        for o in c.run(fname, ops if alias else [r] + ops):
            if o.kind != 'ret':
                c.require(o.st, 'concatenation does not throw', False)
                continue
            c.forall_elts(o.st, r, m, lambda j: fbin('fadd', value(conv, emod(j, n)), at(ops[-1], j)) if post else value(conv, j), 'concatenation')
            if not post:
                c.shape(o.st, r, 0)
            c.clean(o, [r])
    return go


for n, rT, k in (('d', 'D', 'D'), ('dd', 'D', 'DD'), ('ddd', 'D', 'DDD'), ('ds', 'D', 'Ds'), ('sd', 'D', 'sD'), ('sdsd', 'D', 'sDsD'), ('ss', 'D', 'ss'), ('iii', 'I', 'iii'),
                 ('is', 'D', 'is'), ('bb', 'B', 'bb'), ('bis', 'D', 'bis'), ('II', 'I', 'II'), ('BB', 'B', 'BB'), ('ID', 'D', 'ID'), ('DI', 'D', 'DI'), ('BI', 'I', 'BI'),
                 ('BD', 'D', 'BD'), ('BID', 'D', 'BID'), ('Di', 'D', 'Di'), ('bI', 'I', 'bI'), ('iD', 'D', 'iD'), ('Is', 'D', 'Is'), ('Ii_to_D', 'D', 'Ii'), ('WD', 'D', 'WD'))\
        + tuple((k, 'D' if set(k) & set('sD') else 'I', k) for k in TYPES):
    prop.case(n, concat('drv_' + n, rT, k), weight=1 + sum(x.isupper() for x in k))


prop.case('nested', concat('drv_nested', 'D', 'DDD'), weight=4)
prop.case('nested_last', concat('drv_nested_last', 'D', 'DsD'), weight=3)
prop.case('nested_int', concat('drv_nested_int', 'D', 'IiD'), weight=3)
prop.case('append', concat('drv_append', 'D', 'Ds', alias=True), weight=2)
prop.case('prepend', concat('drv_prepend', 'D', 'Ds', lambda o: [o[1], o[0]], alias=True), weight=2)
prop.case('doubled', concat('drv_double', 'D', 'D', lambda o: [o[0], o[0]], alias=True), weight=2)
prop.case('plus', concat('drv_plus', 'D', 'DDD', lambda o: [o[0], o[1]], post=True), weight=4)
prop.case('construct', concat('drv_new', 'D', 'DDs', new=True), weight=2)


def into(c):
    a, e, b, s = c.vec('D', 'a', matrix='any'), c.vec('I', 'i'), c.vec('D', 'b', matrix='any'), c.scalar('D', 's')
    c.every(e, e.n, lambda x: inr('I', x, a.n))
    n = add(b.n, 1)
    C09.run(c, 'drv_into', [a, e, b, s], a, lambda q: sub(raw(e, q), 1), e.n, n, lambda l: ite(lt(l, b.n), raw(b, l), s), True)


prop.case('into', into, expect=('ret', 'exc'), weight=3)
