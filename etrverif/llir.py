"""Minimal parser for the textual LLVM IR produced by clang-18 (-O0 + mem2reg).

Only syntax is handled here; no rewriting takes place.  Types are represented as
  ('i', n) ('f', 'double'|'float'|...) 'ptr' 'void' 'label' 'metadata'
  ('arr', n, ty) ('st', [tys], packed) ('named', name)
Operands are tuples: ('reg', name) ('int', v) ('fp', text) ('null',) ('undef',)
('zero',) ('glob', name) ('agg', [..]) ('cexpr', op, ...)
"""
import re


class ParseError(Exception):
    pass


TOK = re.compile(r'''
   \s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<name>[%@](?:[-a-zA-Z$._0-9]+|"[^"]*"))
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMH]+|-?\d+)
  | (?P<word>[a-zA-Z_$.][a-zA-Z_$.0-9]*)
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#\d+)
  | (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
   )''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            if s[pos:].strip() == '':
                break
            raise ParseError('tok: ' + s[pos:pos + 60])
        pos = m.end()
        out.append(m.group(m.lastgroup))
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly',
               'noalias', 'returned', 'immarg', 'nofree', 'readnone', 'inreg', 'nest', 'swiftself', 'noreturn', 'dead_on_unwind', 'writable'}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'range', 'captures', 'initializes', 'elementtype', 'nofpclass'}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise ParseError('expected %s got %s in %s' % (x, v, ' '.join(self.t)))

    def done(self):
        return self.i >= len(self.t)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        t = self.next()
        if t in ('ptr', 'void', 'label', 'metadata'):
            r = t
        elif re.fullmatch(r'i\d+', t):
            r = ('i', int(t[1:]))
        elif t in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
            r = ('f', t)
        elif t[0] == '%':
            r = ('named', t[1:].strip('"'))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{' or (t == '<' and self.peek() == '{'):
            packed = t == '<'
            if packed:
                self.next()
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            r = ('st', fs, packed)
        elif t == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            r = ('vec', n, e)
        elif t == 'opaque':
            r = 'opaque'
        else:
            raise ParseError('type ' + t + ' in ' + ' '.join(self.t))
        # function type suffix
        while self.peek() == '(':
            save = self.i
            self.skip_parens()
            r = ('fn', r)
            if save == self.i:
                break
        return r

    def attrs(self):
        info = {}
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
            elif t in PAREN_ATTRS:
                self.next()
                if self.peek() == '(':
                    if t in ('sret', 'byval'):
                        self.expect('(')
                        info[t] = self.type()
                        self.expect(')')
                    else:
                        self.skip_parens()
                elif t == 'align':
                    self.next()
            else:
                return info

    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('reg', t[1:].strip('"'))
        if t[0] == '@':
            return ('glob', t[1:].strip('"'))
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'none':
            return ('undef',)
        if isinstance(ty, tuple) and ty[0] == 'f':
            return ('fp', t)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        if t == '{' or t == '[' or t == '<':
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                r = self._agg('}')
                self.expect('>')
                return r
            return self._agg(close)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            return ('cstr', t[2:-1])
        if t in ('getelementptr',):
            self.accept('inbounds')
            self.expect('(')
            ety = self.type()
            ops = []
            while self.accept(','):
                self.accept('inrange')
                oty = self.type()
                ops.append((oty, self.value(oty)))
            self.expect(')')
            return ('cexpr', 'gep', ety, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint'):
            self.skip_parens()
            return ('cexpr', t)
        raise ParseError('value ' + t + ' in ' + ' '.join(self.t))

    def _agg(self, close):
        vs = []
        if self.accept(close):
            return ('agg', vs)
        while True:
            ty = self.type()
            vs.append((ty, self.value(ty)))
            if self.accept(close):
                return ('agg', vs)
            self.expect(',')

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []

    def succs(self):
        t = self.insts[-1]
        if t.op == 'br':
            return [x for x in t.a['targets']]
        if t.op == 'switch':
            return [t.a['default']] + [b for _, b in t.a['cases']]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, regname, attrs)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.loops = None


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}   # name -> (type, init or None, const)

    # ---- data layout (x86-64)
    def sizeof(self, t):
        return self._lay(t)[0]

    def alignof(self, t):
        return self._lay(t)[1]

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.types[t[1]]
        return t

    def _lay(self, t):
        t = self.resolve(t)
        if t == 'ptr':
            return 8, 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            for s in (1, 2, 4, 8, 16):
                if n <= s:
                    return s, min(s, 16)
            raise ParseError('int size')
        if k == 'f':
            return {'double': (8, 8), 'float': (4, 4), 'half': (2, 2), 'x86_fp80': (16, 16), 'fp128': (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self._lay(t[2])
            return s * t[1], a
        if k == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self._lay(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            if not t[2]:
                off = (off + al - 1) // al * al
            return off, al
        raise ParseError('layout %r' % (t,))

    def field(self, t, idx):
        t = self.resolve(t)
        off = 0
        for i, f in enumerate(t[1]):
            s, a = self._lay(f)
            if not t[2]:
                off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise ParseError('field')


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint',
        'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'inbounds'}


def parse_call(p, op, text):
    while p.peek() in ('tail', 'musttail', 'notail', 'fastcc', 'ccc') or p.peek() in FLAGS:
        p.next()
    p.attrs()
    ty = p.type()
    if isinstance(ty, tuple) and ty[0] == 'fn':
        ty = ty[1]
    callee = p.value('ptr')
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            aty = p.type()
            info = p.attrs()
            if aty == 'metadata':
                while p.peek() not in (',', ')'):
                    p.next()
                args.append((aty, ('undef',), info))
            else:
                args.append((aty, p.value(aty), info))
            if p.accept(')'):
                break
            p.expect(',')
    return ty, callee, args


def parse_inst(line):
    text = line
    # strip metadata attachments
    k = line.find(', !')
    if k >= 0 and '"' not in line[k:]:
        line = line[:k]
    toks = tokenize(line)
    p = P(toks)
    res = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    a = {}
    ty = None
    if op in BIN:
        fl = []
        while p.peek() in FLAGS:
            fl.append(p.next())
        ty = p.type()
        x = p.value(ty)
        p.expect(',')
        y = p.value(ty)
        a = dict(x=x, y=y, flags=fl)
    elif op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = dict(x=p.value(ty))
    elif op in CAST:
        while p.peek() in FLAGS:
            p.next()
        fty = p.type()
        x = p.value(fty)
        p.expect('to')
        ty = p.type()
        a = dict(x=x, fty=fty)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        x = p.value(ty)
        p.expect(',')
        y = p.value(ty)
        a = dict(pred=pred, x=x, y=y)
    elif op == 'alloca':
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() == 'align':
                pass
            else:
                cty = p.type()
                cnt = p.value(cty)
        a = dict(count=cnt)
    elif op == 'load':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        p.expect(',')
        p.type()
        a = dict(ptr=p.value('ptr'))
    elif op == 'store':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        a = dict(val=v, ptr=p.value('ptr'))
    elif op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        ety = p.type()
        p.expect(',')
        p.type()
        base = p.value('ptr')
        idx = []
        while p.accept(','):
            ity = p.type()
            idx.append((ity, p.value(ity)))
        ty = ety
        a = dict(base=base, idx=idx)
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            a = dict(cond=None, targets=[p.next()[1:].strip('"')])
        else:
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            p.expect('label')
            t1 = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            t2 = p.next()[1:].strip('"')
            a = dict(cond=c, targets=[t1, t2])
    elif op == 'switch':
        ty = p.type()
        x = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cty = p.type()
            v = p.value(cty)
            p.expect(',')
            p.expect('label')
            cases.append((v[1], p.next()[1:].strip('"')))
        a = dict(x=x, default=d, cases=cases)
    elif op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        a = dict(inc=inc)
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        p.type()
        c = p.value(('i', 1))
        p.expect(',')
        ty = p.type()
        x = p.value(ty)
        p.expect(',')
        p.type()
        y = p.value(ty)
        a = dict(c=c, x=x, y=y)
    elif op in ('call', 'invoke'):
        ty, callee, args = parse_call(p, op, text)
        a = dict(callee=callee, args=args)
        if op == 'invoke':
            j = toks.index('to', p.i)
            # to label %x unwind label %y
            a['normal'] = toks[j + 2][1:].strip('"')
            a['unwind'] = toks[j + 5][1:].strip('"')
    elif op == 'ret':
        ty = p.type()
        a = dict(val=None if ty == 'void' else p.value(ty))
    elif op == 'unreachable':
        pass
    elif op == 'resume':
        ty = p.type()
        a = dict(val=p.value(ty))
    elif op == 'landingpad':
        ty = p.type()
        a = dict(clauses=' '.join(toks[p.i:]))
    elif op == 'extractvalue':
        aty = p.type()
        x = p.value(aty)
        ids = []
        while p.accept(','):
            ids.append(int(p.next()))
        a = dict(x=x, idx=ids, aty=aty)
    elif op == 'insertvalue':
        ty = p.type()
        x = p.value(ty)
        p.expect(',')
        ety = p.type()
        v = p.value(ety)
        ids = []
        while p.accept(','):
            ids.append(int(p.next()))
        a = dict(x=x, v=v, ety=ety, idx=ids)
    elif op == 'freeze':
        ty = p.type()
        a = dict(x=p.value(ty))
    else:
        raise ParseError('instruction ' + text)
    return Inst(op, res, ty, a, text.strip())


LABEL = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')


def parse_module(path):
    m = Module()
    lines = open(path).read().split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            m.types[nm[1:].strip('"')] = P(tokenize(rest)).type()
        elif ln.startswith('@'):
            mm = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
            name = mm.group(1).strip('"')
            rest = mm.group(2)
            m.globals[name] = rest
        elif ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            m.decls[mm.group(1).strip('"')] = ln
        elif ln.startswith('define'):
            j = i
            body = []
            hdr = ln
            i += 1
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
            name = mm.group(1).strip('"')
            m.funcs[name] = (hdr, body)
        i += 1
    return m


def get_global(m, name):
    """-> (type, value or None)"""
    g = m.globals[name]
    if isinstance(g, tuple):
        return g
    mm = re.search(r'\b(?:global|constant)\s+(.*)$', g)
    if not mm or 'alias' in g:
        r = (None, None)
    else:
        rest = re.sub(r', (comdat|align|section).*$', '', mm.group(1))
        try:
            p = P(tokenize(rest))
            ty = p.type()
            val = None
            if not p.done():
                try:
                    val = p.value(ty)
                except ParseError:
                    val = None
            r = (ty, val)
        except ParseError:
            r = (None, None)
    m.globals[name] = r
    return r


def get_function(m, name):
    f = m.funcs.get(name)
    if f is None:
        return None
    if isinstance(f, Function):
        return f
    hdr, body = f
    fn = Function(name)
    k = hdr.index('@')
    pre = hdr[:k]
    # return type: last type tokens before @
    toks = tokenize(pre)
    toks = [t for t in toks if t not in ('define', 'linkonce_odr', 'dso_local', 'internal', 'private', 'weak_odr', 'noundef',
                                         'nonnull', 'zeroext', 'signext', 'noalias', 'hidden', 'external', 'available_externally', 'unnamed_addr', 'local_unnamed_addr')]
    p = P(toks)
    p.attrs()
    fn.ret = p.type()
    rest = hdr[k:]
    q = rest.index('(', len(name))
    toks = tokenize(rest[q:rest.rindex(')') + 1] if False else rest[q:].rstrip('{ '))
    p = P(toks)
    p.expect('(')
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            ty = p.type()
            info = p.attrs()
            nm = p.next()[1:].strip('"')
            fn.params.append((ty, nm, info))
            if p.accept(')'):
                break
            p.expect(',')
    cur = None
    # join multi-line instructions
    joined = []
    for ln in body:
        s = ln.strip()
        if not s:
            continue
        if s.startswith(';'):
            continue
        if joined and (s.startswith('to label') or s in ('cleanup',) or s.startswith('catch ') or s.startswith('filter ')):
            joined[-1] += ' ' + s
            continue
        joined.append(ln.rstrip())
    # switch multi-line
    out = []
    depth = 0
    for ln in joined:
        if depth:
            out[-1] += ' ' + ln.strip()
            depth += ln.count('[') - ln.count(']')
            continue
        out.append(ln)
        if re.match(r'^\s*switch ', ln):
            depth = ln.count('[') - ln.count(']')
    for ln in out:
        mm = LABEL.match(ln)
        if mm and not ln.startswith(' '):
            nm = mm.group(1).strip('"')
            cur = Block(nm)
            fn.blocks[nm] = cur
            fn.order.append(nm)
            continue
        if cur is None:
            cur = Block(str(len(fn.params)) if False else 'entry')
            fn.blocks['entry'] = cur
            fn.order.append('entry')
        # strip comments / attribute groups at end
        s = re.sub(r'\s*;.*$', '', ln) if '"' not in ln else ln
        s = re.sub(r'\s#\d+(?=\s|$)', '', s)
        ins = parse_inst(s)
        if ins.op == 'phi':
            cur.phis.append(ins)
        else:
            cur.insts.append(ins)
    m.funcs[name] = fn
    find_loops(fn)
    return fn


def find_loops(fn):
    """natural loops: header -> set(blocks).  Raises on irreducible CFG."""
    entry = fn.order[0]
    preds = {b: [] for b in fn.order}
    for b in fn.order:
        for s in fn.blocks[b].succs():
            preds[s].append(b)
    # dominators (iterative)
    order = []
    seen = set()
    stack = [(entry, iter(fn.blocks[entry].succs()))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.blocks[s].succs())))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    dom = {b: set(rpo) for b in rpo}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == entry:
                continue
            ps = [dom[p] for p in preds[b] if p in dom]
            nd = set.intersection(*ps) | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succs():
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in preds[x] if p in dom)
    fn.loops = loops
    fn.preds = preds
