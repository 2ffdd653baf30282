"""Parser for textual LLVM-18 IR (opaque pointers).  Functions are parsed lazily."""
import re, struct

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # c-string
 | "(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"       # string
 | [@%!]"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"       # quoted name
 | [@%][-a-zA-Z$._0-9]+
 | ![-a-zA-Z$._0-9\\]*
 | \#[0-9]+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | [-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?
 | -?[0-9]+
 | [a-zA-Z_][-a-zA-Z$._0-9]*
 | \.\.\.
 | [()\[\]{}<>,=*|:]
''', re.X)


def toks(s):
    return TOK.findall(s)


# ---- types: tuples -------------------------------------------------------
# ('i',w) ('f',w) ('ptr',) ('void',) ('arr',n,T) ('vec',n,T) ('st',packed,(T..)) ('named',n) ('label',) ('meta',) ('fn',ret,args) ('x80',)
class P:
    __slots__ = ('t', 'i', 'm')

    def __init__(self, t, m):
        self.t = t
        self.i = 0
        self.m = m

    def pk(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def nx(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.nx()
        if y != x:
            raise SyntaxError('expected %r got %r in %r' % (x, y, ' '.join(self.t)[:400]))

    def ty(self):
        t = self.nx()
        c = t[0]
        if c == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t == 'ptr':
            r = ('ptr',)
            if self.pk() == 'addrspace':
                self.i += 4
        elif t == 'void':
            r = ('void',)
        elif t == 'float':
            r = ('f', 32)
        elif t == 'double':
            r = ('f', 64)
        elif t == 'half':
            r = ('f', 16)
        elif t == 'x86_fp80':
            r = ('x80',)
        elif t == 'label':
            r = ('label',)
        elif t == 'metadata':
            r = ('meta',)
        elif t == 'token':
            r = ('token',)
        elif t == '[':
            n = int(self.nx())
            self.exp('x')
            e = self.ty()
            self.exp(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.eat('{'):
                r = ('st', True, tuple(self.tylist('}')))
                self.exp('>')
            else:
                n = int(self.nx())
                self.exp('x')
                e = self.ty()
                self.exp('>')
                r = ('vec', n, e)
        elif t == '{':
            r = ('st', False, tuple(self.tylist('}')))
        elif c == '%':
            r = ('named', t)
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise SyntaxError('type? %r in %r' % (t, ' '.join(self.t)[:300]))
        while self.pk() == '(':
            self.nx()
            a = self.tylist(')')
            r = ('fn', r, tuple(a))
        return r

    def tylist(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            if self.eat('...'):
                out.append(('...',))
            else:
                out.append(self.ty())
            if self.eat(end):
                return out
            self.exp(',')

    # ---- values (constants or names), given the type
    def val(self, ty):
        t = self.nx()
        c = t[0]
        if c == '%':
            return ('l', t)
        if c == '@':
            return ('g', t)
        if t == 'true':
            return ('k', 1)
        if t == 'false':
            return ('k', 0)
        if t == 'null':
            return ('k', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('zero',)
        if t.startswith('c"'):
            return ('str', unesc(t[2:-1]))
        if t == '[' or t == '{' or t == '<':
            if t == '<' and self.pk() == '{':
                self.nx()
                r = self.vals('}')
                self.exp('>')
                return ('agg', r)
            return ('agg', self.vals({'[': ']', '{': '}', '<': '>'}[t]))
        if ty[0] == 'f':
            if t.startswith('0x'):
                if t[2] in 'KLMHR':
                    return ('undef',)
                return ('fk', struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0])
            return ('fk', float(t))
        if ty[0] == 'x80':
            return ('undef',)
        if c == '-' or c.isdigit():
            return ('k', int(t, 0))
        if t in ('getelementptr',):
            self.eat('inbounds')
            while self.pk() not in ('(',):
                self.nx()
            self.exp('(')
            ety = self.ty()
            self.exp(',')
            a = self.tvals(')')
            return ('cegep', ety, a)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.exp('(')
            st = self.ty()
            v = self.val(st)
            self.exp('to')
            dt = self.ty()
            self.exp(')')
            return ('cecast', t, st, v, dt)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.pk() in ('nuw', 'nsw', 'exact', 'disjoint'):
                self.nx()
            self.exp('(')
            a = self.tvals(')')
            return ('cebin', t, a)
        if t == 'icmp':
            p = self.nx()
            self.exp('(')
            a = self.tvals(')')
            return ('ceicmp', p, a)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return ('g', self.nx())
        if t == 'asm':
            while self.pk() and not self.pk().startswith('"'):
                self.nx()
            s = self.nx()
            self.exp(',')
            c2 = self.nx()
            return ('asm', s, c2)
        raise SyntaxError('value? %r in %r' % (t, ' '.join(self.t)[:300]))

    def vals(self, end):
        return self.tvals(end)

    def tvals(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            self.eat('inrange')
            ty = self.ty()
            out.append((ty, self.val(ty)))
            if self.eat(end):
                return out
            self.exp(',')


def unesc(s):
    out = bytearray()
    i = 0
    b = s.encode('latin1', 'replace')
    while i < len(b):
        if b[i] == 0x5c and i + 2 < len(b) + 0:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


ATTRWORDS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'returned', 'readonly',
             'writeonly', 'readnone', 'immarg', 'nest', 'swiftself', 'allocptr', 'nofree', 'allocalign', 'noext', 'dead_on_unwind', 'writable'}
PARAMATTR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated', 'inalloca', 'elementtype', 'range', 'nofpclass', 'memory', 'initializes', 'captures'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
CC = {'fastcc', 'coldcc', 'ccc', 'tailcc', 'swiftcc', 'preserve_mostcc', 'preserve_allcc', 'x86_thiscallcc', 'x86_fastcallcc'}


def skipattrs(p):
    out = []
    while True:
        t = p.pk()
        if t in ATTRWORDS:
            out.append(t)
            p.nx()
        elif t in PARAMATTR:
            a = p.nx()
            if p.pk() == '(':
                d = 0
                s = []
                while True:
                    x = p.nx()
                    s.append(x)
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
                out.append((a, s[1:-1]))
            else:
                out.append((a, [p.nx()]))  # align N
        elif t.startswith('"'):
            p.nx()
            if p.eat('='):
                p.nx()
        else:
            return out


class Ins:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text', 'fn', 'attrs')

    def __init__(self, op, res, a, dbg, text):
        self.op = op
        self.res = res
        self.a = a
        self.dbg = dbg
        self.text = text
        self.attrs = None

    def __repr__(self):
        return self.text.strip()


class Fn:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'text', 'mod', 'attrs', 'isdecl', 'hdr', 'dbg', 'vararg', 'linkage', '_parsed')


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.meta = {}
        self.attrs = {}
        self.aliases = {}
        self._load(open(path, encoding='latin1').read())
        self._sz = {}

    def _load(self, txt):
        lines = txt.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._fn(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                self._fn(l, None)
            elif c == '%':
                k = l.index(' = type ')
                self.types[l[:k]] = l[k + 8:]
            elif c == '@':
                self._glob(l)
            elif c == '!':
                k = l.find(' = ')
                self.meta[l[:k]] = l[k + 3:]
            elif l.startswith('attributes '):
                k = l.index(' = ')
                self.attrs[l[11:k].strip()] = l[k + 3:]
            i += 1

    def _glob(self, l):
        # @x = [linkage] [attrs] global|constant T init, align N
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        self.globals[name] = rest

    def gvar(self, name):
        """-> dict(kind, ty, init, flags)"""
        g = self.globals.get(name)
        if g is None or isinstance(g, dict):
            return g
        t = toks(g)
        d = {'flags': [], 'text': g}
        i = 0
        while t[i] not in ('global', 'constant', 'alias', 'ifunc'):
            d['flags'].append(t[i])
            i += 1
        d['kind'] = t[i]
        p = P(t, self)
        p.i = i + 1
        d['ty'] = p.ty()
        d['init'] = None
        if d['kind'] in ('alias', 'ifunc'):
            p.exp(',')
            at = p.ty()
            d['init'] = p.val(at)
        elif p.pk() not in ('', ',') and 'external' not in d['flags'] and 'extern_weak' not in d['flags']:
            d['init'] = p.val(d['ty'])
        self.globals[name] = d
        return d

    def named(self, n):
        t = self.types[n]
        if isinstance(t, str):
            t = P(toks(t), self).ty()
            self.types[n] = t
        return t

    def res(self, ty):
        while ty[0] == 'named':
            ty = self.named(ty[1])
        return ty

    def align(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == 'i':
            w = ty[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k == 'f':
            return ty[1] // 8
        if k == 'ptr':
            return 8
        if k == 'x80':
            return 16
        if k == 'arr':
            return self.align(ty[2])
        if k == 'vec':
            return self.size(ty)
        if k == 'st':
            if ty[1]:
                return 1
            return max([self.align(t) for t in ty[2]] or [1])
        return 1

    def size(self, ty):
        s = self._sz.get(ty)
        if s is None:
            s = self._sz[ty] = self._size(ty)
        return s

    def _size(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            a = self.align(ty)
            return (b + a - 1) // a * a
        if k == 'f':
            return ty[1] // 8
        if k == 'ptr':
            return 8
        if k == 'x80':
            return 16
        if k == 'arr':
            return ty[1] * self.size(ty[2])
        if k == 'vec':
            e = self.res(ty[2])
            return max(1, ty[1] * (e[1] if e[0] == 'i' else self.size(e) * 8) // 8)
        if k == 'st':
            off, al = 0, 1
            for t in ty[2]:
                a = 1 if ty[1] else self.align(t)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(t)
            return (off + al - 1) // al * al
        raise TypeError(ty)

    def field_off(self, ty, idx):
        off = 0
        for i, t in enumerate(ty[2]):
            a = 1 if ty[1] else self.align(t)
            off = (off + a - 1) // a * a
            if i == idx:
                return off, t
            off += self.size(t)
        raise IndexError

    # ---- functions
    HDRNAME = re.compile(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(')

    def _fn(self, hdr, body):
        f = Fn()
        m = self.HDRNAME.search(hdr)
        f.name = m.group(1)
        f.hdr = hdr
        f.text = body
        f.mod = self
        f.isdecl = body is None
        f._parsed = False
        f.blocks = None
        f.params = None
        mm = re.search(r'!dbg (![0-9]+)', hdr)
        f.dbg = mm.group(1) if mm else None
        ms = re.search(r'\)\s[^()]*?(#[0-9]+)', hdr)
        f.attrs = ms.group(1) if ms else None
        if f.name in self.fns and f.isdecl:
            return
        self.fns[f.name] = f

    def fattrs(self, f):
        return self.attrs.get(f.attrs, '') if f.attrs else ''

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            return None
        if not f._parsed:
            self._parse_fn(f)
        return f

    def _parse_fn(self, f):
        f._parsed = True
        t = toks(re.sub(r'^(declare|define) !dbg ![0-9]+ ', r'\1 ', f.hdr))
        p = P(t, self)
        # locate name
        k = t.index(f.name)
        # return type: parse backwards is hard; scan forward skipping known words
        p.i = 1
        while True:
            save = p.i
            w = p.pk()
            if w in ATTRWORDS or w in PARAMATTR:
                skipattrs(p)
                continue
            if w in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'external', 'available_externally',
                     'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'extern_weak', 'dllexport', 'comdat') or w in CC:
                p.nx()
                continue
            break
        f.ret = p.ty()
        assert p.pk() == f.name, (f.hdr, p.pk())
        p.nx()
        p.exp('(')
        f.params = []
        f.vararg = False
        if not p.eat(')'):
            n = 0
            while True:
                if p.eat('...'):
                    f.vararg = True
                    p.exp(')')
                    break
                ty = p.ty()
                at = skipattrs(p)
                if p.pk().startswith('%'):
                    nm = p.nx()
                else:
                    nm = '%' + str(n)
                n += 1
                f.params.append((nm, ty, at))
                if p.eat(')'):
                    break
                p.exp(',')
        if f.isdecl:
            return
        f.blocks = {}
        f.order = []
        # entry label name = number of unnamed params, if unnamed
        cur = None
        unn = sum(1 for nm, _, _ in f.params if nm[1:].isdigit())
        entry = '%' + str(unn)
        body = f.text
        i = 0
        while i < len(body):
            l = body[i]
            i += 1
            if not l or l.startswith('  ;') or l.startswith(';'):
                continue
            if l[0] != ' ':
                lab = l.split(':')[0]
                if lab.startswith('"'):
                    cur = '%' + lab
                else:
                    cur = '%' + lab
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = entry
                f.blocks[cur] = []
                f.order.append(cur)
            s = l.strip()
            if s.startswith('switch ') and not s.endswith(']') and ']' not in s:
                while True:
                    l2 = body[i]
                    i += 1
                    s += ' ' + l2.strip()
                    if l2.strip().startswith(']'):
                        break
            elif (s.startswith('invoke ') or ' = invoke ' in s) :
                while ' unwind label' not in s:
                    s += ' ' + body[i].strip()
                    i += 1
            elif ' = landingpad ' in s:
                while i < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            f.blocks[cur].append(self._ins(s, f))

    def _ins(self, s, f):
        dbg = None
        k = s.find(', !')
        meta = ''
        if k >= 0:
            meta = s[k:]
            s = s[:k]
            m = re.search(r'!dbg (![0-9]+)', meta)
            if m:
                dbg = m.group(1)
        t = toks(s)
        p = P(t, self)
        res = None
        if len(t) > 1 and t[1] == '=':
            res = t[0]
            p.i = 2
        op = p.nx()
        if op in ('tail', 'musttail', 'notail'):
            op = p.nx()
        try:
            a = self._operands(op, p, f)
        except Exception as e:
            raise SyntaxError('%s: %s' % (e, s))
        ins = Ins(op, res, a, dbg, s)
        ins.fn = f
        ins.attrs = meta
        return ins

    def _operands(self, op, p, f):
        if op == 'ret':
            ty = p.ty()
            return (ty, None) if ty[0] == 'void' else (ty, p.val(ty))
        if op == 'br':
            if p.eat('label'):
                return (None, p.nx(), None)
            ty = p.ty()
            v = p.val(ty)
            p.exp(',')
            p.exp('label')
            a = p.nx()
            p.exp(',')
            p.exp('label')
            b = p.nx()
            return (v, a, b)
        if op == 'switch':
            ty = p.ty()
            v = p.val(ty)
            p.exp(',')
            p.exp('label')
            d = p.nx()
            p.exp('[')
            cs = []
            while not p.eat(']'):
                t2 = p.ty()
                k = p.val(t2)
                p.exp(',')
                p.exp('label')
                cs.append((k[1], p.nx()))
            return (ty, v, d, cs)
        if op in ('call', 'invoke'):
            fmf = []
            while p.pk() in FMF or p.pk() in CC:
                fmf.append(p.nx())
            ra = skipattrs(p)
            while p.pk() in CC:
                p.nx()
            rty = p.ty()
            if rty[0] == 'fn':
                rty = rty[1]
            callee = p.val(('ptr',))
            p.exp('(')
            args = []
            if not p.eat(')'):
                while True:
                    ty = p.ty()
                    at = skipattrs(p)
                    if ty[0] == 'meta':
                        d = 0
                        v = []
                        while True:
                            x = p.pk()
                            if d == 0 and x in (',', ')'):
                                break
                            if x in '([{':
                                d += 1
                            if x in ')]}':
                                d -= 1
                            v.append(p.nx())
                        args.append((ty, ('meta', v), at))
                    else:
                        args.append((ty, p.val(ty), at))
                    if p.eat(')'):
                        break
                    p.exp(',')
            attrs = []
            while p.pk().startswith('#'):
                attrs.append(p.nx())
            if p.pk() == '[':  # operand bundle
                while not p.eat(']'):
                    p.nx()
            if op == 'call':
                return (rty, callee, args, attrs, None, None)
            p.exp('to')
            p.exp('label')
            n = p.nx()
            p.exp('unwind')
            p.exp('label')
            u = p.nx()
            return (rty, callee, args, attrs, n, u)
        if op == 'landingpad':
            ty = p.ty()
            cl = []
            cleanup = False
            while p.i < len(p.t):
                w = p.nx()
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    t2 = p.ty()
                    cl.append(('catch', p.val(t2)))
                elif w == 'filter':
                    t2 = p.ty()
                    cl.append(('filter', p.val(t2)))
                else:
                    raise SyntaxError(w)
            return (ty, cleanup, cl)
        if op == 'resume':
            ty = p.ty()
            return (ty, p.val(ty))
        if op == 'unreachable':
            return ()
        if op == 'alloca':
            p.eat('inalloca')
            ty = p.ty()
            cnt = ('k', 1)
            cty = ('i', 32)
            al = None
            while p.eat(','):
                if p.pk() == 'align':
                    p.nx()
                    al = int(p.nx())
                else:
                    cty = p.ty()
                    cnt = p.val(cty)
            return (ty, cty, cnt, al)
        if op == 'load':
            at = p.eat('atomic')
            vol = p.eat('volatile')
            ty = p.ty()
            p.exp(',')
            pt = p.ty()
            v = p.val(pt)
            return (ty, v, at, vol)
        if op == 'store':
            at = p.eat('atomic')
            vol = p.eat('volatile')
            ty = p.ty()
            v = p.val(ty)
            p.exp(',')
            pt = p.ty()
            d = p.val(pt)
            return (ty, v, d, at, vol)
        if op == 'getelementptr':
            inb = False
            while p.pk() in ('inbounds', 'nuw', 'nusw'):
                p.nx()
                inb = True
            ety = p.ty()
            p.exp(',')
            bt = p.ty()
            b = p.val(bt)
            idx = []
            while p.eat(','):
                p.eat('inrange')
                t2 = p.ty()
                idx.append((t2, p.val(t2)))
            return (ety, b, idx, bt)
        if op in ('icmp', 'fcmp'):
            while p.pk() in FMF or p.pk() == 'samesign':
                p.nx()
            pr = p.nx()
            ty = p.ty()
            a = p.val(ty)
            p.exp(',')
            b = p.val(ty)
            return (pr, ty, a, b)
        if op == 'phi':
            while p.pk() in FMF:
                p.nx()
            ty = p.ty()
            inc = []
            while True:
                p.exp('[')
                v = p.val(ty)
                p.exp(',')
                l = p.nx()
                p.exp(']')
                inc.append((l, v))
                if not p.eat(','):
                    break
            return (ty, inc)
        if op == 'select':
            while p.pk() in FMF:
                p.nx()
            t1 = p.ty()
            c = p.val(t1)
            p.exp(',')
            t2 = p.ty()
            a = p.val(t2)
            p.exp(',')
            t3 = p.ty()
            b = p.val(t3)
            return (t1, c, t2, a, b)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.pk() in ('nuw', 'nsw', 'exact', 'disjoint') or p.pk() in FMF:
                fl.add(p.nx())
            ty = p.ty()
            a = p.val(ty)
            p.exp(',')
            b = p.val(ty)
            return (ty, a, b, fl)
        if op in ('fneg', 'freeze'):
            while p.pk() in FMF:
                p.nx()
            ty = p.ty()
            return (ty, p.val(ty))
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.pk() in ('nuw', 'nsw', 'nneg') or p.pk() in FMF:
                p.nx()
            st = p.ty()
            v = p.val(st)
            p.exp('to')
            return (st, v, p.ty())
        if op == 'extractvalue':
            ty = p.ty()
            v = p.val(ty)
            ix = []
            while p.eat(','):
                ix.append(int(p.nx()))
            return (ty, v, ix)
        if op == 'insertvalue':
            ty = p.ty()
            v = p.val(ty)
            p.exp(',')
            t2 = p.ty()
            e = p.val(t2)
            ix = []
            while p.eat(','):
                ix.append(int(p.nx()))
            return (ty, v, t2, e, ix)
        if op == 'extractelement':
            ty = p.ty()
            v = p.val(ty)
            p.exp(',')
            t2 = p.ty()
            return (ty, v, t2, p.val(t2))
        if op == 'insertelement':
            ty = p.ty()
            v = p.val(ty)
            p.exp(',')
            t2 = p.ty()
            e = p.val(t2)
            p.exp(',')
            t3 = p.ty()
            return (ty, v, t2, e, t3, p.val(t3))
        if op == 'shufflevector':
            ty = p.ty()
            a = p.val(ty)
            p.exp(',')
            t2 = p.ty()
            b = p.val(t2)
            p.exp(',')
            t3 = p.ty()
            return (ty, a, b, t3, p.val(t3))
        if op == 'cmpxchg':
            p.eat('weak')
            p.eat('volatile')
            pt = p.ty()
            d = p.val(pt)
            p.exp(',')
            ty = p.ty()
            e = p.val(ty)
            p.exp(',')
            ty = p.ty()
            n = p.val(ty)
            return (ty, d, e, n)
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.nx()
            pt = p.ty()
            d = p.val(pt)
            p.exp(',')
            ty = p.ty()
            v = p.val(ty)
            return (o, ty, d, v)
        if op == 'fence':
            return ()
        raise SyntaxError('unknown instruction ' + op)

    # ---- debug locations
    def loc(self, dbg):
        """-> (file, line) outermost-real location of a !DILocation"""
        if dbg is None:
            return None
        m = self.meta.get(dbg)
        if not m:
            return None
        ln = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: (![0-9]+)', m)
        if not sc:
            return None
        return (self.scope_file(sc.group(1)), int(ln.group(1)) if ln else 0)

    def scope_file(self, s):
        n = 0
        while s and n < 50:
            n += 1
            m = self.meta.get(s, '')
            mf = re.search(r'file: (![0-9]+)', m)
            if mf:
                fm = self.meta.get(mf.group(1), '')
                a = re.search(r'filename: "([^"]*)"', fm)
                d = re.search(r'directory: "([^"]*)"', fm)
                if a:
                    fn = a.group(1)
                    if not fn.startswith('/') and d:
                        fn = d.group(1) + '/' + fn
                    return fn
            ms = re.search(r'scope: (![0-9]+)', m)
            s = ms.group(1) if ms else None
        return '?'
