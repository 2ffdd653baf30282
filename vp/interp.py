"""Abstract interpreter over LLVM IR with trace partitioning (see DESIGN.md, engine E1)."""
import math, sys, re, time, zlib
from dom import *
import dom

FLOATOPS = {'fc', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fneg', 'fabs', 'bits2f', 'fop'}
BASE = 0x100000000000
SP = 28


def isf(n):
    return n.op in FLOATOPS or (n.op == 'a' and n.args[1] in ('fin', 'fun'))


class Vec(list):
    pass


class Fault(Exception):
    def __init__(self, msg, definite=True):
        self.msg = msg
        self.definite = definite


class GiveUp(Exception):
    pass


class Fork(Exception):
    """raised by a transfer function: re-execute the instruction in each of the given alternatives"""

    def __init__(self, alts):
        self.alts = alts  # list of callables(state) -> None (may raise Infeasible), each refines the state


class Obj:
    __slots__ = ('base', 'size', 'cells', 'lazy', 'kind', 'alive', 'sym', 'own', 'name', 'sizen', 'ro')

    def clone(self, own):
        o = Obj()
        o.base = self.base
        o.size = self.size
        o.cells = dict(self.cells)
        o.lazy = self.lazy
        o.kind = self.kind
        o.alive = self.alive
        o.sym = list(self.sym)
        o.own = own
        o.name = self.name
        o.sizen = self.sizen
        o.ro = self.ro
        return o


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'idx', 'prev', 'call', 'allocas', 'ins')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.env = dict(self.env)
        f.blk = self.blk
        f.idx = self.idx
        f.prev = self.prev
        f.call = self.call
        f.allocas = list(self.allocas)
        f.ins = self.ins
        return f


class State:
    __slots__ = ('env', 'mem', 'frames', 'exact', 'steps', 'inputs', 'exc', 'caught', 'nobj', 'log', 'asserts', 'tok', 'notes', 'fresh', 'inexact_why', 'visits', 'thr')

    def fork(self):
        s = State()
        s.env = self.env.copy()
        s.mem = dict(self.mem)
        s.frames = [f.clone() for f in self.frames]
        s.exact = self.exact
        s.steps = self.steps
        s.inputs = dict(self.inputs)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.nobj = self.nobj
        s.log = list(self.log)
        s.asserts = self.asserts
        s.notes = dict(self.notes)
        s.fresh = self.fresh
        s.inexact_why = self.inexact_why
        s.tok = object()
        self.tok = object()
        s.visits = dict(self.visits)
        # suspended threads: (id, frames, exc, caught, pending access already considered)
        s.thr = [(i, [f.clone() for f in fs], e, list(c), p) for i, fs, e, c, p in self.thr] if self.thr else self.thr
        return s


STD_BASES = {
    '_ZTISt9exception': [], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt15underflow_error': ['_ZTISt13runtime_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'], '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
}


def type_bases(m, ti):
    n = ti.lstrip('@')
    if n in STD_BASES:
        return ['@' + b for b in STD_BASES[n]]
    g = m.gvar(ti)
    out = []
    if g and g.get('init') and g['init'][0] == 'agg':
        for ty, v in g['init'][1][2:]:
            if v[0] == 'g' and v[1].startswith('@_ZTI'):
                out.append(v[1])
    return out


def type_is(m, ti, target):
    if ti == target:
        return True
    return any(type_is(m, b, target) for b in type_bases(m, ti))


# instructions that touch memory shared by threads -> index of the address operand
SHAREDOP = {'load': 1, 'store': 2, 'atomicrmw': 2, 'cmpxchg': 1}


class Interp:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = {'max_steps': 2000000, 'max_traces': 20000, 'max_depth': 200, 'check_mem': True, 'loop_limit': 10000}
        self.o.update(opts or {})
        self.gaddr = {}
        self.addrg = {}
        self.gobj_template = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.tids = {}
        self.called = set()
        self.pins = {}
        self.bytes = {}
        self.point = None  # content of arbitrary bytes in a one-point cell
        self.stats = {'traces': 0, 'steps': 0, 'asserts_proved': 0, 'forks': 0, 'unknown_ext': set(), 'maybe_oob': 0}
        self.hooks = {}
        self.atomic = False
        self.extra = []

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name='', align=0, lazy=None):
        i = st.nobj
        st.nobj += 1
        o = Obj()
        o.base = BASE + (i << SP) + 0x10000 + align
        o.size = size
        o.cells = {}
        o.lazy = lazy
        o.kind = kind
        o.alive = True
        o.sym = []
        o.own = st.tok
        o.name = name or '%s%d' % (kind, i)
        o.sizen = None
        o.ro = False
        st.mem[i] = o
        return o

    def global_addr(self, st, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.m.fns:
            i = len(self.fnaddr)
            a = 0x400000 + i * 64
            self.fnaddr[name] = a
            self.addrfn[a] = name
            self.gaddr[name] = a
            return a
        g = self.m.gvar(name)
        if g is None:
            raise GiveUp('no global ' + name)
        if g['kind'] == 'alias':
            a = self.const_addr(st, g['init'])
            self.gaddr[name] = a
            return a
        if g['kind'] == 'ifunc':
            raise GiveUp('ifunc ' + name)
        # global objects live at fixed indices from the top
        i = (1 << 16) + len(self.gobj_template)
        o = Obj()
        o.base = BASE + (i << SP) + 0x10000
        o.size = self.m.size(g['ty']) if g['ty'][0] != 'opaque' else 0
        o.cells = {}
        o.lazy = None
        o.kind = 'global'
        o.alive = True
        o.sym = []
        o.own = None
        o.name = name
        o.sizen = None
        o.ro = g['kind'] == 'constant'
        self.gobj_template[i] = o
        self.gaddr[name] = o.base
        self.addrg[i] = name
        if g['init'] is None:
            o.lazy = 'ext' + name
            o.size = max(o.size, 8)
        else:
            self.init_const(st, o, 0, g['ty'], g['init'])
        return o.base

    def tls(self, st, i, tid):
        """the instance of a thread-local variable that belongs to another thread than the first"""
        t = self.gobj_template[i]
        name = '%s#%d' % (t.name, tid)
        if name not in self.gaddr:
            k = (1 << 16) + len(self.gobj_template)
            o = t.clone(None)
            o.base = BASE + (k << SP) + 0x10000
            o.name = name
            self.gobj_template[k] = o
            self.gaddr[name] = o.base
            self.addrg[k] = name
        return self.gaddr[name]

    def const_addr(self, st, v):
        n = self.const(st, ('ptr',), v)
        return n.args[0]

    def init_const(self, st, o, off, ty, v):
        m = self.m
        ty = m.res(ty)
        k = v[0]
        if k == 'zero' or (k == 'undef'):
            if ty[0] == 'arr':
                if m.size(ty) > 1 << 16:
                    o.lazy = 'zero'
                    return
                for i in range(ty[1]):
                    self.init_const(st, o, off + i * m.size(ty[2]), ty[2], v)
            elif ty[0] == 'st':
                for i in range(len(ty[2])):
                    fo, ft = m.field_off(ty, i)
                    self.init_const(st, o, off + fo, ft, v)
            elif ty[0] == 'vec':
                for i in range(ty[1]):
                    self.init_const(st, o, off + i * m.size(ty[2]), ty[2], v)
            else:
                o.cells[off] = (m.size(ty), C(8 * m.size(ty), 0))
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, C(8, b))
            return
        if k == 'agg':
            if ty[0] in ('arr', 'vec'):
                es = m.size(ty[2])
                for i, (t, e) in enumerate(v[1]):
                    self.init_const(st, o, off + i * es, t, e)
            else:
                for i, (t, e) in enumerate(v[1]):
                    fo, ft = m.field_off(ty, i)
                    self.init_const(st, o, off + fo, ft, e)
            return
        n = self.const(st, ty, v)
        sz = m.size(ty)
        if not isf(n) and n.w < 8 * sz:
            n = zext_raw(n, 8 * sz)
        o.cells[off] = (sz, n)

    def obj(self, st, i, write=False):
        o = st.mem.get(i)
        if o is None:
            o = self.gobj_template.get(i)
            if o is None:
                return None
            if write:
                o = o.clone(st.tok)
                st.mem[i] = o
            return o
        if write and o.own is not st.tok:
            o = o.clone(st.tok)
            st.mem[i] = o
        return o

    def resolve(self, st, addr, n, write):
        """-> (obj, offset node or int)"""
        if addr.op == 'c':
            a = addr.args[0]
            i = (a - BASE) >> SP
            o = self.obj(st, i, write) if a >= BASE else None
            if o is None:
                raise Fault('access to invalid address 0x%x' % a)
            off = a - o.base
            if self.o['check_mem'] and (off < 0 or (o.size is not None and off + n > o.size)):
                self.oob(st, o, off, n, write)
            if not o.alive and self.o['check_mem']:
                raise Fault('access to freed object %s' % o.name)
            return o, off
        lo, hi = st.env.av(addr)[:2]
        if lo == hi:
            return self.resolve(st, C(64, lo), n, write)
        i, j = (lo - BASE) >> SP, (hi - BASE) >> SP
        if lo < BASE or i != j:
            raise GiveUp('unresolvable address %r' % (addr,))
        o = self.obj(st, i, write)
        if o is None:
            raise Fault('access to invalid address')
        off = sub(addr, C(64, o.base))
        if off.op == 'c':
            return o, s64(off.args[0], 64)
        if self.o['check_mem']:
            l, h = lo - o.base, hi - o.base
            if o.size is not None:
                if l + n > o.size or h < 0:
                    self.oob(st, o, l, n, write)
                elif h + n > o.size or l < 0:
                    self.stats['maybe_oob'] += 1
        return o, off

    def oob(self, st, o, off, n, write):
        h = self.hooks.get('oob')
        if h and h(self, st, o, off, n, write):
            return
        raise Fault('%s of %d bytes at offset %d outside %s (size %s)' % ('write' if write else 'read', n, off, o.name, o.size))

    def load(self, st, addr, n):
        """n bytes -> node of width 8n (or a float node)"""
        o, off = self.resolve(st, addr, n, False)
        return self.oload(st, o, off, n)

    def oload(self, st, o, off, n):
        if o.sym:
            r = self.symload(st, o, off, n)
            if r is not None:
                return r
        return self.plainload(st, o, off, n)

    def plainload(self, st, o, off, n):
        if isinstance(off, Node):
            return self.loadsym(st, o, off, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # assemble
        parts = []
        p = off
        end = off + n
        touched = [k for k in range(off - 15, end) if k in o.cells and k + o.cells[k][0] > off]
        if not touched:
            return self.fill(st, o, off, n)
        while p < end:
            hit = None
            for k in touched:
                if k <= p < k + o.cells[k][0]:
                    hit = k
                    break
            if hit is None:
                nxt = min([k for k in touched if k > p] + [end])
                parts.extend(segs_of(tobits(self.fill(st, o, p, nxt - p))))
                p = nxt
                continue
            sz, v = o.cells[hit]
            l = min(hit + sz, end) - p
            parts.extend(slice_(tobits(v), 8 * (p - hit), 8 * l))
            p += l
        return seg(tuple(parts))

    def fill(self, st, o, off, n):
        if o.lazy == 'zero':
            return C(8 * n, 0)
        if o.lazy is not None:
            if self.point is not None and o.lazy[:1] != '?' and not o.lazy.startswith('ext'):
                a = C(8 * n, int.from_bytes(bytes(self.pointbyte(o.lazy, off + i) for i in range(n)), 'little'))
                o.cells[off] = (n, a)
                return a
            a = atom(8 * n, '%s[%d:%d]' % (o.lazy, off, n), 'in' if not o.lazy.startswith('?') else 'un')
            o.cells[off] = (n, a)  # caching a lazily chosen name is idempotent
            return a
        if o.kind == 'heap':
            # never written since it was allocated: a property has to hold whatever the memory contains
            a = atom(8 * n, 'fresh memory %d[%d:%d]' % (o.base >> SP, off, n), 'in') if self.point is None else C(8 * n, int.from_bytes(b'\xa5' * n, 'little'))
            o.cells[off] = (n, a)
            return a
        return self.unknown(st, 8 * n, 'undef')

    def pointbyte(self, name, i):
        # the content of a one-point cell
        h = self.bytes.get((name, i))
        if h is not None:
            return h
        h = zlib.crc32(('%s/%d' % (name, i)).encode()) & 0xff
        return (0, 0xff, 1 + i % 253, h, h ^ 0xff)[self.point]

    def unknown(self, st, w, why):
        st.fresh += 1
        return atom(w, '%s#%d' % (why, st.fresh), 'un')

    def loadsym(self, st, o, off, n):
        a = st.env.av(off)
        lo, hi = a[0], a[1]
        if s64(lo, 64) < 0:
            lo, hi = a[2], a[3]
        if o.cells or o.lazy is None:
            # candidates
            step = 1
            kz = a[4]
            t = ((~kz) & -(~kz)).bit_length() - 1 if kz else 0
            step = 1 << t
            cnt = (hi - lo) // step + 1
            if cnt <= 64:
                cand = [v for v in range(lo, hi + 1, step) if (o.size is None or 0 <= v <= o.size - n)]
                raise Fork([lambda s, v=v: setex(s, s.env.assume_eq(off, v & M64)) for v in cand])
            ov = [k for k in o.cells if k + o.cells[k][0] > lo and k < hi + n]
            if ov:
                return self.unknown(st, 8 * n, 'idx')
        if o.lazy is not None:
            return atom(8 * n, '%s{%d}:%d' % (o.lazy, off.id, n), 'in')
        return self.unknown(st, 8 * n, 'idx')

    def symload(self, st, o, off, n, upto=None):
        """load through the write records of the object, newest first (only the first `upto` of them)"""
        offn = off if isinstance(off, Node) else C(64, off)
        i = len(o.sym) if upto is None else upto
        while i > 0:
            i -= 1
            eo, en, ev = o.sym[i]
            d = sub(offn, eo)
            copy = type(ev) is tuple and ev[0] == 'copy'
            if d.op == 'c':
                dv = s64(d.args[0], 64)
                if dv >= en or dv + n <= 0:
                    continue
                exact = not copy or (isc(ev[3]) and ev[3].args[0] == en)
                if exact and not (dv >= 0 and dv + n <= en):
                    # partly covered: piece by piece
                    parts = []
                    for l, h in ((min(dv, 0), 0), (max(dv, 0), min(dv + n, en)), (en, max(dv + n, en))):
                        if l < h:
                            q = add(eo, C(64, l))
                            q = s64(q.args[0], 64) if isc(q) else q
                            v = self.symload(st, o, q, h - l, i + 1)
                            if v is None:
                                v = self.plainload(st, o, q, h - l)
                            parts.extend(segs_of(tobits(v)))
                    return seg(tuple(parts))
                if copy:
                    r = self.copied(st, d, n, ev)
                    if r is None:
                        continue
                    return r
                if ev is None:
                    return self.unknown(st, 8 * n, 'havoc')
                if dv == 0 and n == en:
                    return ev
                return seg(slice_(tobits(ev), 8 * dv, 8 * n))
            a = st.env.av(d)
            if a[2] >= en or a[3] + n <= 0:
                continue
            if copy:
                r = self.copied(st, d, n, ev)
                if r is None:
                    continue
                return r
            return self.unknown(st, 8 * n, 'alias')
        return None

    def copied(self, st, d, n, ev):
        """load of n bytes at offset d (node) of a copied region of symbolic length; None: certainly outside"""
        _, snap, soff, ln = ev
        a = st.env.av(d)
        if a[2] < 0 and a[3] >= 0 and not isc(d):
            return self.unknown(st, 8 * n, 'partial')
        # both are below 2^63 here, so the unsigned order (the one facts are kept for) is the order
        c = self._icmp(st.env, 'ult' if a[2] >= 0 else 'slt', d, ln)
        if isc(c) and c.args[0] == 0:
            return None
        a = st.env.av(d)
        if a[3] + n <= 0:
            return None
        if a[2] >= 0:
            e = c if n == 1 and isc(c) else self._icmp(st.env, 'ult', ln, add(d, C(64, n)))
            if e is c:
                e = C(1, 0)
            if isc(e) and e.args[0] == 0:
                so = add(soff, d)
                return self.oload(st, snap, s64(so.args[0], 64) if isc(so) else so, n)
            if not isc(e) and n == 1 and not isc(c):
                raise Fork([lambda s, v=v: self.assume(s, c, v) for v in (1, 0)])
        return self.unknown(st, 8 * n, 'partial')

    def extent(self, st, o, off, ln):
        if o.size is None or not self.o['check_mem']:
            return
        end = add(off if isinstance(off, Node) else C(64, off), ln)
        a = st.env.av(end)
        if a[2] > o.size:
            self.oob(st, o, st.env.av(off)[2] if isinstance(off, Node) else off, st.env.av(ln)[0], True)
        elif a[3] > o.size:
            self.stats['maybe_oob'] += 1

    def store(self, st, addr, n, v):
        o, off = self.resolve(st, addr, n, True)
        if o.ro and self.o['check_mem']:
            raise Fault('write to read-only %s' % o.name)
        if 'share' in st.notes:
            self.shared(st, o)
        h = self.hooks.get('store')
        if h:
            h(self, st, o, off, n, v)
        self.ostore(st, o, off, n, v)

    def shared(self, st, o, what='write to'):
        """a plain write by a reader: its own stack, objects it created, thread-local storage and one-time
        initialisation under the compiler's guard are its own; everything older belongs to all threads"""
        if self.atomic or st.notes.get('guarded'):
            return
        if o.kind == 'global':
            if o.ro or '#' in o.name:
                return
            g = self.m.gvar(o.name)
            if g is None or any(f.startswith('thread_local') for f in g['flags']):
                return
            raise Fault('%s library-wide %s by a reading operation' % (what, o.name))
        if o.kind == 'heap' and (o.base - BASE) >> SP < st.notes['share']:
            raise Fault('%s shared %s by a reading operation' % (what, o.name))

    def ostore(self, st, o, off, n, v):
        if isinstance(off, Node) or o.sym:
            offn = off if isinstance(off, Node) else C(64, off)
            o.sym.append((offn, n, v))
            return
        for k in range(off - 15, off + n):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off and not (k >= off and k + c[0] <= off + n):
                # split the partially overwritten cell
                sz, ov = c
                ov = tobits(ov)
                del o.cells[k]
                if k < off:
                    o.cells[k] = (off - k, seg(slice_(ov, 0, 8 * (off - k))))
                if k + sz > off + n:
                    o.cells[off + n] = (k + sz - off - n, seg(slice_(ov, 8 * (off + n - k), 8 * (k + sz - off - n))))
            elif c is not None and k >= off and k != off:
                del o.cells[k]
        o.cells[off] = (n, v)

    def disjoint(self, st, d, s, ln):
        """memcpy of a piece onto an overlapping other one is undefined: report it where all three are known"""
        v = [st.env.av(x) for x in (d, s, ln)]
        if all(x[0] == x[1] for x in v) and 0 < abs(v[0][0] - v[1][0]) < v[2][0]:
            raise Fault('memcpy between overlapping pieces of memory')

    def memcpy(self, st, d, s, ln):
        if ln.op != 'c':
            a = st.env.av(ln)
            if a[0] == a[1]:
                ln = C(64, a[0])
        if ln.op != 'c' or ln.args[0] > 1024:
            a = st.env.av(ln)
            if 0 < a[1] - a[0] < 32:
                raise Fork([lambda stt, v=v: setex(stt, stt.env.assume_eq(ln, v)) for v in range(a[0], a[1] + 1)])
            # symbolic length: one region record, read through to a snapshot of the source
            if a[0] == 0:
                raise Fork([lambda stt: setex(stt, stt.env.assume_eq(ln, 0)), lambda stt: setex(stt, stt.env.assume_range(ln, 1, a[1], False))])
            so, soff = self.resolve(st, s, a[0], False)
            self.extent(st, so, soff, ln)
            snap = so.clone(None)
            o, off = self.resolve(st, d, a[0], True)
            self.extent(st, o, off, ln)
            if o.ro:
                raise Fault('write to read-only %s' % o.name)
            if 'share' in st.notes:
                self.shared(st, o)
            h = self.hooks.get('store')
            if h:
                h(self, st, o, off, a[1], None)
            offn = off if isinstance(off, Node) else C(64, off)
            o.sym.append((offn, min(a[1], 1 << 24), ('copy', snap, soff if isinstance(soff, Node) else C(64, soff), ln)))
            return
        n = ln.args[0]
        if n == 0:
            return
        so, soff = self.resolve(st, s, n, False)
        do, doff = self.resolve(st, d, n, True)
        if do.ro:
            raise Fault('write to read-only %s' % do.name)
        if 'share' in st.notes:
            self.shared(st, do)
        h = self.hooks.get('store')
        if h:
            h(self, st, do, doff, n, None)
        vals = []
        p = 0
        if isinstance(soff, Node) or so.sym or isinstance(doff, Node) or do.sym:
            g = 4
            while p < n:
                k = min(g, n - p)
                oo = add(soff, C(64, p)) if isinstance(soff, Node) else soff + p
                vals.append((p, k, self.oload(st, so, oo, k)))
                p += k
            for p, k, v in vals:
                self.ostore(st, do, add(doff, C(64, p)) if isinstance(doff, Node) else doff + p, k, v)
            return
        while p < n:
            c = so.cells.get(soff + p)
            if c is not None and p + c[0] <= n:
                vals.append((p, c[0], c[1]))
                p += c[0]
                continue
            k = 1
            lim = min(n - p, 4)
            while k < lim and (soff + p + k) not in so.cells and (soff + p + k) % 4:
                k += 1
            vals.append((p, k, self.oload(st, so, soff + p, k)))
            p += k
        for p, k, v in vals:
            self.ostore(st, do, doff + p, k, v)

    # typed access
    def tload(self, st, ty, addr):
        ty = self.m.res(ty)
        k = ty[0]
        if k == 'i':
            sz = self.m.size(ty)
            nb = (ty[1] + 7) // 8
            v = tobits(self.load(st, addr, nb if nb in (1, 2, 4, 8, 16) else nb))
            return trunc(v, ty[1])
        if k == 'ptr':
            return tobits(self.load(st, addr, 8))
        if k == 'f':
            return tofloat(self.load(st, addr, ty[1] // 8))
        if k == 'vec':
            es = self.m.size(ty[2])
            return Vec([self.tload(st, ty[2], add(addr, C(64, i * es))) for i in range(ty[1])])
        if k == 'st':
            return tuple(self.tload(st, ty[2][i], add(addr, C(64, self.m.field_off(ty, i)[0]))) for i in range(len(ty[2])))
        if k == 'arr':
            es = self.m.size(ty[2])
            return tuple(self.tload(st, ty[2], add(addr, C(64, i * es))) for i in range(ty[1]))
        raise GiveUp('load ' + str(ty))

    def tstore(self, st, ty, addr, v):
        ty = self.m.res(ty)
        k = ty[0]
        if k == 'i':
            nb = (ty[1] + 7) // 8
            if v.w < nb * 8:
                v = zext_raw(v, nb * 8)
            self.store(st, addr, nb, v)
        elif k == 'ptr':
            self.store(st, addr, 8, v)
        elif k == 'f':
            self.store(st, addr, ty[1] // 8, v)
        elif k in ('vec', 'arr'):
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                self.tstore(st, ty[2], add(addr, C(64, i * es)), v[i])
        elif k == 'st':
            for i in range(len(ty[2])):
                self.tstore(st, ty[2][i], add(addr, C(64, self.m.field_off(ty, i)[0])), v[i])
        else:
            raise GiveUp('store ' + str(ty))

    # ------------------------------------------------------------ constants/operands
    def const(self, st, ty, v):
        k = v[0]
        if k == 'k':
            w = 64 if ty[0] == 'ptr' else ty[1]
            return C(w, v[1])
        if k == 'fk':
            return FC(ty[1], v[1])
        if k == 'g':
            return C(64, self.global_addr(st, v[1]))
        rty = self.m.res(ty)
        if k == 'undef':
            return self.undef(st, rty)
        if k == 'zero':
            return self.zero(st, rty)
        if k == 'agg':
            r = [self.const(st, t, e) for t, e in v[1]]
            return Vec(r) if rty[0] == 'vec' else tuple(r)
        if k == 'str':
            return tuple(C(8, b) for b in v[1])
        if k == 'cegep':
            vals = [(t, self.const(st, t, e)) for t, e in v[2]]
            return self.gep(st, v[1], vals[0][1], vals[1:])
        if k == 'cecast':
            x = self.const(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'cebin':
            (t, a), (_, b) = v[2]
            return self.binop(st, v[1], t, self.const(st, t, a), self.const(st, t, b), ())
        if k == 'ceicmp':
            (t, a), (_, b) = v[2]
            return self.icmp(st, v[1], self.const(st, t, a), self.const(st, t, b))
        raise GiveUp('const %r' % (v,))

    def undef(self, st, ty):
        k = ty[0]
        if k == 'i':
            return self.unknown(st, ty[1], 'undef')
        if k == 'ptr':
            return self.unknown(st, 64, 'undef')
        if k == 'f':
            st.fresh += 1
            return mk('a', ty[1], ('undef#%d' % st.fresh, 'fun'))
        if k in ('vec', 'arr'):
            r = [self.undef(st, self.m.res(ty[2])) for _ in range(ty[1])]
            return Vec(r) if k == 'vec' else tuple(r)
        if k == 'st':
            return tuple(self.undef(st, self.m.res(t)) for t in ty[2])
        raise GiveUp('undef')

    def zero(self, st, ty):
        k = ty[0]
        if k == 'i':
            return C(ty[1], 0)
        if k == 'ptr':
            return C(64, 0)
        if k == 'f':
            return FC(ty[1], 0.0)
        if k in ('vec', 'arr'):
            r = [self.zero(st, self.m.res(ty[2])) for _ in range(ty[1])]
            return Vec(r) if k == 'vec' else tuple(r)
        if k == 'st':
            return tuple(self.zero(st, self.m.res(t)) for t in ty[2])
        raise GiveUp('zero')

    def opv(self, st, ty, v):
        if v[0] == 'l':
            return st.frames[-1].env[v[1]]
        return self.const(st, ty, v)

    def gep(self, st, ety, base, idx):
        m = self.m
        off = C(64, 0)
        ty = ety
        for i, (it, iv) in enumerate(idx):
            if i == 0:
                sz = m.size(ty)
                off = add(off, mulc(self.sx(st, iv, 64), sz))
                continue
            ty = m.res(ty)
            if ty[0] == 'st':
                fo, ty = m.field_off(ty, iv.args[0])
                off = add(off, C(64, fo))
            else:
                ty = ty[2]
                off = add(off, mulc(self.sx(st, iv, 64), m.size(ty)))
        return add(base, off)

    def sx(self, st, v, w):
        if v.w == w:
            return v
        if v.w > w:
            return trunc(v, w)
        return self.sext(st, v, w)

    def sext(self, st, v, w):
        if v.op == 'c':
            return C(w, s64(v.args[0], v.w))
        a = st.env.av(v)
        if a[2] >= 0:
            return self.zext(st, v, w)
        if v.op == 'lin' and st.env.nowrap_s(v):
            return lin(w, s64(v.args[0], v.w), [(self.sext(st, x, w), s64(c, v.w)) for x, c in v.args[1]])
        if v.op == 'sext':
            return mk('sext', w, v.args)
        r = self.widen(st, v, w, True)
        if r is not None:
            return r
        return mk('sext', w, (v,))

    def widen(self, st, v, w, signed):
        # v = low k bits of F, and F is known to fit into them
        if v.op == 'seg' and len(v.args) == 1 and v.args[0][0] is not None and v.args[0][1] == 0 and v.args[0][0].w >= w:
            F = v.args[0][0]
            a = st.env.av(F)
            k = v.w
            if signed and a[2] >= -(1 << (k - 1)) and a[3] < (1 << (k - 1)) or not signed and a[1] < (1 << k):
                return trunc(F, w)
        return None

    def zext(self, st, v, w):
        if v.op == 'c':
            return C(w, v.args[0])
        if v.op == 'lin':
            if st.env.nowrap_u(v):
                return lin(w, s64(v.args[0], v.w), [(self.zext(st, x, w), s64(c, v.w)) for x, c in v.args[1]])
            a = st.env.av(v)
            if a[2] >= 0 and st.env.nowrap_s(v):
                return lin(w, s64(v.args[0], v.w), [(self.sext(st, x, w), s64(c, v.w)) for x, c in v.args[1]])
        r = self.widen(st, v, w, False)
        if r is not None:
            return r
        return zext_raw(v, w)

    # ------------------------------------------------------------ operations
    def cast(self, st, op, sty, v, dty):
        dty = self.m.res(dty)
        sty = self.m.res(sty)
        if sty[0] == 'vec' and op != 'bitcast':
            return Vec([self.cast(st, op, sty[2], x, dty[2]) for x in v])
        if op == 'trunc':
            return trunc(v, dty[1])
        if op == 'zext':
            return self.zext(st, v, dty[1])
        if op == 'sext':
            return self.sext(st, v, dty[1])
        if op == 'ptrtoint':
            w = dty[1]
            return v if w == 64 else trunc(v, w) if w < 64 else zext_raw(v, w)
        if op == 'inttoptr':
            return v if v.w == 64 else trunc(v, 64) if v.w > 64 else zext_raw(v, 64)
        if op in ('bitcast', 'addrspacecast'):
            return self.bitcast(st, sty, v, dty)
        if op in ('sitofp', 'uitofp'):
            if v.op == 'c':
                x = s64(v.args[0], v.w) if op == 'sitofp' else v.args[0]
                return FC(dty[1], rnd(dty[1], x))
            if op == 'sitofp' and st.env.av(v)[2] >= 0:
                op = 'uitofp'
            # canonical operand: without extensions
            if op == 'sitofp' and v.op == 'sext':
                v = v.args[0]
            elif op == 'uitofp' and v.op == 'seg' and v.args[-1][0] is None and v.args[-1][1] == 0 and len(v.args) > 1:
                v = seg(v.args[:-1])
            return mk(op, dty[1], (v,))
        if op in ('fptosi', 'fptoui'):
            if v.op == 'fc':
                x = fval(v)
                w = dty[1]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
                if x == x and not math.isinf(x) and lo <= math.trunc(x) <= hi:
                    return C(w, math.trunc(x))
                return self.unknown(st, w, 'poison')
            if v.op in ('sitofp', 'uitofp'):
                x = v.args[0]
                a = st.env.av(x)
                lim = 1 << (53 if v.w == 64 else 24)
                if v.op == 'uitofp' and a[1] <= lim or v.op == 'sitofp' and -lim <= a[2] and a[3] <= lim:
                    y = self.zext(st, x, 128) if v.op == 'uitofp' else self.sext(st, x, 128)
                    if x.w == dty[1]:
                        return x
                    if x.w < dty[1]:
                        return self.zext(st, x, dty[1]) if v.op == 'uitofp' else self.sext(st, x, dty[1])
            w = dty[1]
            while v.op == 'fpext':
                v = v.args[0]
            lo, hi, nan = st.env.fv(v)[:3]
            if not nan and not math.isinf(lo) and not math.isinf(hi):
                a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
                if a <= math.trunc(lo) and math.trunc(hi) <= b:
                    return trunc(mk('fptosi', 128, (v,)), w)
            return mk(op, w, (v,))
        if op == 'fpext':
            if v.op == 'fc':
                return FC(dty[1], fval(v))
            return mk('fpext', dty[1], (v,))
        if op == 'fptrunc':
            if v.op == 'fc':
                return FC(dty[1], rnd(dty[1], fval(v)))
            if v.op == 'fpext' and v.args[0].w == dty[1]:
                return v.args[0]
            return mk('fptrunc', dty[1], (v,))
        raise GiveUp('cast ' + op)

    def bitcast(self, st, sty, v, dty):
        if sty == dty or (sty[0] == dty[0] == 'ptr'):
            return v
        # flatten to bits
        if sty[0] == 'vec':
            parts = []
            for x in v:
                parts.extend(segs_of(tobits(x)))
            b = seg(tuple(parts))
        else:
            b = tobits(v)
        if dty[0] == 'vec':
            e = self.m.res(dty[2])
            ew = 64 if e[0] == 'ptr' else e[1]
            out = [seg(slice_(b, i * ew, ew)) for i in range(dty[1])]
            if e[0] == 'f':
                out = [tofloat(x) for x in out]
            return Vec(out)
        if dty[0] == 'f':
            return tofloat(b)
        return b

    def binop(self, st, op, ty, a, b, fl):
        ty = self.m.res(ty)
        if ty[0] == 'vec':
            return Vec([self.binop(st, op, ty[2], x, y, fl) for x, y in zip(a, b)])
        w = a.w
        env = st.env
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fbin(st, op, a, b)
        M = (1 << w) - 1
        if op == 'add':
            if w == 1:
                op = 'xor'
            else:
                if a.op in ('seg', 'c') and b.op in ('seg', 'c') and not (isc(a) and isc(b)):
                    m = merge_disjoint(a, b)
                    if m is not None:
                        return m
                return add(a, b)
        if op == 'sub':
            if w == 1:
                op = 'xor'
            else:
                return sub(a, b)
        if op == 'mul':
            if isc(a):
                a, b = b, a
            if isc(b):
                return mulc(a, b.args[0])
            av, bv = env.av(a), env.av(b)
            if av[0] == av[1]:
                return mulc(b, av[0])
            if bv[0] == bv[1]:
                return mulc(a, bv[0])
            return mk('mul', w, (a, b) if a.id <= b.id else (b, a))
        # resolve pinned operands
        av, bv = env.av(a), env.av(b)
        if not isc(b) and bv[0] == bv[1]:
            b = C(w, bv[0])
        if not isc(a) and av[0] == av[1]:
            a = C(w, av[0])
        if op in ('shl', 'lshr', 'ashr') and isc(b):
            s = b.args[0]
            if s >= w:
                return self.unknown(st, w, 'poison')
            if s == 0:
                return a
            if op == 'shl':
                if a.op == 'lin':
                    return mulc(a, 1 << s)
                return seg(((None, 0, s),) + tuple(slice_(a, 0, w - s)))
            if op == 'ashr':
                if isc(a):
                    return C(w, s64(a.args[0], w) >> s)
                if av[2] >= 0:
                    op = 'lshr'
                else:
                    if a.op == 'lin' and self.divisible(a, s) and env.nowrap_s(a):
                        return self.divlin(a, s)
                    if a.op == 'seg' and a.args[0][0] is None and a.args[0][1] == 0 and a.args[0][2] >= s:
                        # (x << s) >>s s  == sext of the low part
                        low = seg(slice_(a, s, w - s))
                        if low.op == 'seg' or low.w != w:
                            return self.sext(st, low, w)
                    return self.sext(st, seg(slice_(a, s, w - s)), w)
            if op == 'lshr':
                if a.op == 'lin' and self.divisible(a, s):
                    if env.nowrap_u(a) or (av[2] >= 0 and env.nowrap_s(a)):
                        return self.divlin(a, s)
                return seg(tuple(slice_(a, s, w - s)) + ((None, 0, s),))
        if op in ('udiv', 'urem') and isc(b) and b.args[0] and b.args[0] & (b.args[0] - 1) == 0:
            s = b.args[0].bit_length() - 1
            if op == 'udiv':
                return self.binop(st, 'lshr', ty, a, C(w, s), fl) if s else a
            return seg(tuple(slice_(a, 0, s)) + ((None, 0, w - s),)) if s else C(w, 0)
        if op in ('sdiv', 'srem') and av[2] >= 0 and bv[2] > 0:
            return self.binop(st, 'udiv' if op == 'sdiv' else 'urem', ty, a, b, fl)
        if op == 'sdiv' and isc(b):
            d = s64(b.args[0], w)
            if 'exact' in fl and a.op == 'lin':
                c0, ts = a.args
                if all(s64(c, w) % d == 0 for _, c in ts) and s64(c0, w) % d == 0 and env.nowrap_s(a):
                    return lin(w, s64(c0, w) // d, [(x, s64(c, w) // d) for x, c in ts])
            if 'exact' in fl and d > 0 and d & (d - 1) == 0:
                return self.binop(st, 'ashr', ty, a, C(w, d.bit_length() - 1), fl)
        if op == 'udiv' and isc(b) and a.op == 'lin':
            d = b.args[0]
            c0, ts = a.args
            if d and all(s64(c, w) % d == 0 for _, c in ts) and s64(c0, w) % d == 0 and env.nowrap_u(a):
                return lin(w, s64(c0, w) // d, [(x, s64(c, w) // d) for x, c in ts])
        if op in ('udiv', 'urem') and isc(b) and b.args[0]:
            d = b.args[0]
            if av[1] < d:
                return C(w, 0) if op == 'udiv' else a
            if a.op == 'lin' and env.nowrap_u(a):
                # a = d * whole + rest, in integers
                c0, ts = s64(a.args[0], w), [(x, s64(c, w)) for x, c in a.args[1]]
                whole = lin(w, c0 // d, [(x, c // d) for x, c in ts if c % d == 0])
                rest = lin(w, c0 % d, [(x, c) for x, c in ts if c % d])
                if rest is not a and env.nowrap_u(whole) and env.nowrap_u(rest):
                    if op == 'urem':
                        return self.binop(st, op, ty, rest, b, fl)
                    if env.av(rest)[1] < d:
                        return whole
        if op == 'and':
            if isc(a):
                a, b = b, a
                av, bv = bv, av
            if a is b:
                return a
            if isc(b):
                return cfold(env, maskseg(a, b.args[0]))
            if w == 1:
                if av[0] == av[1]:
                    return b if av[0] else C(1, 0)
                if bv[0] == bv[1]:
                    return a if bv[0] else C(1, 0)
            return mk('and', w, (a, b) if a.id <= b.id else (b, a))
        if op == 'or':
            if isc(a):
                a, b = b, a
                av, bv = bv, av
            if a is b:
                return a
            if isc(b):
                return cfold(env, orseg(a, b.args[0]))
            m = merge_disjoint(a, b)
            if m is not None:
                return m
            if (av[4] | bv[4]) & M == M and w > 1:
                m = merge_kb(a, b, av, bv)
                if m is not None:
                    return m
            if w == 1:
                if av[0] == av[1]:
                    return C(1, 1) if av[0] else b
                if bv[0] == bv[1]:
                    return C(1, 1) if bv[0] else a
            return mk('or', w, (a, b) if a.id <= b.id else (b, a))
        if op == 'xor':
            if a is b:
                return C(w, 0)
            if isc(a):
                a, b = b, a
                av, bv = bv, av
            if isc(b):
                k = b.args[0]
                if isc(a):
                    return C(w, a.args[0] ^ k)
                if k == 0:
                    return a
                if w == 1:
                    return bnot(a)
                if k == M:
                    return sub(C(w, M), a)
                if k == 1 << (w - 1):
                    return add(a, b)
                if k & av[4] == k:
                    return cfold(env, orseg(a, k))
                # x ^ k where the flipped bits are known ones: clear them
                if k & av[5] == k:
                    return cfold(env, maskseg(a, M & ~k))
                if a.op == 'xor':
                    x, y = a.args
                    if isc(x):
                        x, y = y, x
                    if isc(y):
                        return self.binop(st, 'xor', ty, x, C(w, y.args[0] ^ k), fl)
                if a.op == 'seg':
                    # part by part
                    out = []
                    pos = 0
                    for q in a.args:
                        kk = (k >> pos) & ((1 << q[2]) - 1)
                        pos += q[2]
                        if kk == 0:
                            out.append(q)
                        elif q[0] is None:
                            out.append((None, q[1] ^ kk, q[2]))
                        else:
                            n = self.binop(st, 'xor', ('i', q[2]), seg((q,)), C(q[2], kk), fl)
                            out += segs_of(n)
                    return seg(tuple(out))
            return mk('xor', w, (a, b) if a.id <= b.id else (b, a))
        if isc(a) and isc(b):
            x, y = a.args[0], b.args[0]
            if op == 'udiv':
                return C(w, x // y) if y else self.unknown(st, w, 'div0')
            if op == 'urem':
                return C(w, x % y) if y else self.unknown(st, w, 'div0')
            if op in ('sdiv', 'srem'):
                if y == 0:
                    return self.unknown(st, w, 'div0')
                sx, sy = s64(x, w), s64(y, w)
                q = tdiv(sx, sy)
                return C(w, q) if op == 'sdiv' else C(w, sx - q * sy)
        if op == 'shl' and not isc(b):
            a2 = av
            if bv[1] >= w:
                pass
            elif bv[1] - bv[0] < 64:
                raise Fork([lambda s, v=v: setex(s, s.env.assume_eq(b, v)) for v in range(bv[0], bv[1] + 1)])
        return mk(op, w, (a, b))

    def divisible(self, a, s):
        m = (1 << s) - 1
        return all(c & m == 0 for _, c in a.args[1])  # the shift floors, the terms contribute whole steps

    def divlin(self, a, s):
        w = a.w
        return lin(w, s64(a.args[0], w) >> s, [(x, s64(c, w) >> s) for x, c in a.args[1]])

    def fbin(self, st, op, a, b):
        if a.op == 'fc' and b.op == 'fc':
            x, y = fval(a), fval(b)
            try:
                if op == 'fadd':
                    r = x + y
                elif op == 'fsub':
                    r = x - y
                elif op == 'fmul':
                    r = x * y
                elif op == 'fdiv':
                    if y == 0:
                        r = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
                    else:
                        r = x / y
                else:
                    r = math.fmod(x, y)
            except (OverflowError, ValueError):
                r = math.nan
            return FC(a.w, r)
        return mk(op, a.w, (a, b))

    def icmp(self, st, pred, a, b):
        if isinstance(a, Vec):
            return Vec([self.icmp(st, pred, x, y) for x, y in zip(a, b)])
        neg_ = False
        if pred in ('ne',):
            pred, neg_ = 'eq', True
        elif pred == 'ugt':
            pred, a, b = 'ult', b, a
        elif pred == 'sgt':
            pred, a, b = 'slt', b, a
        elif pred == 'uge':
            pred, neg_ = 'ult', True
        elif pred == 'sge':
            pred, neg_ = 'slt', True
        elif pred == 'ule':
            pred, a, b, neg_ = 'ult', b, a, True
        elif pred == 'sle':
            pred, a, b, neg_ = 'slt', b, a, True
        r = self._icmp(st.env, pred, a, b)
        if neg_:
            r = bnot(r)
        return r

    def signexp(self, env, n):
        if n.op == 'sext':
            x = n.args[0]
            v = env.av(x)
            if v[3] < 0:
                return seg(tuple(segs_of(x)) + ((None, (1 << (n.w - x.w)) - 1, n.w - x.w),))
            if v[2] >= 0:
                return zext_raw(x, n.w)
        elif n.op == 'seg' and any(q[0] is not None and q[0].op == 'sext' for q in n.args):
            out = []
            for q in n.args:
                if q[0] is not None and q[0].op == 'sext':
                    y = self.signexp(env, q[0])
                    if y is not q[0]:
                        out += segs_of(seg(slice_(y, q[1], q[2])))
                        continue
                out.append(q)
            return seg(tuple(out))
        return n

    def restates(self, env, sg, n):
        """the segment form is n itself: slices of n in their places, bits known of n elsewhere"""
        v = None
        pos = 0
        for s, l, k in sg.args:
            if s is None:
                if v is None:
                    v = env.av(n)
                m = (1 << k) - 1
                if (v[5] >> pos) & m != l or (v[4] >> pos) & m != m & ~l:
                    return False
            elif s is not n or l != pos:
                return False
            pos += k
        return True

    def _icmp(self, env, pred, a, b):
        w = a.w
        if a is b:
            return C(1, 1 if pred == 'eq' else 0)
        A, B = env.av(a), env.av(b)
        H = 1 << (w - 1)
        if pred == 'eq':
            if A[0] > B[1] or B[0] > A[1] or A[2] > B[3] or B[2] > A[3] or (A[5] & B[4]) or (A[4] & B[5]):
                return C(1, 0)
            if A[0] == A[1] and B[0] == B[1]:
                return C(1, 1 if A[0] == B[0] else 0)
            if isc(b) and b.args[0] == 0 and a.op in ('or', 'sext', 'seg') and env.nonzero(a) or isc(a) and a.args[0] == 0 and b.op in ('or', 'sext', 'seg') and env.nonzero(b):
                return C(1, 0)
            if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
                return self._icmp(env, 'eq', a.args[0], b.args[0])
            a, b = self.signexp(env, a), self.signexp(env, b)
            if a is b:
                return C(1, 1)
            if a.op == 'seg' and b.op == 'seg':
                r = self.segeq(env, a, b)
                if r is not None:
                    return r
            elif a.op == 'seg' and self.restates(env, a, b) or b.op == 'seg' and self.restates(env, b, a):
                return C(1, 1)
            d = sub(a, b)
            if d.op == 'c':
                return C(1, 1 if d.args[0] == 0 else 0)
            D = env.av(d)
            if D[0] > 0 or D[3] < 0 or D[2] > 0 or D[5]:
                return C(1, 0)
            if D[0] == D[1] == 0:
                return C(1, 1)
            if isc(a):
                a, b = b, a
            if isc(b) and a.op == 'lin' and len(a.args[1]) == 1 and a.args[1][0][1] in (1, (1 << w) - 1):
                x, c = a.args[1][0]
                k = (b.args[0] - a.args[0]) * (1 if c == 1 else -1)
                a, b = x, C(w, k)
            if isc(b) and a.op == 'seg':
                # strip constant (already matching) segments at the ends
                sg = list(a.args)
                v = b.args[0]
                nb = a.w
                while sg and sg[-1][0] is None:
                    nb -= sg[-1][2]
                    sg.pop()
                lo = 0
                while sg and sg[0][0] is None:
                    lo += sg[0][2]
                    sg.pop(0)
                if sg and (lo or nb < a.w):
                    a = seg(tuple(sg))
                    b = C(a.w, (v >> lo) & ((1 << a.w) - 1))
            if not isc(b) and a.id > b.id:
                a, b = b, a
            n = mk('icmp', 1, ('eq', a, b))
            t = env.truth.get(n)
            if t is None and not isc(a) and not isc(b):
                t = self.known_rel(env, 'eq', a, b)
            if t is not None:
                return C(1, t)
            return n
        if pred == 'ult':
            if A[1] < B[0]:
                return C(1, 1)
            if A[0] >= B[1]:
                return C(1, 0)
            if A[1] < H and B[1] < H:
                r = self._diffcmp(env, a, b)
                if r is not None:
                    return r
            if isc(b) and b.args[0] == 1:
                return self._icmp(env, 'eq', a, C(w, 0))
            if isc(a) and a.args[0] == 0:
                return bnot(self._icmp(env, 'eq', b, C(w, 0)))
        else:
            if A[3] < B[2]:
                return C(1, 1)
            if A[2] >= B[3]:
                return C(1, 0)
            if A[2] - B[3] >= -H and A[3] - B[2] < H:
                r = self._diffcmp(env, a, b)
                if r is not None:
                    return r
            if A[2] >= 0 and B[2] >= 0:
                pred = 'ult'
        n = mk('icmp', 1, (pred, a, b))
        t = env.truth.get(n)
        if t is not None:
            return C(1, t)
        t = env.truth.get(mk('icmp', 1, (pred, b, a)))
        if t == 1:
            return C(1, 0)
        if pred == 'ult' and not isc(a) and not isc(b):
            t = self.known_rel(env, pred, a, b)
            if t is None and (a.op == 'seg' or b.op == 'seg'):
                t = self.lexless(env, a, b)
            if t is not None:
                return C(1, t)
        return n

    def lexless(self, env, a, b):
        cuts = sorted(set(cum(segs_of(a)) + cum(segs_of(b))))
        hi = a.w
        for lo in reversed([0] + [c for c in cuts if c < a.w]):
            x, y = seg(slice_(a, lo, hi - lo)), seg(slice_(b, lo, hi - lo))
            hi = lo
            if x is y:
                continue
            X, Y = env.av(x), env.av(y)
            if X[1] < Y[0]:
                return 1
            if X[0] > Y[1]:
                return 0
            if X[0] == X[1] == Y[0] == Y[1]:
                continue
            if self.known_rel(env, 'eq', x, y) == 1:
                continue
            if self.known_rel(env, 'ult', x, y) == 1:
                return 1
            if self.known_rel(env, 'ult', y, x) == 1:
                return 0
            return None
        return 0

    def canon_rel(self, env, a, b):
        """drop the common low and high parts of both operands and the known-zero high bits"""
        if a.op == 'seg' or b.op == 'seg':
            ca, cb = cum(segs_of(a)), cum(segs_of(b))
            lo, hi = 0, a.w
            cuts = sorted(set(ca + cb + [a.w]))
            for c in cuts:
                if seg(slice_(a, lo, c - lo)) is not seg(slice_(b, lo, c - lo)):
                    break
                lo = c
            for c in reversed([0] + cuts[:-1]):
                if c < lo or seg(slice_(a, c, hi - c)) is not seg(slice_(b, c, hi - c)):
                    break
                hi = c
            if hi <= lo:
                return None
            if lo or hi < a.w:
                a, b = seg(slice_(a, lo, hi - lo)), seg(slice_(b, lo, hi - lo))
        A, B = env.av(a), env.av(b)
        nb = max(A[1], B[1]).bit_length()
        if 0 < nb < a.w:
            a, b = trunc(a, nb), trunc(b, nb)
        return a, b

    def known_rel(self, env, pred, a, b):
        if not env.rel:
            return None
        ab = self.canon_rel(env, a, b)
        if ab is None:
            return 1 if pred == 'eq' else 0
        a, b = ab
        R = env.rel.get((a, b), 7)  # allowed outcomes: 1 '<', 2 '=', 4 '>'
        if pred == 'eq':
            return 1 if R == 2 else 0 if not R & 2 else None
        return 1 if R == 1 else 0 if not R & 1 else None

    def note_rel(self, env, pred, a, b, t):
        ab = self.canon_rel(env, a, b)
        if ab is None:
            return
        a, b = ab
        m = {'eq': 2, 'ult': 1}[pred]
        R = env.rel.get((a, b), 7) & (m if t else 7 - m)
        if not R:
            raise Infeasible()
        env.rel = dict(env.rel)
        env.rel[a, b] = R
        env.rel[b, a] = (R & 2) | (4 if R & 1 else 0) | (1 if R & 4 else 0)

    def segeq(self, env, a, b):
        """compare two segment forms piecewise: decided only when all pieces agree or one differs"""
        pos = 0
        ai, bi = list(a.args), list(b.args)
        allsame = True
        cuts = sorted(set(cum(ai) + cum(bi)))
        p = 0
        for c in cuts:
            x = seg(slice_(a, p, c - p))
            y = seg(slice_(b, p, c - p))
            if x is not y:
                if isc(x) and isc(y):
                    return C(1, 0)
                X, Y = env.av(x), env.av(y)
                if X[0] > Y[1] or Y[0] > X[1]:
                    return C(1, 0)
                if not (X[0] == X[1] == Y[0] == Y[1]):
                    allsame = False
            p = c
        if allsame:
            return C(1, 1)
        return None

    def _diffcmp(self, env, a, b):
        d = sub(a, b)
        D = env.av(d)
        if D[3] < 0:
            return C(1, 1)
        if D[2] >= 0:
            return C(1, 0)
        return None

    def fpclass(self, st, x, mask):
        lo, hi, nan = st.env.fv(x)[:3]
        mn = 2.0 ** (-1022 if x.w == 64 else -126)
        pos = 0
        if nan:
            pos |= 3
        if lo == -math.inf:
            pos |= 4
        if hi == math.inf:
            pos |= 512
        if lo <= -mn and hi > -math.inf:
            pos |= 8
        if hi >= mn and lo < math.inf:
            pos |= 256
        if lo < 0 and hi > -mn:
            pos |= 16
        if hi > 0 and lo < mn:
            pos |= 128
        if lo <= 0 <= hi:
            pos |= 96
        if not pos & mask:
            return C(1, 0)
        if not pos & ~mask:
            return C(1, 1)
        return self.unknown(st, 1, 'fpclass')

    def fcmp(self, st, pred, a, b):
        if isinstance(a, Vec):
            return Vec([self.fcmp(st, pred, x, y) for x, y in zip(a, b)])
        if pred in ('true', 'false'):
            return C(1, 1 if pred == 'true' else 0)
        env = st.env
        A, B = env.fv(a), env.fv(b)
        nan = A[2] or B[2]
        onlynan = A[0] > A[1] or B[0] > B[1]
        un = pred[0] == 'u'
        if pred == 'ord':
            return C(1, 1) if not nan else C(1, 0) if onlynan else self.mkf('ord', a, b, env)
        if pred == 'uno':
            return C(1, 0) if not nan else C(1, 1) if onlynan else bnot(self.mkf('ord', a, b, env))
        if onlynan:
            return C(1, 1 if un else 0)
        p = pred[1:]
        if p == 'gt':
            p, a, b, A, B = 'lt', b, a, B, A
        elif p == 'ge':
            p, a, b, A, B = 'le', b, a, B, A
        r = None
        if p == 'lt':
            r = 1 if A[1] < B[0] else 0 if A[0] >= B[1] else None
        elif p == 'le':
            r = 1 if A[1] <= B[0] else 0 if A[0] > B[1] else None
        elif p in ('eq', 'ne'):
            if A[0] == A[1] == B[0] == B[1]:
                r = 1
            elif A[1] < B[0] or B[1] < A[0]:
                r = 0
            elif a is b:
                r = 1
            if p == 'ne' and r is not None:
                r = 1 - r
        if a is b and p == 'lt':
            r = 0
        if a is b and p == 'le':
            r = 1
        if r is not None and (not nan or (un and r == 1) or (not un and r == 0)):
            return C(1, r)
        if p == 'ne':
            # one = ord && !eq ; une = !oeq
            if un:
                return bnot(self.mkf('oeq', a, b, env))
            if not nan:
                return bnot(self.mkf('oeq', a, b, env))
            return self.mkf('one', a, b, env)
        if p == 'eq':
            if un and nan:
                return self.mkf('ueq', a, b, env)
            return self.mkf('oeq', a, b, env)
        if un and nan:
            # ult = !(oge)
            q = {'lt': 'le', 'le': 'lt'}[p]
            return bnot(self.mkf('o' + q, b, a, env))
        return self.mkf('o' + p, a, b, env)

    def mkf(self, p, a, b, env):
        n = mk('fcmp', 1, (p, a, b))
        t = env.truth.get(n)
        return C(1, t) if t is not None else n

    # ------------------------------------------------------------ assumptions
    def assume(self, st, c, t):
        """refine the state with condition c == t (may raise Infeasible); clears exactness if approximate"""
        env = st.env
        if c.op == 'c':
            if c.args[0] != t:
                raise Infeasible()
            return
        if c.op == 'not':
            return self.assume(st, c.args[0], 1 - t)
        if c.op in ('and', 'or') and c.w == 1:
            a, b = c.args
            if (c.op == 'and') == (t == 1):
                self.assume(st, a, t)
                self.assume(st, b, t)
                return
            A, B = env.av(a), env.av(b)
            tt = 1 if c.op == 'and' else 0
            if A[0] == A[1] == tt:
                return self.assume(st, b, t)
            if B[0] == B[1] == tt:
                return self.assume(st, a, t)
            setex(st, False, 'disjunction')
            return
        if c.op == 'icmp':
            cur = env.truth.get(c)
            if cur is not None:
                if cur != t:
                    raise Infeasible()
                return
            env.truth[c] = t
            env.memo = {}
            p, a, b = c.args
            w = a.w
            M = (1 << w) - 1
            H = 1 << (w - 1)
            if p in ('eq', 'ult') and not isc(a) and not isc(b):
                self.note_rel(env, p, a, b, t)
            if p == 'eq':
                if t:
                    if isc(b):
                        setex(st, env.assume_eq(a, b.args[0]), 'eq')
                    elif isc(a):
                        setex(st, env.assume_eq(b, a.args[0]), 'eq')
                    else:
                        A, B = env.av(a), env.av(b)
                        env.assume_range(a, B[0], B[1], False)
                        env.assume_range(b, A[0], A[1], False)
                        d = sub(a, b)
                        if d.op == 'lin':
                            env.set(d, (0, 0, 0, 0, M, 0))
                        setex(st, False, 'eq of two unknowns')
                else:
                    if isc(a):
                        a, b = b, a
                    if isc(b):
                        v = b.args[0]
                        A = env.av(a)
                        if A[0] == A[1] == v:
                            raise Infeasible()
                        if A[0] == v:
                            setex(st, env.assume_range(a, v + 1, M, False), 'ne')
                        elif A[1] == v:
                            setex(st, env.assume_range(a, 0, v - 1, False), 'ne')
                        elif A[2] == s64(v, w):
                            setex(st, env.assume_range(a, A[2] + 1, H - 1, True), 'ne')
                        elif A[3] == s64(v, w):
                            setex(st, env.assume_range(a, -H, A[3] - 1, True), 'ne')
                        elif A[0] < v < A[1]:
                            setex(st, False, 'ne inside')
                    else:
                        setex(st, False, 'ne of two unknowns')
                return
            signed = p == 'slt'
            if t:
                x, y, strict = a, b, 1
            else:
                x, y, strict = b, a, 0  # y_ <= : b <= a
            X, Y = env.av(x), env.av(y)
            xi, yi = ((X[2], X[3]), (Y[2], Y[3])) if signed else ((X[0], X[1]), (Y[0], Y[1]))
            lo0, hi0 = (-H, H - 1) if signed else (0, M)
            # x (<|<=) y
            e1 = env.assume_range(x, lo0, yi[1] - strict, signed) if not isc(x) else True
            if isc(x) and x_val(x, signed) > yi[1] - strict:
                raise Infeasible()
            e2 = env.assume_range(y, xi[0] + strict, hi0, signed) if not isc(y) else True
            if isc(y) and x_val(y, signed) < xi[0] + strict:
                raise Infeasible()
            if isc(x) or isc(y):
                setex(st, e1 and e2, 'range of %s' % show(c))
            else:
                X, Y = env.av(x), env.av(y)
                if signed and X[2] - Y[3] >= -H and X[3] - Y[2] < H or not signed and X[1] < H and Y[1] < H:
                    d = sub(x, y)
                    if d.op == 'lin':
                        env.assume_range(d, -H, -strict, True)
                setex(st, False, 'order of two unknowns')
            return
        if c.op == 'fcmp':
            cur = env.truth.get(c)
            if cur is not None:
                if cur != t:
                    raise Infeasible()
                return
            env.truth[c] = t
            env.memo = {}
            p, a, b = c.args
            A, B = env.fv(a), env.fv(b)
            nan = A[2] or B[2]
            if p == 'ord':
                e = True
                if t:
                    e = self.frange(env, a, -INF, INF, False) and self.frange(env, b, -INF, INF, False)
                else:
                    e = False
                setex(st, e, 'fcmp ord')
                return
            if p in ('olt', 'ole'):
                if t:
                    strict = p == 'olt'
                    e1 = self.frange(env, a, -INF, fprev(B[1], a.w) if strict else B[1], False) if a.op != 'fc' else True
                    e2 = self.frange(env, b, fnext(A[0], b.w) if strict else A[0], INF, False) if b.op != 'fc' else True
                    setex(st, e1 and e2 and (a.op == 'fc' or b.op == 'fc'), 'fcmp')
                else:
                    if nan:
                        if a.op == 'fc' or b.op == 'fc':
                            # either NaN or the reversed order; keep NaN possible
                            strict = p == 'ole'
                            x, y = b, a
                            e1 = self.frange(env, y, fnext(B[0], y.w) if strict else B[0], INF, True) if y.op != 'fc' else True
                            e2 = self.frange(env, x, -INF, fprev(A[1], x.w) if strict else A[1], True) if x.op != 'fc' else True
                            setex(st, e1 and e2, 'fcmp')
                        else:
                            setex(st, False, 'fcmp')
                        return
                    strict = p == 'ole'
                    e1 = self.frange(env, a, fnext(B[0], a.w) if strict else B[0], INF, False) if a.op != 'fc' else True
                    e2 = self.frange(env, b, -INF, fprev(A[1], b.w) if strict else A[1], False) if b.op != 'fc' else True
                    setex(st, e1 and e2 and (a.op == 'fc' or b.op == 'fc'), 'fcmp')
                return
            if p == 'oeq':
                if t:
                    e1 = self.frange(env, a, B[0], B[1], False) if a.op != 'fc' else True
                    e2 = self.frange(env, b, A[0], A[1], False) if b.op != 'fc' else True
                    setex(st, e1 and e2 and (a.op == 'fc' or b.op == 'fc'), 'fcmp eq')
                else:
                    setex(st, False, 'fcmp ne')
                return
            setex(st, False, 'fcmp ' + p)
            return
        # plain i1 value
        setex(st, env.assume_eq(c, t), 'flag %s' % show(c))

    def frange(self, env, n, lo, hi, nan):
        """restrict float node; exact?"""
        A = env.fv(n)
        nlo, nhi = max(lo, A[0]), min(hi, A[1])
        if nlo > nhi and not (nan and A[2]):
            raise Infeasible()
        if (nlo, nhi) == (A[0], A[1]) and (nan or not A[2]):
            return True
        if n.op == 'fc':
            return True
        if n.op in ('sitofp', 'uitofp') and nlo <= nhi:
            x = n.args[0]
            a = env.av(x)
            sg = n.op == 'sitofp'
            xl, xh = (a[2], a[3]) if sg else (a[0], a[1])
            # smallest x with rnd(x) >= nlo ; largest with rnd(x) <= nhi
            l, h = xl, xh
            while l < h:
                m_ = (l + h) // 2
                if rnd(n.w, m_) >= nlo:
                    h = m_
                else:
                    l = m_ + 1
            nl = l
            l, h = xl, xh
            while l < h:
                m_ = (l + h + 1) // 2
                if rnd(n.w, m_) <= nhi:
                    l = m_
                else:
                    h = m_ - 1
            nh = l
            if nl > nh:
                raise Infeasible()
            return env.assume_range(x, nl, nh, sg)
        if n.op == 'fpext' and nlo <= nhi:
            x = n.args[0]
            # round the bounds inward to the narrower format
            l2 = rnd(x.w, nlo)
            if l2 < nlo:
                l2 = fnext(l2, x.w)
            h2 = rnd(x.w, nhi)
            if h2 > nhi:
                h2 = fprev(h2, x.w)
            return self.frange(env, x, l2, h2, nan)
        if n.op == 'fneg' and nlo <= nhi:
            return self.frange(env, n.args[0], -nhi, -nlo, nan)
        env.b[n] = (nlo, nhi, A[2] and nan)
        env.memo = {}
        if n.op == 'a':
            return n.args[1] == 'fin'
        if n.op == 'bits2f' and n.args[0].op == 'a':
            return False
        return False

    # ------------------------------------------------------------ running
    def start(self, fname, args=()):
        st = State()
        st.env = Env()
        st.mem = {}
        st.frames = []
        st.exact = True
        st.steps = 0
        st.inputs = {}
        st.exc = None
        st.caught = []
        st.nobj = 1
        st.log = []
        st.asserts = 0
        st.tok = object()
        st.notes = {}
        st.fresh = 0
        st.inexact_why = None
        st.visits = {}
        st.thr = []
        f = self.m.fn(fname)
        self.push(st, f, list(args), None)
        return st

    def push(self, st, f, args, call):
        if len(st.frames) > self.o['max_depth']:
            raise GiveUp('call depth')
        if f.blocks is None and not f.isdecl:
            f = self.m.fn(f.name)
        fr = Frame()
        fr.fn = f
        fr.env = {}
        for (nm, ty, at), v in zip(f.params, args):
            # byval copies
            bv = [x for x in at if isinstance(x, tuple) and x[0] == 'byval']
            if bv:
                import irparse
                bt = irparse.P(list(bv[0][1]), self.m).ty()
                n = self.m.size(bt)
                o = self.new_obj(st, n, 'byval')
                self.memcpy(st, C(64, o.base), v, C(64, n))
                v = C(64, o.base)
            fr.env[nm] = v
        fr.blk = f.order[0]
        fr.idx = 0
        fr.prev = None
        fr.call = call
        fr.allocas = []
        fr.ins = f.blocks[fr.blk]
        st.frames.append(fr)
        self.called.add(f.name)

    def run(self, fname, args=()):
        """explore all traces; returns list of outcomes (kind, msg, state)"""
        work = [self.start(fname, args)]
        out = []
        ntr = 0
        while work:
            st = work.pop()
            r = self.run_trace(st, work)
            if r is not None:
                ntr += 1
                self.stats['traces'] += 1
                out.append(r)
                if self.o.get('deadline') and time.time() > self.o['deadline']:
                    out.append(('unknown', 'time budget exhausted', st))
                    break
                if ntr > self.o['max_traces']:
                    out.append(('unknown', 'trace budget exhausted', st))
                    break
        return out

    def run_trace(self, st, work):
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.ins[fr.idx]
                st.steps += 1
                if st.steps > self.o['max_steps']:
                    return ('unknown', 'step budget exhausted', st)
                if not st.steps & 4095 and self.o.get('deadline') and time.time() > self.o['deadline']:
                    return ('unknown', 'time budget exhausted', st)
                try:
                    r = self.step(st, fr, ins, work)
                except Fork as f:
                    self.stats['forks'] += 1
                    for alt in f.alts:
                        s2 = st.fork()
                        try:
                            alt(s2)
                        except Infeasible:
                            continue
                        work.append(s2)
                    return None
                if self.extra:
                    work.extend(self.extra)
                    self.extra = []
                if r is not None:
                    self.stats['steps'] += st.steps
                    return r
        except Infeasible:
            return None
        except Fault as e:
            return ('fault', e.msg, st)
        except GiveUp as e:
            return ('unknown', str(e), st)

    def where(self, st):
        out = []
        for fr in reversed(st.frames):
            ins = fr.ins[min(fr.idx, len(fr.ins) - 1)]
            l = self.m.loc(ins.dbg)
            out.append('%s at %s:%s' % (fr.fn.name, l[0], l[1]) if l else fr.fn.name)
        return out

    def goto(self, st, fr, lab):
        fr.prev = fr.blk
        fr.blk = lab
        fr.ins = fr.fn.blocks[lab]
        fr.idx = 0
        key = (len(st.frames), fr.fn.name, lab)
        v = st.visits.get(key, 0) + 1
        st.visits[key] = v
        if v > self.o['loop_limit']:
            raise GiveUp('loop limit in %s %s' % (fr.fn.name, lab))
        # phis evaluated simultaneously
        vals = []
        i = 0
        for ins in fr.ins:
            if ins.op != 'phi':
                break
            for l, v in ins.a[1]:
                if l == fr.prev:
                    vals.append((ins.res, self.opv(st, ins.a[0], v)))
                    break
            else:
                raise GiveUp('phi')
            i += 1
        for r, v in vals:
            fr.env[r] = v
        fr.idx = i

    def decide(self, st, c):
        """truth value of an i1 node or None"""
        if c.op == 'c':
            return c.args[0]
        if c.op == 'icmp':
            p, a, b = c.args
            r = self._icmp(st.env, p, a, b)
            if r.op == 'c':
                return r.args[0]
            a = st.env.av(c)
            return a[0] if a[0] == a[1] else None
        if c.op == 'fcmp':
            p, a, b = c.args
            r = self.fcmp(st, p, a, b)
            if r.op == 'c':
                return r.args[0]
            return None
        if c.op == 'not':
            r = self.decide(st, c.args[0])
            return None if r is None else 1 - r
        if c.op in ('and', 'or') and c.w == 1:
            a, b = self.decide(st, c.args[0]), self.decide(st, c.args[1])
            if c.op == 'and':
                if a == 0 or b == 0:
                    return 0
                return 1 if a == 1 and b == 1 else None
            if a == 1 or b == 1:
                return 1
            return 0 if a == 0 and b == 0 else None
        a = st.env.av(c)
        return a[0] if a[0] == a[1] else None

    def neg_splits(self, st, c, t):
        """alternatives for assuming c==t; splits x != k into x<k and x>k when that is exact"""
        n = c
        tt = t
        while n.op == 'not':
            n = n.args[0]
            tt = 1 - tt
        if n.op == 'icmp' and n.args[0] == 'eq' and tt == 0 and isc(n.args[2]):
            a, k = n.args[1], n.args[2].args[0]
            A = st.env.av(a)
            if A[0] < k < A[1] and rooted(a) and (A[2] > s64(k, a.w) or A[3] < s64(k, a.w) or A[2] < s64(k, a.w) < A[3]):
                w = a.w
                sg = A[1] - A[0] > A[3] - A[2]

                def lo(s):
                    self.assume_rng(s, a, sg, None, k, n)

                def hi(s):
                    self.assume_rng(s, a, sg, k, None, n)
                return [lo, hi]
        if n.op in ('and', 'or') and n.w == 1 and (n.op == 'and') == (tt == 0):
            # !(x && y)  ->  !x | (x && !y): exact trace split
            x, y = n.args
            v = 0 if n.op == 'and' else 1
            return [lambda s: self.assume(s, x, v), lambda s: (self.assume(s, x, 1 - v), self.assume(s, y, v))]
        return [lambda s: self.assume(s, c, t)]

    def assume_rng(self, s, a, sg, lo, hi, n):
        w = a.w
        H = 1 << (w - 1)
        if sg:
            l = -H if lo is None else s64(lo, w) + 1
            h = H - 1 if hi is None else s64(hi, w) - 1
        else:
            l = 0 if lo is None else lo + 1
            h = (1 << w) - 1 if hi is None else hi - 1
        setex(s, s.env.assume_range(a, l, h, sg), 'ne split')
        s.env.truth[n] = 0
        s.env.memo = {}

    def branch(self, st, fr, c, work, ft, ff):
        """ft/ff: callables(state) performing the continuation"""
        r = self.decide(st, c)
        if r is not None:
            (ft if r else ff)(st)
            return None
        self.stats['forks'] += 1
        alts = [(alt, ft) for alt in self.neg_splits(st, c, 1)] + [(alt, ff) for alt in self.neg_splits(st, c, 0)]
        live = []
        for alt, cont in alts:
            s2 = st.fork()
            try:
                alt(s2)
            except Infeasible:
                continue
            live.append((s2, cont))
        if len(live) == 1 and not live[0][0].exact and st.exact:
            # only one side is feasible: nothing was assumed
            live[0][0].exact = True
        for s2, cont in live:
            try:
                cont(s2)
            except Infeasible:
                continue
            work.append(s2)
        return 'forked'

    def switchpoint(self, st, ins):
        """before an access to a watched location any other runnable thread may go first"""
        if st.notes.get('skip'):
            st.notes['skip'] = False
            return
        w = st.notes.get('watch')
        p = self.opv(st, PTR, ins.a[SHAREDOP[ins.op]])
        if not w or p.op != 'c' or not any(lo <= p.args[0] < hi for lo, hi in w):
            return

        def stay(s):
            s.notes['skip'] = True
        raise Fork([stay] + [self.mkswitch(i, True) for i, t in enumerate(st.thr) if not self.joining(t[1])])

    def joining(self, frames):
        ins = frames[-1].ins[frames[-1].idx]
        return ins.op in ('call', 'invoke') and ins.a[1] == ('g', '@vp_join')

    def mkswitch(self, i, pending):
        def f(s):
            t = s.thr.pop(i)
            if s.frames:
                s.thr.append((s.notes.get('tid', 0), s.frames, s.exc, s.caught, pending))
            s.notes['tid'], s.frames, s.exc, s.caught, s.notes['skip'] = t
            s.tok = object()
        return f

    def step(self, st, fr, ins, work):
        op = ins.op
        a = ins.a
        E = fr.env
        if st.thr and op in SHAREDOP:
            self.switchpoint(st, ins)
        if op in BIN:
            E[ins.res] = self.binop(st, op, a[0], self.opv(st, a[0], a[1]), self.opv(st, a[0], a[2]), a[3])
        elif op == 'load':
            E[ins.res] = self.tload(st, a[0], self.opv(st, PTR, a[1]))
        elif op == 'store':
            v = self.opv(st, a[0], a[1])
            if a[3]:
                self.atomic = True
                try:
                    self.tstore(st, a[0], self.opv(st, PTR, a[2]), v)
                finally:
                    self.atomic = False
            else:
                self.tstore(st, a[0], self.opv(st, PTR, a[2]), v)
        elif op == 'getelementptr':
            if a[3][0] == 'vec':
                raise GiveUp('vector gep')
            idx = [(t, self.opv(st, t, v)) for t, v in a[2]]
            E[ins.res] = self.gep(st, a[0], self.opv(st, PTR, a[1]), idx)
        elif op == 'icmp':
            E[ins.res] = self.icmp(st, a[0], self.opv(st, a[1], a[2]), self.opv(st, a[1], a[3]))
        elif op == 'fcmp':
            E[ins.res] = self.fcmp(st, a[0], self.opv(st, a[1], a[2]), self.opv(st, a[1], a[3]))
        elif op in CASTS:
            E[ins.res] = self.cast(st, op, a[0], self.opv(st, a[0], a[1]), a[2])
        elif op == 'br':
            if a[0] is None:
                self.goto(st, fr, a[1])
                return None
            c = self.opv(st, ('i', 1), a[0])
            r = self.decide(st, c)
            if r is not None:
                self.goto(st, fr, a[1] if r else a[2])
                return None
            self.branch(st, fr, c, work, lambda s: self.goto(s, s.frames[-1], a[1]), lambda s: self.goto(s, s.frames[-1], a[2]))
            raise Infeasible()  # this state was replaced by its successors
        elif op == 'switch':
            v = self.opv(st, a[0], a[1])
            A = st.env.av(v)
            w = v.w
            M = (1 << w) - 1
            if A[0] == A[1]:
                for k, l in a[3]:
                    if k & M == A[0]:
                        self.goto(st, fr, l)
                        return None
                self.goto(st, fr, a[2])
                return None
            self.stats['forks'] += 1
            ks = sorted(k & M for k, l in a[3])
            for k, l in a[3]:
                s2 = st.fork()
                try:
                    setex(s2, s2.env.assume_eq(v, k & M), 'switch')
                    self.goto(s2, s2.frames[-1], l)
                except Infeasible:
                    continue
                work.append(s2)
            if rooted(v):
                gaps = []
                p = 0
                for k in ks:
                    if p <= k - 1:
                        gaps.append((p, k - 1))
                    p = k + 1
                if p <= M:
                    gaps.append((p, M))
                for lo, hi in gaps:
                    s2 = st.fork()
                    try:
                        setex(s2, s2.env.assume_range(v, lo, hi, False), 'switch gap')
                        self.goto(s2, s2.frames[-1], a[2])
                    except Infeasible:
                        continue
                    work.append(s2)
            else:
                s2 = st.fork()
                try:
                    for k in ks:
                        c = self._icmp(s2.env, 'eq', v, C(w, k))
                        self.assume(s2, c, 0)
                    full = A[1] - A[0] + 1 <= len(ks) and all(x in ks for x in range(A[0], A[1] + 1))
                    if not full:
                        self.goto(s2, s2.frames[-1], a[2])
                        work.append(s2)
                except Infeasible:
                    pass
            raise Infeasible()
        elif op in ('call', 'invoke'):
            return self.call(st, fr, ins, work)
        elif op == 'ret':
            v = None if a[1] is None else self.opv(st, a[0], a[1])
            return self.ret(st, v)
        elif op == 'select':
            c = self.opv(st, a[0], a[1])
            x = self.opv(st, a[2], a[3])
            y = self.opv(st, a[2], a[4])
            if isinstance(c, Vec):
                r = []
                for ci, xi, yi in zip(c, x, y):
                    d = self.decide(st, ci)
                    if d is None:
                        raise Fork([lambda s, ci=ci: self.assume(s, ci, 1), lambda s, ci=ci: self.assume(s, ci, 0)])
                    r.append(xi if d else yi)
                E[ins.res] = Vec(r)
            else:
                d = self.decide(st, c)
                if d is None:
                    if isinstance(x, Node) and x.w == 1 and not isf(x):
                        if isc(y) and y.args[0] == 0:
                            E[ins.res] = self.binop(st, 'and', a[2], c, x, ())
                            fr.idx += 1
                            return None
                        if isc(x) and x.args[0] == 1:
                            E[ins.res] = self.binop(st, 'or', a[2], c, y, ())
                            fr.idx += 1
                            return None
                    if x is y:
                        E[ins.res] = x
                    else:
                        alts = self.neg_splits(st, c, 1)
                        alts = [mkset(alt, x, ins.res) for alt in alts] + [mkset(alt, y, ins.res) for alt in self.neg_splits(st, c, 0)]
                        raise Fork(alts)
                else:
                    E[ins.res] = x if d else y
        elif op == 'alloca':
            n = self.opv(st, a[1], a[2])
            if not isc(n):
                raise GiveUp('variable alloca')
            o = self.new_obj(st, self.m.size(a[0]) * n.args[0], 'alloca', name='%s%s' % (fr.fn.name[:40], ins.res))
            E[ins.res] = C(64, o.base)
            fr.allocas.append(o.base)
        elif op == 'extractvalue':
            v = self.opv(st, a[0], a[1])
            for i in a[2]:
                v = v[i]
            E[ins.res] = v
        elif op == 'insertvalue':
            v = self.opv(st, a[0], a[1])
            e = self.opv(st, a[2], a[3])
            E[ins.res] = insval(v, a[4], e)
        elif op == 'extractelement':
            v = self.opv(st, a[0], a[1])
            i = self.opv(st, a[2], a[3])
            E[ins.res] = v[i.args[0]]
        elif op == 'insertelement':
            v = Vec(self.opv(st, a[0], a[1]))
            i = self.opv(st, a[4], a[5])
            v[i.args[0]] = self.opv(st, a[2], a[3])
            E[ins.res] = v
        elif op == 'shufflevector':
            x = self.opv(st, a[0], a[1])
            y = self.opv(st, a[0], a[2])
            mv = self.opv(st, a[3], a[4])
            xy = list(x) + list(y)
            E[ins.res] = Vec([xy[i.args[0]] if isc(i) else xy[0] for i in mv])
        elif op == 'freeze':
            E[ins.res] = self.opv(st, a[0], a[1])
        elif op == 'fneg':
            v = self.opv(st, a[0], a[1])
            if isinstance(v, Vec):
                raise GiveUp('fneg vec')
            E[ins.res] = FC(v.w, -fval(v)) if v.op == 'fc' else v.args[0] if v.op == 'fneg' else mk('fneg', v.w, (v,))
        elif op == 'unreachable':
            return ('unreachable', 'reached unreachable', st)
        elif op == 'landingpad':
            raise GiveUp('landingpad reached normally')
        elif op == 'resume':
            v = self.opv(st, a[0], a[1])
            return self.unwind(st, pop=True)
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            p = self.opv(st, PTR, a[2])
            old = self.tload(st, a[1], p)
            v = self.opv(st, a[1], a[3])
            o = a[0]
            if o == 'xchg':
                nv = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.binop(st, o, a[1], old, v, ())
            else:
                raise GiveUp('atomicrmw ' + o)
            self.atomic = True
            try:
                self.tstore(st, a[1], p, nv)
            finally:
                self.atomic = False
            E[ins.res] = old
        elif op == 'cmpxchg':
            p = self.opv(st, PTR, a[1])
            old = self.tload(st, a[0], p)
            e = self.opv(st, a[0], a[2])
            n = self.opv(st, a[0], a[3])
            c = self.icmp(st, 'eq', old, e)
            d = self.decide(st, c)
            if d is None:
                raise Fork([lambda s: self.assume(s, c, 1), lambda s: self.assume(s, c, 0)])
            if d:
                self.atomic = True
                try:
                    self.tstore(st, a[0], p, n)
                finally:
                    self.atomic = False
            E[ins.res] = (old, C(1, d))
        else:
            raise GiveUp('instruction ' + op)
        fr.idx += 1
        return None

    # ------------------------------------------------------------ calls
    def ret(self, st, v):
        fr = st.frames.pop()
        for b in fr.allocas:
            i = (b - BASE) >> SP
            o = st.mem.get(i)
            if o is not None:
                st.mem.pop(i, None)
        if not st.frames:
            if st.thr:
                return self.resume(st)
            return ('return', v, st)
        self.finish(st, fr.call, v)
        return None

    def resume(self, st):
        """the running thread is over or waits: any other one goes on"""
        ready = [i for i, t in enumerate(st.thr) if not self.joining(t[1])] or [0]
        if len(ready) > 1:
            # no frame is left to re-execute: continue with each choice in turn
            for i in ready[1:]:
                s2 = st.fork()
                self.mkswitch(i, False)(s2)
                self.extra.append(s2)
        self.mkswitch(ready[0], False)(st)
        return None

    def finish(self, st, ins, v):
        """complete call instruction `ins` in the top frame with result v"""
        fr = st.frames[-1]
        if ins.res is not None:
            fr.env[ins.res] = v
        if ins.op == 'invoke':
            self.goto(st, fr, ins.a[4])
        else:
            fr.idx += 1

    def throw(self, st, ti, obj):
        st.exc = (ti, obj)
        return self.unwind(st, pop=False)

    def unwind(self, st, pop):
        """propagate st.exc.  pop=True: the current frame is being left (resume)"""
        ti, obj = st.exc
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.ins[fr.idx]
            if not (pop and first) and ins.op == 'invoke':
                lab = ins.a[5]
                blk = fr.fn.blocks[lab]
                lp = next(x for x in blk if x.op != 'phi')
                sel = None
                for kind, v in lp.a[2]:
                    if kind == 'catch':
                        if v[0] in ('k', 'zero'):
                            sel = self.tid('')
                            break
                        if type_is(self.m, ti, v[1]):
                            sel = self.tid(v[1])
                            break
                    else:
                        lst = v[1] if v[0] == 'agg' else []
                        if not any(t[1][0] == 'g' and type_is(self.m, ti, t[1][1]) for t in lst):
                            sel = -1
                            break
                if sel is None and lp.a[1]:
                    sel = 0
                if sel is not None:
                    self.goto(st, fr, lab)
                    fr.env[lp.res] = (obj, C(32, sel))
                    fr.idx += 1
                    return None
            first = False
            # leaving a nounwind frame terminates
            if 'nounwind' in self.m.fattrs(fr.fn):
                return ('terminate', 'exception %s leaves noexcept %s' % (ti, fr.fn.name), st)
            f = st.frames.pop()
            for b in f.allocas:
                st.mem.pop((b - BASE) >> SP, None)
        return ('throw', ti, st)

    def tid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    def call(self, st, fr, ins, work):
        rty, callee, args, attrs = ins.a[:4]
        if callee[0] == 'g':
            name = callee[1]
            g = self.m.globals.get(name)
            if g is not None and name not in self.m.fns:
                g = self.m.gvar(name)
                if g['kind'] == 'alias':
                    name = g['init'][1] if g['init'][0] == 'g' else name
                elif g['kind'] == 'ifunc':
                    name = self.ifunc(name, g)
        elif callee[0] == 'asm':
            name = 'asm'
        else:
            t = self.opv(st, PTR, callee)
            if t.op == 'c':
                name = self.addrfn.get(t.args[0])
                if name is None:
                    if t.args[0] == 0:
                        raise Fault('call through null')
                    raise GiveUp('call through unknown pointer')
            else:
                raise GiveUp('indirect call')
        if name.startswith('@llvm.'):
            if name.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.experimental.noalias', '@llvm.invariant', '@llvm.donothing', '@llvm.prefetch')):
                self.finish(st, ins, None)
                return None
            vals = [None if t[0] == 'meta' else self.opv(st, t, v) for t, v, _ in args]
            return self.intrinsic(st, fr, ins, name, vals, work)
        vals = [self.opv(st, t, v) for t, v, _ in args]
        h = self.hooks.get(name)
        if h is not None:
            return h(self, st, ins, vals, work)
        x = EXT.get(name)
        if x is not None:
            return x(self, st, ins, vals, work)
        if name == 'asm' and 'xchgq %rbx,%rbx' in str(callee):
            # a request to valgrind: without it, the default (the tied operand) comes back
            self.finish(st, ins, vals[-1])
            return None
        f = self.m.fn(name) if name != 'asm' else None
        if f is None or f.isdecl:
            if name.startswith('@vp_'):
                raise GiveUp('unknown vp intrinsic ' + name)
            return self.unknown_call(st, ins, name, vals, rty)
        self.push(st, f, vals, ins)
        return None

    def ifunc(self, name, g):
        t = self.o.get('ifunc', {}).get(name)
        if t is None:
            for suf in ('_unroll', '_referential', '_SSE2'):
                f = self.m.fn(name + suf)
                if f is not None and not f.isdecl:
                    return name + suf
            raise GiveUp('ifunc ' + name)
        return t

    def unknown_call(self, st, ins, name, vals, rty):
        if re.match(r'@_ZNSt\d+[a-z_]+(error|argument|range|exception|alloc)(C|D)[012]E', name):
            self.finish(st, ins, None)
            return None
        if 'share' in st.notes and name.startswith('@_ZNSt7__cxx1112basic_string') and isinstance(vals[0], Node) and vals[0].op == 'c':
            o = self.obj(st, (vals[0].args[0] - BASE) >> SP)
            if o is not None:
                self.shared(st, o, 'change of')
        setex(st, False, 'call of unknown ' + name)
        self.stats['unknown_ext'].add(name)
        if 'noreturn' in self.m.fattrs(self.m.fns[name]) if name in self.m.fns else False:
            return ('noreturn', name, st)
        rty = self.m.res(rty)
        v = None if rty[0] == 'void' else self.undef(st, rty)
        st.notes.setdefault('unknown', []).append(name) if 'unknown' not in st.notes else None
        # havoc memory reachable through direct pointer arguments (unless constant)
        for p in vals:
            if isinstance(p, Node) and p.w == 64 and not isf(p) and p.op == 'c' and p.args[0] >= BASE:
                i = (p.args[0] - BASE) >> SP
                o = self.obj(st, i)
                if o is not None and not o.ro and o.kind in ('alloca', 'heap', 'byval'):
                    o = self.obj(st, i, True)
                    o.cells = {}
                    o.sym = []
                    st.fresh += 1
                    o.lazy = '?havoc%d' % st.fresh
        self.finish(st, ins, v)
        return None

    def intrinsic(self, st, fr, ins, name, v, work):
        base = name[6:]
        R = None
        if base.startswith(('memcpy', 'memmove')):
            if base.startswith('memcpy'):
                self.disjoint(st, v[0], v[1], v[2])
            self.memcpy(st, v[0], v[1], self.zext(st, v[2], 64))
        elif base.startswith('memset'):
            n = st.env.av(v[2])
            if n[0] != n[1]:
                if n[1] - n[0] < 40:
                    raise Fork([lambda s, k=k: setex(s, s.env.assume_eq(v[2], k)) for k in range(n[0], n[1] + 1)])
                o, off = self.resolve(st, v[0], max(1, n[0]), True)
                if 'share' in st.notes:
                    self.shared(st, o)
                offn = off if isinstance(off, Node) else C(64, off)
                o.sym.append((offn, min(n[1], 1 << 20), None))
            else:
                k = n[0]
                i = 0
                while i < k:
                    stp = 8 if k - i >= 8 else 4 if k - i >= 4 else 1
                    x = seg(tuple(segs_of(v[1])) * stp)
                    self.store(st, add(v[0], C(64, i)), stp, x)
                    i += stp
        elif base.startswith(('expect', 'launder', 'strip.invariant', 'ssa.copy', 'ptr.annotation')):
            R = v[0]
        elif base.startswith('is.constant'):
            R = C(1, 1 if isinstance(v[0], Node) and isc(v[0]) else 0)
        elif base.startswith('assume'):
            try:
                d = self.decide(st, v[0])
                if d is None:
                    self.assume(st, v[0], 1)
            except Infeasible:
                raise
        elif base.startswith('bswap'):
            w = v[0].w
            parts = []
            for i in range(w // 8):
                parts = list(slice_(v[0], 8 * i, 8)) + parts
            R = seg(tuple(parts))
        elif base.startswith(('umax', 'umin', 'smax', 'smin')):
            if isinstance(v[0], Vec):
                raise GiveUp(name)
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base[:4]]
            c = self.icmp(st, p, v[0], v[1])
            d = self.decide(st, c)
            if d is None:
                raise Fork([lambda s: self.assume(s, c, 1), lambda s: self.assume(s, c, 0)])
            R = v[0] if d else v[1]
        elif base.startswith('abs.'):
            c = self.icmp(st, 'slt', v[0], C(v[0].w, 0))
            d = self.decide(st, c)
            if d is None:
                raise Fork([lambda s: self.assume(s, c, 1), lambda s: self.assume(s, c, 0)])
            R = neg(v[0]) if d else v[0]
        elif base.startswith(('ctlz', 'cttz', 'ctpop')):
            a = st.env.av(v[0])
            w = v[0].w
            if a[0] == a[1]:
                x = a[0]
                R = C(w, w - x.bit_length() if base.startswith('ctlz') else (((x & -x).bit_length() - 1) if x else w) if base.startswith('cttz') else bin(x).count('1'))
            else:
                R = mk(base.split('.')[0], w, (v[0],))
                if base.startswith('cttz') and a[5]:
                    low = (a[5] & -a[5])
                    if a[4] & (low - 1) == low - 1:
                        R = C(w, low.bit_length() - 1)
        elif base.startswith(('fshl', 'fshr')):
            if not isc(v[2]):
                raise GiveUp(name)
            w = v[0].w
            s = v[2].args[0] % w
            cat = tuple(segs_of(v[1])) + tuple(segs_of(v[0]))  # v0:v1
            n = seg(cat)
            R = seg(slice_(n, w - s, w)) if base.startswith('fshl') else seg(slice_(n, s, w))
        elif base.startswith(('uadd.with.overflow', 'sadd.with.overflow', 'usub.with.overflow', 'ssub.with.overflow', 'umul.with.overflow', 'smul.with.overflow')):
            R = self.overflow(st, base, v)
        elif base.startswith('objectsize'):
            R = C(ins_w(ins), (1 << 64) - 1)
        elif base.startswith('eh.typeid.for'):
            nm = None
            for n_, a_ in self.gaddr.items():
                if v[0].op == 'c' and a_ == v[0].args[0]:
                    nm = n_
                    break
            R = C(32, self.tid(nm))
        elif base.startswith('fabs'):
            R = FC(v[0].w, abs(fval(v[0]))) if v[0].op == 'fc' else mk('fabs', v[0].w, (v[0],))
        elif base.startswith('x86.'):
            R = self.x86(st, base, v)
        elif base.startswith('stacksave'):
            R = C(64, 0)
        elif base.startswith(('stackrestore', 'va_start', 'va_end', 'va_copy')):
            pass
        elif base.startswith('trap'):
            return ('trap', 'trap', st)
        elif base.startswith(('is.fpclass',)):
            R = self.fpclass(st, v[0], v[1].args[0])
        elif base.startswith('vector.reduce.or') or base.startswith('vector.reduce.and'):
            R = v[0][0]
            for e in v[0][1:]:
                R = self.binop(st, 'or' if 'or' in base else 'and', ('i', e.w), R, e, ())
        elif base.startswith('threadlocal.address'):
            R = v[0]
            if st.notes.get('tid') and isc(R):
                R = C(64, self.tls(st, (R.args[0] - BASE) >> SP, st.notes['tid']))
        elif base.startswith('ptrmask'):
            R = self.binop(st, 'and', ('i', 64), v[0], v[1], ())
        elif base.startswith(('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'sqrt')):
            if v[0].op == 'fc':
                f = fval(v[0])
                k = base.split('.')[0]
                try:
                    R = FC(v[0].w, {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round, 'nearbyint': round, 'sqrt': math.sqrt,
                                    'round': lambda z: math.floor(z + 0.5)}[k](f) if f == f and not math.isinf(f) else f)
                    R = FC(v[0].w, float(fval(R)))
                except ValueError:
                    R = FC(v[0].w, math.nan)
            else:
                R = mk('fop', v[0].w, (base.split('.')[0], v[0]))
        else:
            raise GiveUp('intrinsic ' + name)
        self.finish(st, ins, R)
        return None

    def overflow(self, st, base, v):
        a, b = v
        w = a.w
        sg = base[0] == 's'
        o = base[1:4]
        r = self.binop(st, o, ('i', w), a, b, ())
        A, B = st.env.av(a), st.env.av(b)
        al, ah, bl, bh = (A[2], A[3], B[2], B[3]) if sg else (A[0], A[1], B[0], B[1])
        if o == 'add':
            L, U = al + bl, ah + bh
        elif o == 'sub':
            L, U = al - bh, ah - bl
        else:
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            L, U = min(ps), max(ps)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if L >= lo and U <= hi:
            f = C(1, 0)
        elif U < lo or L > hi:
            f = C(1, 1)
        elif not sg and o == 'sub':
            f = self.icmp(st, 'ult', a, b)
        else:
            f = self.unknown(st, 1, 'ovf')
        return (r, f)

    def x86(self, st, base, v):
        if 'rdtsc' in base:
            return C(64, 0x0123456789ABCDEF)
        if 'pmovmskb' in base or 'movmsk' in base:
            x = v[0]
            bits = []
            for e in x:
                e = tobits(e)
                bits.extend(slice_(e, e.w - 1, 1))
            r = seg(tuple(bits))
            return zext_raw(r, 32) if r.w < 32 else r
        if 'packsswb' in base or 'packuswb' in base:
            raise GiveUp(base)
        raise GiveUp('intrinsic ' + base)


def mkset(alt, x, res):
    def f(s):
        alt(s)
        fr = s.frames[-1]
        fr.env[res] = x
        fr.idx += 1
    return f


def ins_w(ins):
    t = ins.a[0]
    return t[1]


def insval(v, ix, e):
    l = list(v)
    if len(ix) == 1:
        l[ix[0]] = e
    else:
        l[ix[0]] = insval(l[ix[0]], ix[1:], e)
    return tuple(l)


def x_val(n, signed):
    return s64(n.args[0], n.w) if signed else n.args[0]


def rooted(n):
    """the node is an invertible view of a single input atom"""
    while True:
        if n.op == 'a':
            return n.args[1] == 'in'
        if n.op == 'sext':
            n = n.args[0]
        elif n.op == 'seg' and len(n.args) == 2 and n.args[0][0] is not None and n.args[0][1] == 0 and n.args[0][2] == n.args[0][0].w and n.args[1][0] is None:
            n = n.args[0][0]
        elif n.op == 'lin' and len(n.args[1]) == 1 and n.args[1][0][1] in (1, (1 << n.w) - 1):
            n = n.args[1][0][0]
        else:
            return False


def setex(st, ok, why=''):
    if not ok and st.exact:
        st.exact = False
        st.inexact_why = why


def fnext(x, w):
    if w == 64:
        return math.nextafter(x, INF)
    return f32next(x, 1)


def fprev(x, w):
    if w == 64:
        return math.nextafter(x, -INF)
    return f32next(x, -1)


def f32next(x, d):
    if math.isinf(x):
        if (x > 0) == (d > 0):
            return x
        return math.copysign(3.4028234663852886e38, x)
    b = f2i(32, x)
    if x == 0:
        return i2f(32, 1) * d
    if (x > 0) == (d > 0):
        b += 1
    else:
        b -= 1
    return i2f(32, b)


def bnot(n):
    if n.op == 'c':
        return C(1, 1 - n.args[0])
    if n.op == 'not':
        return n.args[0]
    return mk('not', 1, (n,))


def tobits(n):
    if isinstance(n, Vec):
        p = []
        for x in n:
            p.extend(segs_of(tobits(x)))
        return seg(tuple(p))
    if not isf(n):
        return n
    if n.op == 'fc':
        return C(n.w, f2i(n.w, fval(n)))
    if n.op == 'bits2f':
        return n.args[0]
    return mk('f2bits', n.w, (n,))


def tofloat(n):
    if isf(n):
        return n
    if n.op == 'c':
        return FC(n.w, i2f(n.w, n.args[0]))
    if n.op == 'f2bits':
        return n.args[0]
    return mk('bits2f', n.w, (n,))


def cum(l):
    o = []
    p = 0
    for _, _, k in l:
        p += k
        o.append(p)
    return o


def maskseg(a, m):
    w = a.w
    out = []
    p = 0
    while p < w:
        b = (m >> p) & 1
        q = p
        while q < w and (m >> q) & 1 == b:
            q += 1
        if b:
            out.extend(slice_(a, p, q - p))
        else:
            out.append((None, 0, q - p))
        p = q
    return seg(tuple(out))


def orseg(a, m):
    w = a.w
    out = []
    p = 0
    while p < w:
        b = (m >> p) & 1
        q = p
        while q < w and (m >> q) & 1 == b:
            q += 1
        if b:
            out.append((None, (1 << (q - p)) - 1, q - p))
        else:
            out.extend(slice_(a, p, q - p))
        p = q
    return seg(tuple(out))


def cfold(env, n):
    """replace the parts of a segment form which the state knows to be constant"""
    if n.op != 'seg':
        return n
    out = []
    ch = False
    for s, l, k in n.args:
        if s is not None:
            v = env.av(s)
            kz, ko = v[4] >> l, v[5] >> l
            kn = (kz | ko) & ((1 << k) - 1)
            top = 0
            while top < k and (kn >> (k - 1 - top)) & 1:
                top += 1
            if top:
                ch = True
                out.append((s, l, k - top))
                out.append((None, (ko >> (k - top)) & ((1 << top) - 1), top))
                continue
        out.append((s, l, k))
    return seg(tuple(out)) if ch else n


def merge_disjoint(a, b):
    """a | b where in every bit position one of them is constant 0 by form"""
    if a.op not in ('seg', 'c') or b.op not in ('seg', 'c'):
        return None
    cuts = sorted(set(cum(segs_of(a)) + cum(segs_of(b))))
    out = []
    p = 0
    for c in cuts:
        x = slice_(a, p, c - p)
        y = slice_(b, p, c - p)
        if len(x) == 1 and x[0][0] is None and x[0][1] == 0:
            out.extend(y)
        elif len(y) == 1 and y[0][0] is None and y[0][1] == 0:
            out.extend(x)
        elif len(x) == 1 and len(y) == 1 and x[0][0] is None and y[0][0] is None:
            if x[0][1] & y[0][1]:
                return None
            out.append((None, x[0][1] | y[0][1], c - p))
        else:
            return None
        p = c
    return seg(tuple(out))


def merge_kb(a, b, A, B):
    """disjointness by known bits"""
    w = a.w
    out = []
    p = 0
    while p < w:
        za = (A[4] >> p) & 1
        q = p
        while q < w and ((A[4] >> q) & 1) == za:
            q += 1
        out.extend(slice_(b if za else a, p, q - p))
        p = q
    return seg(tuple(out))


M64 = (1 << 64) - 1
PTR = ('ptr',)
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT['@' + n] = f
        return f
    return d


def cstr(I, st, p):
    o, off = I.resolve(st, p, 1, False)
    s = bytearray()
    while True:
        c = tobits(I.oload(st, o, off, 1))
        if not isc(c) or c.args[0] == 0:
            break
        s.append(c.args[0])
        off += 1
    return s.decode('latin1')


def fresh_name(st, name):
    """every call introduces an input of its own"""
    if name in st.inputs:
        k = 2
        while '%s (%d)' % (name, k) in st.inputs:
            k += 1
        name = '%s (%d)' % (name, k)
    return name


@ext('vp_u', 'vp_i')
def _vp_int(I, st, ins, v, work):
    name = fresh_name(st, cstr(I, st, v[0]))
    signed = ins.a[1][1] == '@vp_i'
    lo, hi = v[1].args[0], v[2].args[0]
    if signed:
        lo, hi = s64(lo, 64), s64(hi, 64)
    pl, ph = I.pins.get(name, (lo, hi))
    lo, hi = max(lo, pl), min(hi, ph)
    if lo > hi:
        raise Infeasible()
    if lo == hi:
        n = C(64, lo)
    else:
        # choose the narrowest natural width so that the value is an unconstrained atom where possible
        n = None
        for w in (1, 8, 16, 32):
            if not signed and lo >= 0 and hi < (1 << w):
                a = atom(w, name)
                n = I.zext(st, a, 64)
                if (lo, hi) != (0, (1 << w) - 1):
                    st.env.assume_range(a, lo, hi, False)
                break
            if signed and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                a = atom(w, name)
                if (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1):
                    st.env.assume_range(a, lo, hi, True)
                n = I.sext(st, a, 64)
                break
        if n is None:
            n = atom(64, name)
            if signed and (lo, hi) != (-(1 << 63), (1 << 63) - 1):
                st.env.assume_range(n, lo, hi, True)
            elif not signed and (lo, hi) != (0, M64):
                st.env.assume_range(n, lo, hi, False)
    st.inputs[name] = ('i' if signed else 'u', lo, hi)
    I.finish(st, ins, n)


@ext('vp_f')
def _vp_f(I, st, ins, v, work):
    name = fresh_name(st, cstr(I, st, v[0]))
    lo, hi = fval(v[1]), fval(v[2])
    if name in I.pins:
        pl, ph = I.pins[name]
        lo, hi = max(lo, pl), min(hi, ph)
        if lo > hi:
            raise Infeasible()
    st.inputs[name] = ('f', lo, hi)
    if lo == hi:
        n = FC(64, lo)
    else:
        n = mk('a', 64, (name, 'fin'))
        st.env.b[n] = (lo, hi, False)
        st.env.memo = {}
    I.finish(st, ins, n)


@ext('vp_f32')
def _vp_f32(I, st, ins, v, work):
    name = fresh_name(st, cstr(I, st, v[0]))
    lo, hi = fval(v[1]), fval(v[2])
    if name in I.pins:
        pl, ph = I.pins[name]
        lo, hi = max(lo, pl), min(hi, ph)
        if lo > hi:
            raise Infeasible()
    st.inputs[name] = ('f', lo, hi)
    if lo == hi:
        n = FC(32, lo)
    else:
        n = mk('a', 32, (name, 'fin'))
        st.env.b[n] = (lo, hi, False)
        st.env.memo = {}
    I.finish(st, ins, n)


@ext('vp_enum')
def _vp_enum(I, st, ins, v, work):
    """enumerate lo..hi, one trace each"""
    name = fresh_name(st, cstr(I, st, v[0]))
    lo, hi = s64(v[1].args[0], 64), s64(v[2].args[0], 64)
    pl, ph = I.pins.get(name, (lo, hi))

    def mkalt(k):
        def f(s):
            s.inputs[name] = ('e', k, k)
            I.finish(s, ins, C(64, k))
        return f
    raise Fork([mkalt(k) for k in range(max(lo, pl), min(hi, ph) + 1)])


@ext('vp_cells_u', 'vp_cells_i')
def _vp_cells(I, st, ins, v, work):
    """vp_cells(x, pts, n): partition the trace on x by the sorted points: {p} and the open gaps"""
    signed = ins.a[1][1] == '@vp_cells_i'
    x, p, n = v
    pts = []
    for i in range(n.args[0]):
        k = I.tload(st, ('i', 64), add(p, C(64, 8 * i))).args[0]
        pts.append(s64(k, 64) if signed else k)
    pts = sorted(set(pts))
    lo = -(1 << 63) if signed else 0
    hi = (1 << 63) - 1 if signed else M64
    cells = []
    q = lo
    for k in pts:
        if q <= k - 1:
            cells.append((q, k - 1))
        cells.append((k, k))
        q = k + 1
    if q <= hi:
        cells.append((q, hi))
    A = st.env.av(x)
    al, ah = (A[2], A[3]) if signed else (A[0], A[1])

    def mkalt(l, h):
        def f(s):
            setex(s, s.env.assume_range(x, l, h, signed), 'cells')
            I.finish(s, ins, None)
        return f
    raise Fork([mkalt(l, h) for l, h in cells if h >= al and l <= ah])


@ext('vp_fcells')
def _vp_fcells(I, st, ins, v, work):
    x, p, n = v
    pts = sorted(set(fval(I.tload(st, ('f', 64), add(p, C(64, 8 * i)))) for i in range(n.args[0])))
    cells = []
    q = -INF
    for k in pts:
        if q <= math.nextafter(k, -INF):
            cells.append((q, math.nextafter(k, -INF)))
        cells.append((k, k))
        q = math.nextafter(k, INF)
    cells.append((q, INF))
    lo, hi, nan = st.env.fv(x)

    def mkalt(l, h):
        def f(s):
            setex(s, I.frange(s.env, x, l, h, False), 'fcells')
            I.finish(s, ins, None)
        return f
    raise Fork([mkalt(l, h) for l, h in cells if h >= lo and l <= hi])


@ext('vp_bytes')
def _vp_bytes(I, st, ins, v, work):
    """vp_bytes(p, n, name): the n bytes at p become arbitrary (lazily named) inputs"""
    name = fresh_name(st, cstr(I, st, v[2]))
    st.inputs[name] = ('b', 0, 0)
    o, off = I.resolve(st, v[0], v[1].args[0], True)
    n = v[1].args[0]
    if off == 0 and n == o.size:
        o.cells = {}
        o.lazy = name
    else:
        for k in list(o.cells):
            if off <= k < off + n:
                del o.cells[k]
        if o.lazy is None:
            for i in range(0, n):
                o.cells[off + i] = (1, atom(8, '%s[%d:1]' % (name, i)) if I.point is None else C(8, I.pointbyte(name, i)))
    I.finish(st, ins, None)


@ext('vp_alloc')
def _vp_alloc(I, st, ins, v, work):
    """vp_alloc(size, misalign, name): fresh object of arbitrary content"""
    name = fresh_name(st, cstr(I, st, v[2]))
    st.inputs[name] = ('b', 0, 0)
    lo, hi = st.env.av(v[0])[:2]
    if lo != hi:
        raise GiveUp('vp_alloc of unknown size')
    o = I.new_obj(st, lo, 'heap', name=name, align=v[1].args[0], lazy=name)
    I.finish(st, ins, C(64, o.base))


@ext('vp_assume')
def _vp_assume(I, st, ins, v, work):
    c = v[0]
    d = I.decide(st, c)
    if d == 0:
        raise Infeasible()
    if d is None:
        alts = I.neg_splits(st, c, 1)

        def mk1(alt):
            def f(s):
                alt(s)
                I.finish(s, ins, None)
            return f
        raise Fork([mk1(x) for x in alts])
    I.finish(st, ins, None)


@ext('vp_assert')
def _vp_assert(I, st, ins, v, work):
    c = v[0]
    d = I.decide(st, c)
    if d == 1:
        I.stats['asserts_proved'] += 1
        st.asserts += 1
        I.finish(st, ins, None)
        return None
    msg = cstr(I, st, v[1])
    if d == 0:
        return ('fail' if st.exact else 'mayfail', msg, st)
    # undecided: does a refinement to "false" exist?
    alts = I.neg_splits(st, c, 0)
    may = False
    for alt in alts:
        s2 = st.fork()
        try:
            alt(s2)
            if s2.exact:
                return ('fail', msg + ' [%s]' % show(c), s2)
            may = True
        except Infeasible:
            continue
    if not may:
        I.stats['asserts_proved'] += 1
        st.asserts += 1
        I.finish(st, ins, None)
        return None
    st.notes['undecided'] = show(c)
    return ('mayfail', msg + ' [undecided %s]' % show(c), st)


@ext('vp_fail')
def _vp_fail(I, st, ins, v, work):
    return ('fail' if st.exact else 'mayfail', cstr(I, st, v[0]), st)


@ext('vp_reach')
def _vp_reach(I, st, ins, v, work):
    k = cstr(I, st, v[0])
    st.log.append(k)
    I.stats.setdefault('reach', {})
    I.stats['reach'][k] = I.stats['reach'].get(k, 0) + 1
    I.finish(st, ins, None)


@ext('vp_same')
def _vp_same(I, st, ins, v, work):
    """true iff canonical forms coincide (used as an exact equality where == is undecided)"""
    r = I.icmp(st, 'eq', v[0], v[1])
    d = I.decide(st, r)
    I.finish(st, ins, C(1, 1 if d == 1 else 0) if d is not None else r)


@ext('vp_isheap')
def _vp_isheap(I, st, ins, v, work):
    I.finish(st, ins, C(1, 0))


@ext('vp_opaque')
def _vp_opaque(I, st, ins, v, work):
    I.finish(st, ins, v[0])


@ext('vp_dump')
def _vp_dump(I, st, ins, v, work):
    if I.o.get('verbose'):
        print('DUMP', cstr(I, st, v[0]), v[1], st.env.av(v[1])[:4] if not isf(v[1]) else st.env.fv(v[1]), st.exact, st.inexact_why)
    I.finish(st, ins, None)


@ext('vp_alive')
def _vp_alive(I, st, ins, v, work):
    o = I.obj(st, (v[0].args[0] - BASE) >> SP) if isc(v[0]) else None
    I.finish(st, ins, C(1, 1 if o is not None and o.alive else 0))


@ext('vp_heap')
def _vp_heap(I, st, ins, v, work):
    I.finish(st, ins, C(64, st.notes.get('allocs', 0) - st.notes.get('frees', 0)))


@ext('vp_share')
def _vp_share(I, st, ins, v, work):
    """from here on everything that exists is shared with other readers"""
    st.notes['share'] = st.nobj
    I.finish(st, ins, None)


@ext('vp_watch')
def _vp_watch(I, st, ins, v, work):
    st.notes['watch'] = st.notes.get('watch', ()) + ((v[0].args[0], v[0].args[0] + v[1].args[0]),)
    I.finish(st, ins, None)


@ext('vp_thread')
def _vp_thread(I, st, ins, v, work):
    f = I.m.fn(I.addrfn[v[0].args[0]])
    I.finish(st, ins, None)
    k = st.notes.get('threads', 0) + 1
    st.notes['threads'] = k
    mine, st.frames = st.frames, []
    I.push(st, f, [v[1]], None)
    st.thr = st.thr + [(k, st.frames, None, [], False)]
    st.frames = mine


@ext('vp_join')
def _vp_join(I, st, ins, v, work):
    if not st.thr:
        I.finish(st, ins, None)
        return None
    return I.resume(st)


@ext('vp_clock')
def _vp_clock(I, st, ins, v, work):
    """vp_clock(id, seconds, nanoseconds, resolution): what the clock will say (resolution 0: no such clock)"""
    st.notes['clock%d' % v[0].args[0]] = (v[1], v[2], v[3])
    I.finish(st, ins, None)


@ext('clock_gettime', 'clock_getres')
def _clock(I, st, ins, v, work):
    a = st.env.av(v[0])
    if a[0] != a[1]:
        raise GiveUp('unknown clock')
    c = st.notes.get('clock%d' % a[0])
    if c is None:
        I.finish(st, ins, C(32, 0xffffffff))
        return None
    if ins.a[1][1] == '@clock_getres':
        r = st.env.av(c[2])
        if r[0] != r[1]:
            raise GiveUp('unknown resolution')
        I.store(st, v[1], 8, C(64, r[0] // 1000000000))
        I.store(st, add(v[1], C(64, 8)), 8, C(64, r[0] % 1000000000))
    else:
        I.store(st, v[1], 8, c[0])
        I.store(st, add(v[1], C(64, 8)), 8, c[1])
    I.finish(st, ins, C(32, 0))


@ext('vp_ctor')
def _vp_ctor(I, st, ins, v, work):
    """run the n-th of the load-time initialisers defined in the given source file; tells if there was one"""
    want = cstr(I, st, v[0])
    n = st.env.av(v[1])[0]
    g = I.m.gvar('@llvm.global_ctors')
    for ty, e in (g['init'][1] if g and g['init'] and g['init'][0] == 'agg' else []):
        f = e[1][1][1] if e[0] == 'agg' else None
        if not f or f[0] != 'g':
            continue
        fn = I.m.fn(f[1])
        locs = [I.m.loc(i.dbg) for b in fn.blocks.values() for i in b]
        if f[1].endswith(want) or any(l and str(l[0]).endswith('/' + want) for l in locs):
            if n == 0:
                I.push(st, fn, [], ins)
                return None
            n -= 1
    I.finish(st, ins, None)


@ext('vp_nomem')
def _vp_nomem(I, st, ins, v, work):
    """from here on allocations fail (1) or succeed (0)"""
    st.notes['nomem'] = st.env.av(v[0])[1]
    I.finish(st, ins, None)


@ext('malloc', '_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def _malloc(I, st, ins, v, work):
    n = v[0]
    if st.notes.get('nomem'):
        callee = ins.a[1][1] if ins.a[1][0] == 'g' else ''
        if callee.startswith('@_Zn') and 'nothrow' not in callee:
            return I.throw(st, '@_ZTISt9bad_alloc', C(64, stdexc(I, st, '@_ZTISt9bad_alloc').base))
        I.finish(st, ins, C(64, 0))
        return None
    a = st.env.av(n)
    o = I.new_obj(st, a[0] if a[0] == a[1] else None, 'heap')
    o.sizen = n
    st.notes['allocs'] = st.notes.get('allocs', 0) + 1
    I.finish(st, ins, C(64, o.base))


@ext('calloc')
def _calloc(I, st, ins, v, work):
    n = I.binop(st, 'mul', ('i', 64), v[0], v[1], ())
    a = st.env.av(n)
    o = I.new_obj(st, a[0] if a[0] == a[1] else None, 'heap', lazy='zero')
    o.sizen = n
    st.notes['allocs'] = st.notes.get('allocs', 0) + 1
    I.finish(st, ins, C(64, o.base))


@ext('realloc')
def _realloc(I, st, ins, v, work):
    p, n = v
    if st.notes.get('nomem'):
        I.finish(st, ins, C(64, 0))
        return None
    a = st.env.av(n)
    if p.op != 'c' or a[0] != a[1]:
        raise GiveUp('realloc of unknown size')
    o = I.new_obj(st, a[0], 'heap')
    st.notes['allocs'] = st.notes.get('allocs', 0) + 1
    if p.args[0]:
        old = I.obj(st, (p.args[0] - BASE) >> SP, True)
        if old is None or old.base != p.args[0] or not old.alive:
            raise Fault('realloc of invalid pointer')
        if old.size is None:
            raise GiveUp('realloc of an object of unknown size')
        I.memcpy(st, C(64, o.base), p, C(64, min(a[0], old.size)))
        old = I.obj(st, (p.args[0] - BASE) >> SP, True)
        old.alive = False
        st.notes['frees'] = st.notes.get('frees', 0) + 1
    I.finish(st, ins, C(64, o.base))


@ext('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _free(I, st, ins, v, work):
    p = v[0]
    if p.op == 'c' and p.args[0]:
        i = (p.args[0] - BASE) >> SP
        o = I.obj(st, i, True)
        if o is None or o.base != p.args[0]:
            raise Fault('free of invalid pointer')
        if not o.alive:
            raise Fault('double free of %s' % o.name)
        if 'share' in st.notes:
            I.shared(st, o, 'release of')
        o.alive = False
        st.notes['frees'] = st.notes.get('frees', 0) + 1
    I.finish(st, ins, None)


@ext('__cxa_allocate_exception')
def _cxa_alloc(I, st, ins, v, work):
    o = I.new_obj(st, 512, 'exc')
    I.finish(st, ins, C(64, o.base))


@ext('__cxa_free_exception')
def _cxa_free(I, st, ins, v, work):
    I.finish(st, ins, None)


@ext('__cxa_throw')
def _cxa_throw(I, st, ins, v, work):
    ti = next((n for n, a in I.gaddr.items() if a == v[1].args[0]), '?')
    return I.throw(st, ti, v[0])


@ext('__cxa_begin_catch')
def _cxa_begin(I, st, ins, v, work):
    st.caught.append(st.exc)
    I.finish(st, ins, v[0])


@ext('__cxa_end_catch')
def _cxa_end(I, st, ins, v, work):
    if st.caught:
        st.caught.pop()
    I.finish(st, ins, None)


@ext('__cxa_rethrow')
def _cxa_rethrow(I, st, ins, v, work):
    e = st.caught[-1]
    return I.throw(st, e[0], e[1])


@ext('_ZSt9terminatev', '__clang_call_terminate', 'abort', '_ZSt10unexpectedv')
def _term(I, st, ins, v, work):
    return ('terminate', ins.a[1][1], st)


def _mkthrow(ti):
    def f(I, st, ins, v, work):
        return I.throw(st, '@' + ti, C(64, stdexc(I, st, '@' + ti).base))
    return f


def stdexc(I, st, ti):
    """an exception object made by the standard library: its type_info and what() are reachable, the rest is not looked at"""
    try:
        t = I.global_addr(st, ti)
    except GiveUp:
        t = 0x1000 + 16 * I.tid(ti)
    f = '@_ZNKSt9exception4whatEv'
    if f in I.m.fns:
        w = I.global_addr(st, f)
    else:
        w = 0x3FFF00
        I.addrfn[w] = f
    vt = I.new_obj(st, 40, 'vtable')
    for k, x in enumerate((0, t, 0, 0, w)):
        I.store(st, C(64, vt.base + 8 * k), 8, C(64, x))
    o = I.new_obj(st, 64, 'exc')
    I.store(st, C(64, o.base), 8, C(64, vt.base + 16))
    return o


@ext('_ZNKSt9exception4whatEv', '_ZNKSt11logic_error4whatEv', '_ZNKSt13runtime_error4whatEv', '_ZNKSt9bad_alloc4whatEv')
def _what(I, st, ins, v, work):
    o = I.new_obj(st, 5, 'what', name='message of an exception')
    for k, c in enumerate(b'what\0'):
        I.store(st, C(64, o.base + k), 1, C(8, c))
    I.finish(st, ins, C(64, o.base))


@ext('_ZNKSt9type_infoeqERKS_')
def _tieq(I, st, ins, v, work):
    c = I.icmp(st, 'eq', v[0], v[1])
    I.finish(st, ins, c)


for _n, _t in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'), ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument')):
    EXT['@' + _n] = _mkthrow(_t)


@ext('memcmp', 'bcmp')
def _memcmp(I, st, ins, v, work):
    n = st.env.av(v[2])
    if n[0] != n[1]:
        if n[1] - n[0] < 33:
            raise Fork([lambda s, k=k: setex(s, s.env.assume_eq(v[2], k)) for k in range(n[0], n[1] + 1)])
        I.finish(st, ins, I.unknown(st, 32, 'memcmp'))
        return
    n = n[0]
    for i in range(n):
        a = tobits(I.load(st, add(v[0], C(64, i)), 1))
        b = tobits(I.load(st, add(v[1], C(64, i)), 1))
        c = I.icmp(st, 'eq', a, b)
        d = I.decide(st, c)
        if d == 1:
            continue
        if d is None:
            raise Fork([lambda s: I.assume(s, c, 1), lambda s: I.assume(s, c, 0)])
        A, B = st.env.av(a), st.env.av(b)
        if A[1] < B[0]:
            r = C(32, -1)
        elif A[0] > B[1]:
            r = C(32, 1)
        else:
            lt = I.icmp(st, 'ult', a, b)
            d = I.decide(st, lt)
            if d is None:
                raise Fork([lambda s: I.assume(s, lt, 1), lambda s: I.assume(s, lt, 0)])
            r = C(32, -1 if d else 1)
        I.finish(st, ins, r)
        return
    I.finish(st, ins, C(32, 0))


@ext('vsnprintf')
def _vsnprintf(I, st, ins, v, work):
    # the text of messages is abstracted to a fixed one
    n = 24
    size = st.env.av(v[1])
    if size[0] != size[1]:
        raise GiveUp('vsnprintf into a buffer of unknown size')
    k = min(n + 1, size[0])
    for i in range(k):
        I.store(st, add(v[0], C(64, i)), 1, C(8, 0 if i == k - 1 else 0x2E))
    I.finish(st, ins, C(32, n))


@ext('strlen')
def _strlen(I, st, ins, v, work):
    i = 0
    while True:
        a = tobits(I.load(st, add(v[0], C(64, i)), 1))
        c = I.icmp(st, 'eq', a, C(8, 0))
        d = I.decide(st, c)
        if d == 1:
            I.finish(st, ins, C(64, i))
            return
        if d is None:
            raise Fork([lambda s: I.assume(s, c, 1), lambda s: I.assume(s, c, 0)])
        i += 1
        if i > 4096:
            raise GiveUp('strlen')


@ext('memcpy', 'memmove')
def _cmemcpy(I, st, ins, v, work):
    if ins.a[1] == ('g', '@memcpy'):
        I.disjoint(st, v[0], v[1], v[2])
    I.memcpy(st, v[0], v[1], v[2])
    I.finish(st, ins, v[0])


@ext('__cxa_guard_acquire')
def _guard(I, st, ins, v, work):
    st.notes['guarded'] = st.notes.get('guarded', 0) + 1
    I.finish(st, ins, C(32, 1))


@ext('__cxa_guard_release', '__cxa_guard_abort')
def _guardrel(I, st, ins, v, work):
    st.notes['guarded'] = max(0, st.notes.get('guarded', 0) - 1)
    if ins.a[1][1] == '@__cxa_guard_release':
        I.store(st, v[0], 1, C(8, 1))
    I.finish(st, ins, None)


@ext('__cxa_atexit', '__cxa_thread_atexit')
def _guardr(I, st, ins, v, work):
    r = ins.a[0]
    I.finish(st, ins, None if r[0] == 'void' else C(32, 0))


@ext('__cxa_pure_virtual')
def _pure(I, st, ins, v, work):
    raise Fault('pure virtual call')


# libstdc++'s hash containers: any bucket count is fine functionally, so one fixed size is used and never outgrown
@ext('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def _nextbkt(I, st, ins, v, work):
    I.finish(st, ins, C(64, 13))


@ext('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def _needrehash(I, st, ins, v, work):
    rt = I.m.res(ins.a[0])
    I.finish(st, ins, I.zero(st, rt))


@ext('_ZSt11_Hash_bytesPKvmm')
def _hashbytes(I, st, ins, v, work):
    I.finish(st, ins, C(64, 0))
