"""Value domain of the abstract interpreter.

A value is a hash-consed node (value numbering).  Integer nodes have a canonical form mixing
 * linear forms modulo 2^w over other nodes, and
 * bit-slice concatenations ("segments": every bit is 0, 1 or bit j of another node).
Numeric information (unsigned/signed interval + known bits) is computed from the node under
the interval/known-bit assumptions of an abstract state (class Env).  There is no solver here:
everything is interval arithmetic, bit provenance and syntactic equality of canonical forms.
"""
import math, struct


class Node:
    __slots__ = ('op', 'w', 'args', 'id')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, w, args):
    k = (op, w, args)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.w = w
        n.args = args
        n.id = _cnt[0]
        _cnt[0] += 1
        _tab[k] = n
    return n


def show(n, d=0):
    if n.op == 'c':
        return '%d:i%d' % (n.args[0], n.w)
    if n.op == 'fc':
        return '%r:f%d' % (n.args[0], n.w)
    if n.op == 'a':
        return n.args[0]
    if d > 4:
        return '..'
    if n.op == 'lin':
        return '(' + ' + '.join(['%d' % s64(n.args[0], n.w)] + ['%d*%s' % (s64(c, n.w), show(x, d + 1)) for x, c in n.args[1]]) + ')'
    if n.op == 'seg':
        return '{' + '.'.join((('%s[%d+:%d]' % (show(s, d + 1), l, k)) if s is not None else '%x:%d' % (l, k)) for s, l, k in n.args) + '}'
    return n.op + '(' + ', '.join(show(x, d + 1) if isinstance(x, Node) else str(x) for x in n.args) + ')'


def s64(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def C(w, v):
    return mk('c', w, (v & ((1 << w) - 1),))


def FC(w, v):
    if w == 32 and not (math.isnan(v) or math.isinf(v)):
        try:
            v = struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            v = math.inf if v > 0 else -math.inf
    if v != v:
        return mk('fc', w, ('nan',))
    # keep -0.0 distinct
    if v == 0.0 and math.copysign(1, v) < 0:
        return mk('fc', w, ('-0',))
    return mk('fc', w, (v,))


def fval(n):
    v = n.args[0]
    if v == 'nan':
        return math.nan
    if v == '-0':
        return -0.0
    return v


def atom(w, name, kind='in'):
    return mk('a', w, (name, kind))


def isc(n):
    return n.op == 'c'


# ---------------------------------------------------------------- segments
def segs_of(n):
    """list of (src, lo, len), LSB first; src None => constant value lo"""
    if n.op == 'c':
        return ((None, n.args[0], n.w),)
    if n.op == 'seg':
        return n.args
    return ((n, 0, n.w),)


def norm_segs(segs):
    out = []
    for s, l, k in segs:
        if k == 0:
            continue
        if out:
            ps, pl, pk = out[-1]
            if ps is None and s is None:
                out[-1] = (None, pl | (l << pk), pk + k)
                continue
            if ps is not None and ps is s and pl + pk == l:
                out[-1] = (s, pl, pk + k)
                continue
        out.append((s, l, k))
    return tuple(out)


def seg(segs):
    segs = norm_segs(segs)
    w = sum(k for _, _, k in segs)
    if len(segs) == 1:
        s, l, k = segs[0]
        if s is None:
            return C(w, l)
        if l == 0 and k == s.w:
            return s
    return mk('seg', w, segs)


def slice_(n, lo, ln):
    """bits [lo, lo+ln) of n as a list of segments"""
    if ln <= 0:
        return ()
    if n.op == 'lin' and lo == 0:
        # truncation distributes over linear forms
        t = lin_trunc(n, ln)
        if t is not None:
            return segs_of(t) if t.op != 'lin' else ((t, 0, ln),)
    if n.op in ('c', 'seg'):
        out = []
        pos = 0
        for s, l, k in segs_of(n):
            a = max(lo, pos)
            b = min(lo + ln, pos + k)
            if a < b:
                if s is None:
                    out.append((None, (l >> (a - pos)) & ((1 << (b - a)) - 1), b - a))
                else:
                    if l + (a - pos) == 0 or s.op not in ('lin',):
                        out.extend(slice_(s, l + (a - pos), b - a) if s.op in ('lin', 'sext') else ((s, l + (a - pos), b - a),))
                    else:
                        out.append((s, l + (a - pos), b - a))
            pos += k
        return tuple(out)
    if n.op == 'sext':
        src = n.args[0]
        if lo + ln <= src.w:
            return slice_(src, lo, ln)
    return ((n, lo, ln),)


def lin_trunc(n, w):
    if w == n.w:
        return n
    terms = []
    for x, c in n.args[1]:
        c &= (1 << w) - 1
        if c == 0:
            continue
        terms.append((trunc(x, w), c))
    return lin(w, n.args[0], terms)


def trunc(n, w):
    if w == n.w:
        return n
    return seg(slice_(n, 0, w))


def zext_raw(n, w):
    return seg(tuple(segs_of(n)) + ((None, 0, w - n.w),))


# ---------------------------------------------------------------- linear forms
def tolin(n):
    """-> (const, {node: coef})"""
    w = n.w
    M = (1 << w) - 1
    if n.op == 'c':
        return n.args[0], {}
    if n.op == 'lin':
        return n.args[0], dict(n.args[1])
    if n.op == 'seg':
        # single variable piece followed by zero bits or cut at the top: piece * 2^pos
        const = 0
        terms = {}
        pos = 0
        for s, l, k in n.args:
            if s is None:
                const |= l << pos
            else:
                if l == 0 and pos + k == w and s.w == w:
                    x = s  # x * 2^pos mod 2^w
                elif l == 0 and k == s.w:
                    x = zext_raw(s, w) if s.w < w else s
                else:
                    x = seg(((s, l, k), (None, 0, w - k))) if k < w else seg(((s, l, k),))
                    if pos == 0 and len(n.args) <= 2 and x is n:
                        return 0, {n: 1}
                if x.op == 'lin':
                    const += x.args[0] << pos
                    for y, c in x.args[1]:
                        terms[y] = (terms.get(y, 0) + (c << pos)) & M
                else:
                    terms[x] = (terms.get(x, 0) + (1 << pos)) & M
            pos += k
        if len(terms) > 2:
            return 0, {n: 1}
        return const & M, terms
    return 0, {n: 1}


def lin(w, const, terms):
    M = (1 << w) - 1
    const &= M
    acc = {}
    for x, c in terms:
        if x.op == 'c':
            const = (const + x.args[0] * c) & M
        elif x.op == 'lin':
            const = (const + x.args[0] * c) & M
            for y, d in x.args[1]:
                acc[y] = (acc.get(y, 0) + c * d) & M
        else:
            acc[x] = (acc.get(x, 0) + c) & M
    ts = tuple(sorted(((x, c) for x, c in acc.items() if c), key=lambda t: t[0].id))
    if not ts:
        return C(w, const)
    if const == 0 and len(ts) == 1:
        x, c = ts[0]
        if c == 1:
            return x
        if c & (c - 1) == 0:
            sh = c.bit_length() - 1
            return seg(((None, 0, sh),) + slice_(x, 0, w - sh))
    return mk('lin', w, (const, ts))


def add(a, b):
    ca, ta = tolin(a)
    cb, tb = tolin(b)
    return lin(a.w, ca + cb, list(ta.items()) + list(tb.items()))


def neg(a):
    ca, ta = tolin(a)
    return lin(a.w, -ca, [(x, -c) for x, c in ta.items()])


def sub(a, b):
    if a is b:
        return C(a.w, 0)
    return add(a, neg(b))


def mulc(a, k):
    ca, ta = tolin(a)
    return lin(a.w, ca * k, [(x, c * k) for x, c in ta.items()])


# ---------------------------------------------------------------- abstract environment
INF = math.inf


class Infeasible(Exception):
    pass


class Env:
    """numeric assumptions: atom/node -> (ulo,uhi,slo,shi,kz,ko); float nodes -> (lo,hi,nan)"""
    __slots__ = ('b', 'memo', 'truth', 'rel')

    def __init__(self):
        self.b = {}
        self.memo = {}
        self.truth = {}
        self.rel = {}

    def copy(self):
        e = Env()
        e.b = dict(self.b)
        e.memo = self.memo
        e.truth = dict(self.truth)
        e.rel = self.rel
        return e

    # ---- evaluation
    def av(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._av(n)
            f = self.b.get(n)
            if f is not None:
                r = meet(r, f, n.w)
            self.memo[n] = r
        return r

    def _av(self, n):
        op = n.op
        w = n.w
        M = (1 << w) - 1
        if op == 'c':
            v = n.args[0]
            s = s64(v, w)
            return (v, v, s, s, M & ~v, v)
        H = 1 << (w - 1)
        full = (0, M, -H, H - 1, 0, 0)
        if op == 'a':
            return full
        if op == 'seg':
            lo = hi = 0
            kz = ko = 0
            pos = 0
            for s, l, k in n.args:
                m = (1 << k) - 1
                if s is None:
                    lo += l << pos
                    hi += l << pos
                    ko |= l << pos
                    kz |= (m & ~l) << pos
                else:
                    ul, uh, sl, sh, z, o = self.av(s)
                    z = (z >> l) & m
                    o = (o >> l) & m
                    kz |= z << pos
                    ko |= o << pos
                    # range of the slice
                    if (ul >> (l + k)) == (uh >> (l + k)):
                        a = (ul >> l) & m
                        b = (uh >> l) & m
                    else:
                        a, b = 0, m
                    a = max(a, o)
                    b = min(b, m & ~z)
                    # signed source truncated from below-zero range keeps full range
                    lo += a << pos
                    hi += b << pos
                pos += k
            return reduce_((lo, hi, -H, H - 1, kz, ko), w)
        if op == 'lin':
            return self._lin(n, full)
        if op == 'sext':
            ul, uh, sl, sh, z, o = self.av(n.args[0])
            return reduce_((0, M, sl, sh, 0, 0), w)
        if op == 'icmp' or op == 'fcmp':
            t = self.truth.get(n)
            if t is not None:
                return (t, t, -t, -t, 1 - t, t)
            return full
        if op == 'not':
            ul, uh, *_ = self.av(n.args[0])
            return reduce_((1 - uh, 1 - ul, -1, 0, 0, 0), 1)
        if op in ('udiv', 'urem', 'sdiv', 'srem', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return self._bin(op, n, full)
        if op == 'select':
            c = self.av(n.args[0])
            if c[0] == c[1]:
                return self.av(n.args[1] if c[0] else n.args[2])
            a = self.av(n.args[1])
            b = self.av(n.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), max(a[3], b[3]), a[4] & b[4], a[5] & b[5])
        if op in ('fptosi', 'fptoui'):
            lo, hi, nan = self.fv(n.args[0])
            if nan or lo == -INF or hi == INF:
                return full
            a, b = math.trunc(lo), math.trunc(hi)
            if op == 'fptosi':
                if a >= -H and b <= H - 1:
                    return reduce_((0, M, a, b, 0, 0), w)
            elif a >= 0 and b <= M:
                return reduce_((a, b, -H, H - 1, 0, 0), w)
            return full
        if op == 'f2bits':
            lo, hi, nan = self.fv(n.args[0])
            if nan or lo > hi:
                return full
            if lo > 0:
                return reduce_((f2i(w, lo), f2i(w, hi), -H, H - 1, 0, 0), w)
            if hi < 0:
                return reduce_((f2i(w, hi), f2i(w, lo), -H, H - 1, 0, 0), w)
            return reduce_((0, f2i(w, lo) if lo < 0 else H, -H, H - 1, 0, 0), w)
        if op == 'ctlz':
            ul, uh, *_ = self.av(n.args[0])
            return reduce_((w - uh.bit_length(), w - ul.bit_length(), -H, H - 1, 0, 0), w)
        if op == 'cttz':
            return reduce_((0, w, -H, H - 1, 0, 0), w) if w < H else full
        if op == 'ctpop':
            return reduce_((0, w, -H, H - 1, 0, 0), w) if w < H else full
        return full

    def nonzero(self, n):
        """n != 0 for certain (finer than the interval: any part nonzero)"""
        a = self.av(n)
        if a[0] > 0 or a[3] < 0 or a[2] > 0 or a[5]:
            return True
        if n.op == 'or':
            return self.nonzero(n.args[0]) or self.nonzero(n.args[1])
        if n.op == 'sext':
            return self.nonzero(n.args[0])
        if n.op == 'seg':
            for s, l, k in n.args:
                if s is None:
                    if l:
                        return True
                elif l == 0 and k == s.w and self.nonzero(s):
                    return True
        return False

    def _lin(self, n, full):
        w = n.w
        M1 = 1 << w
        H = M1 >> 1
        c0, ts = n.args
        best = full
        for signed in (0, 1):
            L = U = s64(c0, w)
            for x, c in ts:
                a = self.av(x)
                lo, hi = (a[2], a[3]) if signed else (a[0], a[1])
                c = s64(c, w)
                if c > 0:
                    L += c * lo
                    U += c * hi
                else:
                    L += c * hi
                    U += c * lo
            if U - L >= M1:
                continue
            k = L // M1
            if k == U // M1:
                best = meet(best, (L - k * M1, U - k * M1, -H, H - 1, 0, 0), w, True)
            k = (L + H) // M1
            if k == (U + H) // M1:
                best = meet(best, (0, M1 - 1, L - k * M1, U - k * M1, 0, 0), w, True)
        # low zero bits
        tz = (c0 & -c0).bit_length() - 1 if c0 else w
        for x, c in ts:
            z = self.av(x)[4]
            zx = ((~z) & -(~z)).bit_length() - 1 if z else 0
            tz = min(tz, zx + ((c & -c).bit_length() - 1))
        if tz > 0:
            tz = min(tz, w)
            best = reduce_((best[0], best[1], best[2], best[3], best[4] | ((1 << tz) - 1), best[5]), w)
        f = self.diff_bounds(n)
        if f is not None:
            best = meet(best, f, w, True)
        if len(ts) > 1 and any(x.op == 'seg' for x, _ in ts):
            e = self.unsliced(n)
            if e is not n and (e.op != 'lin' or len(e.args[1]) <= len(ts)):
                best = meet(best, self.av(e), w, True)
        return best

    def unsliced(self, n):
        """the linear form with slices of a node replaced by the node less its low bits, where the bits above are known"""
        w = n.w
        e = n
        for x, c in n.args[1]:
            if x.op != 'seg':
                continue
            pos = const = 0
            piece = None
            for q in x.args:
                if q[0] is None:
                    const |= q[1] << pos
                elif piece is None:
                    piece = (q, pos)
                else:
                    piece = None
                    break
                pos += q[2]
            if piece is None:
                continue
            (s, o, k), p = piece
            if s.w != w or o - p > 0 and s64(c, w) % (1 << (o - p)):
                continue
            a = self.av(s)
            top = w - o - k
            m = (1 << top) - 1
            if ((a[4] | a[5]) >> (o + k)) & m != m:
                continue
            K = (a[5] >> (o + k)) << (o + k)
            low = seg(tuple(slice_(s, 0, o)) + ((None, 0, w - o),)) if o else C(w, 0)
            c = s64(c, w)
            c2 = c // (1 << (o - p)) if o >= p else c << (p - o)
            e = add(e, sub(add(C(w, c * const), mulc(sub(sub(s, low), C(w, K)), c2)), mulc(x, c)))
        return e

    def diff_bounds(self, n):
        """bounds of a linear form known from facts recorded for its negation"""
        m = neg(n)
        f = self.b.get(m)
        if f is None:
            return None
        w = n.w
        H = 1 << (w - 1)
        M = (1 << w) - 1
        if f[2] > -H:
            r = (0, M, -f[3], -f[2], 0, 0)
            return reduce_(r, w)
        return None

    def nowrap_u(self, n):
        """True if the linear form has an exact unsigned value (no wrap) as a sum over its terms"""
        c0, ts = tolin(n)
        w = n.w
        L = U = s64(c0, w)
        for x, c in ts.items():
            a = self.av(x)
            c = s64(c, w)
            if c > 0:
                L += c * a[0]
                U += c * a[1]
            else:
                L += c * a[1]
                U += c * a[0]
        return L >= 0 and U < (1 << w)

    def nowrap_s(self, n, term_signed=True):
        c0, ts = tolin(n)
        w = n.w
        H = 1 << (w - 1)
        L = U = s64(c0, w)
        for x, c in ts.items():
            a = self.av(x)
            c = s64(c, w)
            lo, hi = a[2], a[3]
            if c > 0:
                L += c * lo
                U += c * hi
            else:
                L += c * hi
                U += c * lo
        return L >= -H and U < H

    def _bin(self, op, n, full):
        w = n.w
        M = (1 << w) - 1
        H = 1 << (w - 1)
        a = self.av(n.args[0])
        b = self.av(n.args[1])
        if op == 'mul':
            cand = full
            L, U = a[0] * b[0], a[1] * b[1]
            if U <= M:
                cand = meet(cand, (L, U, -H, H - 1, 0, 0), w, True)
            ps = [a[2] * b[2], a[2] * b[3], a[3] * b[2], a[3] * b[3]]
            if min(ps) >= -H and max(ps) < H:
                cand = meet(cand, (0, M, min(ps), max(ps), 0, 0), w, True)
            return cand
        if op == 'udiv':
            if b[0] > 0:
                return reduce_((a[0] // b[1], a[1] // b[0], -H, H - 1, 0, 0), w)
            return full
        if op == 'urem':
            if b[0] > 0:
                hi = min(a[1], b[1] - 1)
                lo = 0
                if b[0] == b[1] and a[0] // b[0] == a[1] // b[0]:
                    lo, hi = a[0] % b[0], a[1] % b[0]
                return reduce_((lo, hi, -H, H - 1, 0, 0), w)
            return full
        if op == 'sdiv':
            if b[2] > 0 or b[3] < 0:
                ps = [tdiv(x, y) for x in (a[2], a[3]) for y in (b[2], b[3])]
                if a[2] <= 0 <= a[3]:
                    ps.append(0)
                if min(ps) >= -H and max(ps) < H:
                    return reduce_((0, M, min(ps), max(ps), 0, 0), w)
            return full
        if op == 'srem':
            if b[2] > 0:
                m = b[3] - 1
                lo = 0 if a[2] >= 0 else -min(m, -a[2])
                hi = 0 if a[3] <= 0 else min(m, a[3])
                if b[2] == b[3] and a[2] >= 0 and a[2] // b[2] == a[3] // b[2]:
                    lo, hi = a[2] % b[2], a[3] % b[2]
                return reduce_((0, M, lo, hi, 0, 0), w)
            return full
        if op == 'and':
            kz = a[4] | b[4]
            ko = a[5] & b[5]
            return reduce_((0, min(a[1], b[1]), -H, H - 1, kz, ko), w)
        if op == 'or':
            kz = a[4] & b[4]
            ko = a[5] | b[5]
            return reduce_((max(a[0], b[0]), M, -H, H - 1, kz, ko), w)
        if op == 'xor':
            kz = (a[4] & b[4]) | (a[5] & b[5])
            ko = (a[4] & b[5]) | (a[5] & b[4])
            return reduce_((0, M, -H, H - 1, kz, ko), w)
        if op == 'shl':
            if b[1] < w and a[1] << b[1] <= M:
                return reduce_((a[0] << b[0], a[1] << b[1], -H, H - 1, 0, 0), w)
            return full
        if op == 'lshr':
            if b[1] < w:
                return reduce_((a[0] >> b[1], a[1] >> b[0], -H, H - 1, 0, 0), w)
            return full
        if op == 'ashr':
            if b[1] < w:
                ps = [a[2] >> b[0], a[2] >> b[1], a[3] >> b[0], a[3] >> b[1]]
                return reduce_((0, M, min(ps), max(ps), 0, 0), w)
            return full
        return full

    # ---- floats: (lo, hi, maybe_nan)
    def fv(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._fv(n)
            f = self.b.get(n)
            if f is not None:
                r = (max(r[0], f[0]), min(r[1], f[1]), r[2] and f[2])
                if r[0] > r[1] and not r[2]:
                    raise Infeasible()
            self.memo[n] = r
        return r

    def _fv(self, n):
        op = n.op
        if op == 'fc':
            v = fval(n)
            if v != v:
                return (INF, -INF, True)
            return (v, v, False)
        if op == 'a':
            return (-INF, INF, True)
        if op in ('sitofp', 'uitofp'):
            a = self.av(n.args[0])
            lo, hi = (a[2], a[3]) if op == 'sitofp' else (a[0], a[1])
            return (rnd(n.w, lo), rnd(n.w, hi), False)
        if op == 'fpext':
            return self.fv(n.args[0])
        if op == 'fptrunc':
            lo, hi, nan = self.fv(n.args[0])
            return (rnd(n.w, lo), rnd(n.w, hi), nan)
        if op == 'fneg':
            lo, hi, nan = self.fv(n.args[0])
            return (-hi, -lo, nan)
        if op == 'fabs':
            lo, hi, nan = self.fv(n.args[0])
            if lo >= 0:
                return (lo, hi, nan)
            if hi <= 0:
                return (-hi, -lo, nan)
            return (0.0, max(-lo, hi), nan)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.fv(n.args[0])
            b = self.fv(n.args[1])
            if a[0] > a[1] or b[0] > b[1]:
                return (-INF, INF, True)
            try:
                ps = []
                for x in (a[0], a[1]):
                    for y in (b[0], b[1]):
                        if op == 'fadd':
                            v = x + y
                        elif op == 'fsub':
                            v = x - y
                        elif op == 'fmul':
                            v = x * y
                        else:
                            if b[0] <= 0 <= b[1]:
                                return (-INF, INF, True)
                            v = x / y
                        if v != v:
                            return (-INF, INF, True)
                        ps.append(rnd(n.w, v) if n.w == 32 else v)
                return (min(ps), max(ps), a[2] or b[2])
            except OverflowError:
                return (-INF, INF, True)
        if op == 'bits2f':
            a = self.av(n.args[0])
            if a[0] == a[1]:
                v = i2f(n.w, a[0])
                return (v, v, False) if v == v else (INF, -INF, True)
            e = 0x7f800000 if n.w == 32 else 0x7ff0000000000000
            if a[1] <= e:
                return (i2f(n.w, a[0]), i2f(n.w, a[1]), False)
            return (-INF, INF, True)
        return (-INF, INF, True)

    # ---- assumptions (return exactness)
    def assume_range(self, n, lo, hi, signed):
        """restrict node n to [lo,hi]; returns True when the restriction is represented exactly"""
        w = n.w
        M = (1 << w) - 1
        H = 1 << (w - 1)
        cur = self.av(n)
        clo, chi = (cur[2], cur[3]) if signed else (cur[0], cur[1])
        lo = max(lo, clo)
        hi = min(hi, chi)
        if lo > hi:
            raise Infeasible()
        if lo == clo and hi == chi:
            return True
        if n.op == 'a':
            # a signed restriction crossing zero is not an unsigned interval but both are kept
            r = (0, M, lo, hi, 0, 0) if signed else (lo, hi, -H, H - 1, 0, 0)
            self.set(n, r)
            return n.args[1] == 'in'
        if n.op == 'sext':
            if signed:
                self.assume_range(n.args[0], lo, hi, True) if True else 0
                self.set(n, (0, M, lo, hi, 0, 0))
                return self._exact(n.args[0])
            if hi < H:
                return self.assume_range(n, lo, hi, True)
            if lo >= M + 1 - H:
                return self.assume_range(n, lo - M - 1, hi - M - 1, True)
        if n.op == 'seg':
            a = n.args
            if len(a) >= 1 and a[0][0] is not None and a[0][1] == 0 and (len(a) == 1 or (len(a) == 2 and a[1][0] is None and a[1][1] == 0)):
                s, l, k = a[0]
                if signed and len(a) == 2:
                    signed = False  # value is non-negative
                    lo = max(lo, 0)
                if not signed:
                    sv = self.av(s)
                    if k == s.w or sv[1] < (1 << k):
                        ex = self.assume_range(s, lo, hi, False)
                        self.memo = {}
                        return ex
            # (x >> l) zero-extended
            if len(a) == 2 and a[0][0] is not None and a[1][0] is None and a[1][1] == 0 and not signed:
                s, l, k = a[0]
                if l + k == s.w:
                    return self.assume_range(s, lo << l, ((hi + 1) << l) - 1, False)
            # x << k with zero low bits
            if len(a) >= 2 and a[0][0] is None and a[0][1] == 0 and a[1][0] is not None and a[1][1] == 0 and not signed:
                sh = a[0][2]
                s, l, k = a[1]
                rest_zero = len(a) == 2 or (len(a) == 3 and a[2][0] is None and a[2][1] == 0)
                if rest_zero and (k == s.w or self.av(s)[1] < (1 << k)):
                    return self.assume_range(s, (lo + (1 << sh) - 1) >> sh, hi >> sh, False)
        if n.op == 'lin':
            c0, ts = n.args
            if len(ts) == 1:
                x, c = ts[0]
                sc = s64(c, w)
                if abs(sc) == 1:
                    # x = sc*(v - c0) ; pick whichever interpretation does not wrap
                    for sg in (signed, not signed):
                        xa = self.av(x)
                        xl, xh = (xa[2], xa[3]) if sg else (xa[0], xa[1])
                        d = s64(c0, w)
                        vl, vh = (xl + d, xh + d) if sc == 1 else (d - xh, d - xl)
                        # does the interval [vl,vh] map without wrap onto the (signed?) view of n
                        base = -H if signed else 0
                        k = (vl - base) // (M + 1)
                        if k == (vh - base) // (M + 1):
                            off = k * (M + 1)
                            nl, nh = lo + off, hi + off
                            if sc == 1:
                                rl, rh = nl - d, nh - d
                            else:
                                rl, rh = d - nh, d - nl
                            ex = self.assume_range(x, max(rl, xl), min(rh, xh), sg)
                            self.memo = {}
                            return ex
            # record as a fact about the linear form and propagate bounds to single terms
            r = (0, M, lo, hi, 0, 0) if signed else (lo, hi, -H, H - 1, 0, 0)
            self.set(n, r)
            self._propagate_lin(n, lo, hi, signed)
            return False
        if n.op in ('sitofp',):
            pass
        r = (0, M, lo, hi, 0, 0) if signed else (lo, hi, -H, H - 1, 0, 0)
        self.set(n, r)
        return False

    def _propagate_lin(self, n, lo, hi, signed):
        """bounds consistency on sum (valid only if the sum does not wrap)"""
        c0, ts = n.args
        w = n.w
        c0 = s64(c0, w)
        for sg in (False, True):
            rng = []
            L = U = c0
            for x, c in ts:
                a = self.av(x)
                xl, xh = (a[2], a[3]) if sg else (a[0], a[1])
                c = s64(c, w)
                l, h = (c * xl, c * xh) if c > 0 else (c * xh, c * xl)
                rng.append((x, c, xl, xh, l, h))
                L += l
                U += h
            H = 1 << (w - 1)
            if signed and not (L >= -H and U < H):
                continue
            if not signed and not (L >= 0 and U < (1 << w)):
                continue
            for x, c, xl, xh, l, h in rng:
                # c*x in [lo - (U-h), hi - (L-l)]
                a = lo - (U - h)
                b = hi - (L - l)
                if c > 0:
                    nl, nh = -((-a) // c), b // c
                else:
                    nl, nh = -(b // -c), -(-((-a) // -c)) if False else (-a) // -c
                    nl, nh = -(b // (-c)), (-a) // (-c)
                nl, nh = max(nl, xl), min(nh, xh)
                if nl > nh:
                    raise Infeasible()
                if (nl, nh) != (xl, xh):
                    self.assume_range(x, nl, nh, sg)
            return

    def _exact(self, n):
        return n.op == 'a' and n.args[1] == 'in'

    def set(self, n, r):
        w = n.w
        cur = self.b.get(n)
        base = self.memo.get(n) or self.av(n)
        r = meet(base, r, w)
        self.b[n] = r
        self.memo = {}

    def assume_eq(self, n, v):
        """n == const v"""
        w = n.w
        a = self.av(n)
        if not (a[0] <= v <= a[1]) or (v & a[4]) or (~v & a[5]) or not (a[2] <= s64(v, w) <= a[3]):
            raise Infeasible()
        if a[0] == a[1]:
            return True
        if n.op == 'seg':
            ex = True
            pos = 0
            for s, l, k in n.args:
                p = (v >> pos) & ((1 << k) - 1)
                pos += k
                if s is None:
                    if p != l:
                        raise Infeasible()
                    continue
                if l == 0 and k == s.w:
                    ex = self.assume_eq(s, p) and ex
                else:
                    cur = self.av(s)
                    m = ((1 << k) - 1) << l
                    W = (1 << s.w) - 1
                    HH = 1 << (s.w - 1)
                    wide = cur[0] == 0 and cur[1] == W
                    if self.av(s)[1] < (1 << k) and l == 0:
                        ex = self.assume_eq(s, p) and ex
                        continue
                    self.set(s, (0, W, -HH, HH - 1, m & ~(p << l), p << l))
                    # exact when nothing but known bits constrains the source
                    ex = ex and self._exact(s) and wide
            return ex
        if n.op == 'lin' and len(n.args[1]) == 1 and n.args[1][0][1] & 1:
            x, c = n.args[1][0]
            inv = pow(c, -1, 1 << w)
            return self.assume_eq(x, ((v - n.args[0]) * inv) & ((1 << w) - 1))
        if n.op == 'or' and v == 0:
            return all([self.assume_eq(x, 0) for x in n.args])
        if n.op == 'sext':
            sv = s64(v, w)
            x = n.args[0]
            if not (-(1 << (x.w - 1)) <= sv < (1 << (x.w - 1))):
                raise Infeasible()
            return self.assume_eq(x, sv & ((1 << x.w) - 1))
        return self.assume_range(n, v, v, False)


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y > 0) else -q


def i2f(w, v):
    return struct.unpack('<f', struct.pack('<I', v))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', v))[0]


def f2i(w, v):
    return struct.unpack('<I', struct.pack('<f', v))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]


def rnd(w, v):
    if isinstance(v, int):
        try:
            v = exact_round(v, w)
        except OverflowError:
            return INF if v > 0 else -INF
        return v
    if w == 32 and v == v and not math.isinf(v):
        try:
            return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            return INF if v > 0 else -INF
    return v


def exact_round(v, w):
    """correctly rounded int -> float/double"""
    if w == 64:
        return float(v)
    # float32 from int: round-half-even at 24 bits (avoid double rounding)
    s = -1 if v < 0 else 1
    a = abs(v)
    if a == 0:
        return 0.0
    e = a.bit_length()
    if e > 24:
        sh = e - 24
        q = a >> sh
        r = a & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        a = q << sh
    return s * float(a)


def meet(a, b, w, soft=False):
    r = (max(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), min(a[3], b[3]), a[4] | b[4], a[5] | b[5])
    return reduce_(r, w)


def reduce_(r, w):
    ul, uh, sl, sh, kz, ko = r
    M = (1 << w) - 1
    H = 1 << (w - 1)
    for _ in range(2):
        # unsigned -> signed
        if uh < H:
            sl = max(sl, ul)
            sh = min(sh, uh)
        elif ul >= H:
            sl = max(sl, ul - M - 1)
            sh = min(sh, uh - M - 1)
        # signed -> unsigned
        if sl >= 0:
            ul = max(ul, sl)
            uh = min(uh, sh)
        elif sh < 0:
            ul = max(ul, sl + M + 1)
            uh = min(uh, sh + M + 1)
        # known bits -> range
        if ko > ul:
            ul = ko
        mx = M & ~kz
        if mx < uh:
            uh = mx
        if kz & ko:
            raise Infeasible()
        if ul > uh or sl > sh:
            raise Infeasible()
        # range -> known high bits
        x = ul ^ uh
        m = M & ~((1 << x.bit_length()) - 1)
        kz |= m & ~ul
        ko |= m & ul
        # align bounds to known low zero bits
        if kz & 1 or ko & 1:
            low = kz | ko
            t = ((~low) & -(~low)).bit_length() - 1
            if t > 0:
                t = min(t, w)
                mask = (1 << t) - 1
                pat = ko & mask
                d = (pat - ul) & mask
                ul += d
                d = (uh - pat) & mask
                uh -= d
                if ul > uh:
                    raise Infeasible()
    return (ul, uh, sl, sh, kz, ko)
