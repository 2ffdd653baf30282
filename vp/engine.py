"""Obligation driver: analyses every `ob_*` function of a harness module."""
import time, os, re, json, random, zlib
import interp, irparse
from interp import Interp


def narrow(st):
    return {k: (v[1], v[2]) for k, v in st.inputs.items()}


def effective(I, st):
    """input ranges of a trace after refinement"""
    out = {}
    for name, (k, lo, hi) in st.inputs.items():
        out[name] = (lo, hi)
        if lo == hi:
            continue
        for n in list(st.env.b):
            if n.op == 'a' and n.args[0] == name:
                if k == 'f':
                    out[name] = st.env.fv(n)[:2]
                else:
                    a = st.env.av(n)
                    out[name] = (a[2], a[3]) if k == 'i' else (a[0], a[1])
    return out


class Result:
    def __init__(self, name):
        self.name = name
        self.fails = []
        self.may = []
        self.unknown = []
        self.returns = 0
        self.proved = 0
        self.traces = 0
        self.steps = 0
        self.time = 0
        self.ends = {}
        self.content = {}


def analyse(mod, fname, opts=None, hooks=None, budget=60.0, pins=None, split=True):
    t0 = time.time()
    res = Result(fname)
    res.called = set()
    res.ext = set()
    res.reached = set()
    work = [(pins or {}, 0)]
    res.cells = 0
    while work:
        p, depth = work.pop()
        res.cells += 1
        I = Interp(mod, dict(opts or {}, deadline=t0 + budget * 1.5))
        if hooks:
            I.hooks.update(hooks)
        I.pins = p
        outs = I.run(fname)
        res.called |= I.called
        res.ext |= I.stats['unknown_ext']
        res.proved += I.stats['asserts_proved']
        res.traces += I.stats['traces']
        res.steps += I.stats['steps']
        res.interp = I
        if I.stats['maybe_oob']:
            res.oob = getattr(res, 'oob', 0) + I.stats['maybe_oob']
        for kind, msg, st in outs:
            res.ends[kind] = res.ends.get(kind, 0) + 1
            if kind == 'return':
                res.returns += 1
            elif kind == 'fail' or (kind in ('fault', 'terminate', 'trap') and st.exact):
                res.fails.append((kind, msg, effective(I, st), I.where(st), dict(st.notes)))
            elif kind in ('mayfail', 'fault', 'terminate', 'trap'):
                # refine the input partition (not beyond the budget)
                eff = effective(I, st)
                sp = None
                if split and depth < 8 and time.time() - t0 < budget:
                    sp = subdivide(st, eff)
                if sp:
                    for q in sp:
                        work.append((dict(p, **q), depth + 1))
                else:
                    res.may.append((kind, msg, eff, I.where(st), st.inexact_why))
                    if len(res.content) < 40:
                        res.content[id(eff)] = content(st)
            elif kind == 'unreachable':
                res.unknown.append(('unreachable', msg, effective(I, st), I.where(st)))
            elif kind == 'throw':
                res.fails.append((kind, 'uncaught %s' % msg, effective(I, st), [], {})) if st.exact else res.may.append((kind, str(msg), effective(I, st), [], st.inexact_why))
            elif kind == 'noreturn':
                pass
            else:
                res.unknown.append((kind, msg, effective(I, st), I.where(st)))
        if len(res.fails) > 400:
            break
    if not res.fails and (res.may or res.unknown):
        points(mod, fname, opts, hooks, res, min(40, budget))
    if getattr(res, 'oob', 0):
        res.may.append(('memory', '%d accesses whose bounds could not be proved' % res.oob, {}, [], ''))
    res.time = time.time() - t0
    return res


def points(mod, fname, opts, hooks, res, budget):
    """last resort for undecided traces: cells of one point, where every transfer function is exact"""
    end = time.time() + budget
    seen, todo = {}, []
    for m in res.may + res.unknown:
        if m[2] and seen.setdefault((m[0], m[1]), 0) < 3:
            seen[(m[0], m[1])] += 1
            todo.append((m[2], res.content.get(id(m[2]), {})))
    rnd = random.Random(zlib.crc32(fname.encode()))
    for fill, ends in ((2, 0), (0, 1), (1, 0), (3, 1), (4, 0)) + 6 * ((3, None),):
        for eff, hints in todo[:12]:
            if time.time() > end:
                return
            I = Interp(mod, dict(opts or {}, deadline=min(end, time.time() + 10)))
            if hooks:
                I.hooks.update(hooks)
            if ends is None:
                # a random point of what the refined trace allows
                I.pins = {k: 2 * (pick(rnd, v[0], v[1]),) for k, v in eff.items()}
                I.bytes = {k: pick(rnd, v[0], v[1]) for k, v in hints.items()}
            else:
                I.pins = {k: (v[ends], v[ends]) for k, v in eff.items()}
            I.point = fill
            try:
                outs = I.run(fname)
            except Exception:
                continue
            for kind, msg, st in outs:
                if kind == 'fail' or (kind in ('fault', 'terminate', 'trap') and st.exact):
                    res.fails.append((kind, msg, effective(I, st), I.where(st), dict(st.notes)))
                elif kind == 'throw' and st.exact:
                    res.fails.append((kind, 'uncaught %s' % msg, effective(I, st), [], {}))
            if res.fails:
                return


def pick(rnd, lo, hi):
    if isinstance(lo, float) or isinstance(hi, float) or lo >= hi:
        return rnd.choice((lo, hi))
    return rnd.choice((lo, hi, rnd.randint(lo, hi)))


BYTE = re.compile(r'^(.*)\[(\d+):(\d+)\]$')


def content(st):
    """what a trace knows about arbitrary bytes"""
    out = {}
    for n in list(st.env.b):
        if n.op == 'a':
            m = BYTE.match(str(n.args[0]))
            if m and m.group(3) == '1':
                a = st.env.av(n)
                out[(m.group(1), int(m.group(2)))] = (a[0], a[1])
    return out


def subdivide(st, eff):
    """children cells of the widest integer input"""
    best = None
    base = {}
    for name, (k, lo, hi) in st.inputs.items():
        l, h = eff[name]
        base[name] = (l, h)
        if k in ('u', 'i') and h > l:
            if best is None or h - l > best[0]:
                best = (h - l, name, l, h)
    if best is None:
        return None
    _, name, l, h = best
    m = (l + h) // 2
    cells = [(l, l), (h, h)]
    if l + 1 <= h - 1:
        cells.append((l + 1, m) if l + 1 <= m else None)
        if m + 1 <= h - 1:
            cells.append((m + 1, h - 1))
    out = []
    for c in cells:
        if c is None or c[0] > c[1]:
            continue
        q = dict(base)
        q[name] = c
        out.append(q)
    return out


def obligations(mod, prefix='ob_'):
    return sorted(n for n, f in mod.fns.items() if n.startswith('@' + prefix) and not f.isdecl)
