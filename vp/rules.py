"""E2: rules over the IR of the whole library, reached by an obligation or not."""
import re

NAME = r'[@%](?:"[^"]*"|[-a-zA-Z$._0-9]+)'
DEF = re.compile(r'^\s*(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (\S+)')
GLOB = re.compile(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)')
CALL = re.compile(r'\b(?:call|invoke)\b.*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\((.*)$')
PTRARG = re.compile(r'\bptr (?:[a-z_]+(?:\([^)]*\))? (?:\d+ )?)*(' + NAME + r'|getelementptr[^@]*\(.*?@(?:"[^"]*"|[-a-zA-Z$._0-9]+).*?\)|null|undef|poison|inttoptr)')
# functions outside the library that write through their first argument
WRITES = ('@llvm.memcpy', '@llvm.memmove', '@llvm.memset', '@memcpy', '@memmove', '@memset', '@strcpy', '@strncpy', '@snprintf', '@vsnprintf', '@sprintf', '@strcat')
STDSTR = re.compile(r'@_ZNSt7__cxx1112basic_stringI.*E(?:aSE|pLE|6assign|6append|9push_back|7reserve|6resize|5clear|6insert|5erase|7replace|10_M_replace|9_M_append|9_M_assign|4swap)')


def split(args):
    """top-level commas"""
    out, d, cur, q = [], 0, '', False
    for c in args:
        if c == '"':
            q = not q
        if not q:
            if c in '([{<':
                d += 1
            elif c in ')]}>':
                if d == 0:
                    break
                d -= 1
            elif c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def roots(operand, val):
    m = re.search(r'\bptr\b.*?(' + NAME + r')', operand) if 'getelementptr' not in operand and 'inttoptr' not in operand else None
    if m:
        x = m.group(1)
        return {x} if x[0] == '@' else val.get(x, set())
    return set(GLOB.findall(operand)) if '@' in operand else set()


def initialises(text, g, line):
    """is this store part of the guarded initialisation of the static variable g?"""
    guard = '@_ZGV' + g[3:]
    if not g.startswith('@_Z') or guard not in '\n'.join(text):
        return False
    blocks, cur = {'': []}, ''
    for l in text:
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if m:
            cur = m.group(1)
            blocks[cur] = []
        blocks[cur].append(l)
    order = list(blocks)
    succ = {k: [x for l in v for x in re.findall(r'label %("[^"]*"|[-a-zA-Z$._0-9]+)', l)] for k, v in blocks.items()}
    where = lambda f: [(k, i) for k, v in blocks.items() for i, l in enumerate(v) if f(l)]
    acq = where(lambda l: '__cxa_guard_acquire(' in l and guard in l)
    rel = where(lambda l: '__cxa_guard_release(' in l and guard in l)
    w = where(lambda l: l is line)
    if not acq or not rel or not w:
        return False
    A = set(k for k, _ in acq)
    wb, wi = w[0]

    def reach(start):
        seen, todo = set(), [x for k in start for x in succ[k]]
        while todo:
            k = todo.pop()
            if k not in seen and k not in A:
                seen.add(k)
                todo += succ.get(k, [])
        return seen
    if wb in A:
        return all(wi > i for k, i in acq if k == wb)
    if wb == order[0] or wb in reach([order[0]]) and order[0] not in A:
        return False
    if any(k == wb and i < wi for k, i in rel):
        return False
    return wb not in reach(k for k, _ in rel)


def library_state(m, b):
    """no function of the library, outside of static initialisation and defaults::setup(), stores into a variable of static storage that is
    neither thread-local nor atomic: such a store is visible to every thread, whatever tuple it was called for"""
    mutable = set()
    for g, rest in m.globals.items():
        r = rest if isinstance(rest, str) else ''
        if re.search(r'\bglobal\b', r) and 'thread_local' not in r and not g.startswith(('@_ZGV', '@llvm.', '@_ZTV', '@_ZTI')):
            mutable.add(g)
    defs = {n: f for n, f in m.fns.items() if not f.isdecl}
    calls = {}
    for n, f in defs.items():
        calls[n] = set(x for l in f.text for x in GLOB.findall(l.split(', !dbg')[0]) if x in defs)
    # static initialisation: what only the constructors of the module reach
    ctors = m.globals.get('@llvm.global_ctors', '')
    init = set(x for x in GLOB.findall(ctors if isinstance(ctors, str) else str(ctors)) if x in defs)
    # and the function by which the application configures the library
    init |= set(n for n in defs if n.startswith('@_ZN4fptu8defaults5setup'))
    users = {}
    for n, cs in calls.items():
        for c in cs:
            users.setdefault(c, set()).add(n)
    held = set(x for g, r in m.globals.items() if g != '@llvm.global_ctors' for x in GLOB.findall(r if isinstance(r, str) else '') if x in defs)
    grow = True
    while grow:
        grow = False
        for n in defs:
            if n not in init and users.get(n) and n not in held and re.search(r'\b(?:internal|private)\b', m.fns[n].hdr) and users[n] <= init:
                init.add(n)
                grow = True
    # which parameters a function writes through
    info, wparam = {}, {n: set() for n in defs}
    for n, f in defs.items():
        p = split(f.hdr[f.hdr.index(n + '(') + len(n) + 1:])
        par = {}
        for i, a in enumerate(p):
            x = a.split()[-1] if a else ''
            if a.startswith('ptr') and x.startswith('%'):
                par[x] = i
        info[n] = par
    sites = {}
    changed = True
    stores = 0

    def scan(n):
        nonlocal stores
        f = defs[n]
        val = {x: {i} for x, i in info[n].items()}
        for _ in range(3):
            before = sum(map(len, val.values()))
            for l in f.text:
                d = DEF.match(l)
                if not d:
                    continue
                if d.group(2) in ('getelementptr', 'bitcast'):
                    a = split(l[l.index(d.group(2)) + len(d.group(2)):])
                    r = roots(a[1], val) if d.group(2) == 'getelementptr' and len(a) > 1 else roots(a[0], val)
                elif d.group(2) in ('phi', 'select') and ' ptr' in l:
                    r = set()
                    for x in re.findall(NAME, l[l.index('='):].split(', !')[0]):
                        r |= {x} if x[0] == '@' else val.get(x, set())
                else:
                    continue
                val.setdefault(d.group(1), set()).update(r)
            if sum(map(len, val.values())) == before:
                break
        hits, w = [], set()
        for l in f.text:
            s = l.strip()
            tgt = None
            if s.startswith('store ') and not s.startswith('store atomic'):
                stores += 1
                a = split(s[6:])
                tgt = roots(a[1], val)
            else:
                c = CALL.search(s)
                if not c:
                    continue
                callee, args = c.group(1), split(c.group(2))
                if callee.startswith(WRITES) or STDSTR.match(callee):
                    tgt = roots(args[0], val) if args else set()
                elif callee in wparam and wparam[callee]:
                    tgt = set()
                    for i in wparam[callee]:
                        if i < len(args):
                            tgt |= roots(args[i], val)
            for t in tgt or ():
                if isinstance(t, int):
                    w.add(t)
                elif t in mutable:
                    hits.append((t, l))
        return hits, w

    while changed:
        changed = False
        stores = 0
        for n in defs:
            hits, w = scan(n)
            sites[n] = hits
            if not w <= wparam[n]:
                wparam[n] |= w
                changed = True
    viol = []
    for n, hits in sites.items():
        if n in init:
            continue
        text = '\n'.join(defs[n].text)
        for g, l in hits:
            if initialises(defs[n].text, g, l):
                continue
            dbg = re.search(r'!dbg (![0-9]+)', l)
            viol.append(dict(what='%s is written outside of static initialisation' % g, where=['%s at %s' % (n, '%s:%s' % m.loc(dbg.group(1)) if dbg and m.loc(dbg.group(1)) else '?')], key='%s %s' % (g, n)))
    return dict(rule='library-wide state', instances=len(defs), min_instances=100, violations=viol, stores_examined=stores,
                mutable_globals=sorted(mutable)[:60], initialisers=sorted(init)[:60], text=library_state.__doc__)
