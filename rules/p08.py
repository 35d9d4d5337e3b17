from check_life import *
from guards import Guards, State, BAD, mentions
from facts import fn_nodes, walk
IRF = 'sdsl::is_ram_file'
OS_CTOR = ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream')
OS_OPEN = ('std::basic_ifstream::open', 'std::basic_ofstream::open', 'std::basic_fstream::open', 'std::basic_filebuf::open')
OS_CALL = {'open': (0,), 'openat': (1,), 'creat': (0,), 'fopen': (0,), 'freopen': (0,), 'stat': (0,), 'lstat': (0,), 'access': (0,), 'remove': (0,), 'unlink': (0,), 'rmdir': (0,), 'mkdir': (0,), 'truncate': (0,), 'rename': (0, 1), 'link': (0, 1), 'symlink': (0, 1), 'mkstemp': (0,), 'mkstemps': (0,), 'mkdtemp': (0,), 'opendir': (0,), 'chmod': (0,)}
RAM_FS = 'sdsl::ram_fs::'
RAM_CALL = {'store': (0,), 'exists': (0,), 'file_size': (0,), 'content': (0,), 'remove': (0,), 'rename': (0, 1)}

class Names:
    def __init__(s, F):
        s.F = F; s.G = Guards(F); s.cache = {}; s.callers = {}; s.mdefs = {}; s.rets = {}
        for f in F.functions.values():
            for n in fn_nodes(f):
                u = n[4] if n[0] == 'opcall' else n[3] if n[0] in ('call', 'mcall', 'ctor') else None
                if u: s.callers.setdefault(u, {})[f['id']] = f
                if n[0] == 'asg' and n[4] is not None and n[4][0] == 'mem' or n[0] == 'opcall' and n[3] == '=' and n[6] and n[6][0] is not None and n[6][0][0] == 'mem':
                    m = n[4] if n[0] == 'asg' else n[6][0]
                    s.mdefs.setdefault((m[6], m[4]), {})[f['id']] = f
            for i in f.get('inits') or []:
                if 'f' in i and f.get('cls'): s.mdefs.setdefault((f['cls'], i['f']), {})[f['id']] = f
    def events(s, f):
        """(nodes with states, definitions of locals and members)"""
        if f['id'] in s.cache: return s.cache[f['id']]
        ev = []; defs = {}
        def visit(n, st):
            if n[0] in ('call', 'mcall', 'ctor', 'opcall', 'cast', 'ret', 'new'): ev.append((n, st))
            if n[0] == 'asg' and n[3] == '=': defs.setdefault(s.G.key(n[4]), []).append((n[5], st))
            if n[0] == 'opcall' and n[3] == '=': defs.setdefault(s.G.key(n[6][0]), []).append((n[6][1], st))
            if n[0] == 'opcall' and n[3] == '+=': pass            # appends: the first character stays
            if n[0] == 'call' and n[4] in ('sprintf', 'snprintf', 'std::sprintf', 'std::snprintf'):
                a = n[5][1:] if n[4].endswith('::sprintf') or n[4] == 'sprintf' else n[5][2:]
                defs.setdefault(s.G.key(n[5][0]), []).append((('fmt', a), st))
            if n[0] == 'call' and n[4] in ('strcpy', 'strncpy', 'std::strcpy', 'std::strncpy'): defs.setdefault(s.G.key(n[5][0]), []).append((n[5][1], st))
        G = s.G
        old = G.assign
        def assign(p, rhs, st):
            if rhs is not None and p[0] == 'v' and rhs[0] != 'init': defs.setdefault(p, []).append((rhs, st.copy()))
            return old(p, rhs, st)
        G.assign = assign
        try: G.walk_function(f, visit)
        finally: G.assign = old
        s.cache[f['id']] = (ev, defs)
        return ev, defs
    def params(s, f): return {p[0]: i for i, p in enumerate(f['params'])}
    # is the name of the wanted kind?  -> set of path obligations, or None if not
    def ok(s, e, ram, f, st, d=0, busy=frozenset()):
        if e is None or d > 12: return None
        k = e[0]
        if k == 'fmt':
            a = e[1]
            if not a: return None
            t = s.text(a[0])
            if t is None: return None
            if t.startswith('%s'): return s.ok(a[1], ram, f, st, d + 1, busy) if len(a) > 1 else None
            return set() if bool(t[:1] == '@') == ram and t and t[0] != '%' else None
        if k in ('cast', 'defarg', 'definit'): return s.ok(e[4] if k == 'cast' else e[3], ram, f, st, d + 1, busy)
        t = s.text(e)
        if t is not None: return set() if (t[:1] == '@') == ram else None
        if k == 'cond':
            a = s.ok(e[4], ram, f, s.G.assume(e[3], True, st) or st, d + 1, busy); b = s.ok(e[5], ram, f, s.G.assume(e[3], False, st) or st, d + 1, busy)
            return None if a is None or b is None else a | b
        kk = s.G.key(e, st)
        if kk != BAD and st is not None:
            v = st.facts.get(('c', IRF, kk))
            if v is not None: return set() if v == ram else None
        if k == 'ctor':
            a = [x for x in e[4] if x is not None and x[0] != 'defarg']
            if a and (e[2].get('tn') or '').startswith('std::basic_string'): return s.ok(a[0], ram, f, st, d + 1, busy)
            return None
        if k == 'mcall' and e[4].rsplit('::', 1)[-1] in ('c_str', 'data', 'str'): return s.ok(e[5], ram, f, st, d + 1, busy)
        if k == 'opcall' and e[3] == '+':
            a = s.ok(e[6][0], ram, f, st, d + 1, busy)
            if ram: return a
            if a is None: return None
            if s.nonempty(e[6][0]): return a
            b = s.ok(e[6][1], ram, f, st, d + 1, busy)
            return a | b if b is not None else None
        if k == 'call':
            n = e[4]
            if n in ('std::move', 'std::forward', '__builtin_expect'): return s.ok(e[5][0], ram, f, st, d + 1, busy)
            if n == 'sdsl::disk_file_name': return None if ram else set()
            if n == 'sdsl::ram_file_name': return set() if ram else None
            if n in ('std::to_string', 'sdsl::util::to_string'): return None if ram else set()
        if k in ('call', 'mcall'):
            g = s.F.fn(e[3], f.get('tu')) if e[3] else None
            if g is None or g['body'] is None or g['id'] in busy: return None
            ev, _ = s.events(g); res = set()
            for n, st2 in ev:
                if n[0] != 'ret': continue
                o = s.ok(n[2], ram, g, st2, d + 1, busy | {g['id']})
                if o is None: return None
                for p in o:
                    a = s.bind(p, g, e)
                    if a is None: return None
                    o2 = s.okpath(a, ram, f, st, d + 1, busy)
                    if o2 is None: return None
                    res |= o2
            return res
        if kk == BAD: return None
        return s.path(kk, ram, f, st, d, busy, e)
    def okpath(s, a, ram, f, st, d, busy):
        """a: expression node or path"""
        if isinstance(a, tuple) and a and a[0] in ('v', 'f', 'g', 'this'):
            v = st.facts.get(('c', IRF, a)) if st is not None else None
            if v is not None: return set() if v == ram else None
            return s.path(a, ram, f, st, d, busy)
        return s.ok(a, ram, f, st, d, busy)
    def path(s, kk, ram, f, st, d, busy, e=None):
        P = s.params(f)
        if kk[0] == 'v':
            ev, defs = s.events(f)
            ds = defs.get(kk, [])
            if kk[1] in P and not ds: return {kk}
            if (f['id'], kk) in busy: return set()
            res = {kk} if kk[1] in P else set()
            if not ds and kk[1] not in P: return None
            for x, st2 in ds:
                o = s.ok(x, ram, f, st2, d + 1, busy | {(f['id'], kk)})
                if o is None: return None
                res |= o
            return res
        if kk[0] == 'f' and kk[1] == ('this',) and f.get('cls'):
            # a member: every assignment in the program has to be of the kind; otherwise the callers have to know
            key = (f['cls'], kk[2])
            if key in busy: return set()
            fs = s.mdefs.get(key)
            if fs:
                good = True
                for g in fs.values():
                    ev, defs = s.events(g)
                    ds = list(defs.get(('f', ('this',), kk[2]), []))
                    if g.get('defaulted'): continue
                    for i in g.get('inits') or []:
                        if i.get('f') == kk[2] and g.get('cls') == f['cls']: ds.append((i['e'], State()))
                    for x, st2 in ds:
                        if x is not None and x[0] == 'mem' and x[4] == kk[2]: continue     # from another object of the class
                        if x is not None and s.other(x, kk[2]): continue
                        o = s.ok(x, ram, g, st2, d + 1, busy | {key})
                        if o is None or o: good = False
                if good and any(True for _ in fs): return set()
            return {kk}
        if kk[0] in ('f', 'v'): return {kk}
        return None
    def other(s, x, m):
        while x is not None and (x[0] in ('cast',) or x[0] == 'call' and x[4] in ('std::move', 'std::forward') or x[0] == 'ctor' and len(x[4]) == 1):
            x = x[4] if x[0] == 'cast' else x[5][0] if x[0] == 'call' else x[4][0]
        return x is not None and x[0] == 'mem' and x[4] == m
    def bind(s, p, g, call):
        """path of the callee in terms of the caller"""
        P = s.params(g)
        ar = call[6] if call[0] == 'mcall' else call[5] if call[0] == 'call' else call[4] if call[0] == 'ctor' else call[6][1:]
        if p[0] == 'v': 
            i = P.get(p[1])
            return ar[i] if i is not None and i < len(ar) else None
        if p[0] == 'f' and p[1] == ('this',):
            o = call[5] if call[0] == 'mcall' else None
            if o is None: return None
            b = s.G.key(o)
            return ('f', b, p[2]) if b != BAD else None
        return None
    def text(s, e):
        while e is not None and e[0] in ('cast', 'defarg', 'definit'): e = e[4] if e[0] == 'cast' else e[3]
        if e is not None and e[0] == 'ctor' and (e[2].get('tn') or '').startswith('std::basic_string'):
            a = [x for x in e[4] if x is not None and x[0] != 'defarg']
            if not a: return ''
            if len(a) == 1: return s.text(a[0])
        return str(e[3]) if e is not None and e[0] == 'str' else None
    def nonempty(s, e):
        while e is not None and (e[0] in ('cast',) or e[0] == 'ctor' and e[4]): e = e[4] if e[0] == 'cast' else e[4][0]
        if e is None: return False
        if e[0] == 'str': return len(str(e[3])) > 0
        if e[0] == 'call' and e[4] in ('std::to_string', 'sdsl::util::to_string'): return True
        if e[0] == 'opcall' and e[3] == '+': return any(s.nonempty(x) for x in e[6])
        return False

def sinks(n):
    """[(argument, wants a RAM name)] of a call"""
    if n[0] == 'ctor' and (n[2].get('tn') or '') in OS_CTOR and n[4]:
        a = n[4][0]
        if a is not None and a[2]['k'] == 'rec' and not (a[2].get('tn') or '').startswith('std::basic_string'): return []
        return [(a, False)] if a is not None and a[2]['k'] in ('ptr', 'rec', 'arr') else []
    if n[0] == 'mcall' and n[4] in OS_OPEN: return [(n[6][0], False)]
    if n[0] == 'call':
        if n[4] in OS_CALL: return [(n[5][i], False) for i in OS_CALL[n[4]] if i < len(n[5])]
        if n[4].startswith('std::') and n[4][5:] in ('fopen', 'remove', 'rename', 'freopen'):
            return [(n[5][i], False) for i in OS_CALL[n[4][5:]] if i < len(n[5]) and n[5][i][2]['k'] in ('ptr', 'arr')]
        if n[4].startswith(RAM_FS) and n[4][len(RAM_FS):] in RAM_CALL: return [(n[5][i], True) for i in RAM_CALL[n[4][len(RAM_FS):]] if i < len(n[5])]
    if n[0] == 'mcall':
        if n[4].startswith(RAM_FS) and n[4][len(RAM_FS):] in RAM_CALL: return [(n[6][i], True) for i in RAM_CALL[n[4][len(RAM_FS):]] if i < len(n[6])]
        if n[4] == 'sdsl::ram_filebuf::open': return [(n[6][0], True)]
    return []
def run():
    rep = Report('P08')
    rep.rule = 'a name reaches an operating system call only where it cannot start with @, and reaches the in-memory file system only where it does; a stream buffer is used as the kind it was created as'
    F = load_facts(); N = Names(F); seen = {}
    def where(f, n): return '%s:%d' % (rel(f['file']), n[1])
    def settle(f, n, arg, ram, d=0, path=(), st=None):
        """None if proven, else text"""
        o = N.ok(arg, ram, f, st) if not (isinstance(arg, tuple) and arg[0] in ('v', 'f', 'g')) else N.okpath(arg, ram, f, st, 0, frozenset())
        if o is None: return ' -> '.join(path + (where(f, n),))
        for p in o:
            cs = N.callers.get(f['id'], {})
            if not cs or d > 5: return ' -> '.join(path + (where(f, n),)) + ' (%s is used as it is)' % p[-1]
            for g in cs.values():
                ev, _ = N.events(g)
                for m, st2 in ev:
                    u = m[4] if m[0] == 'opcall' else m[3] if m[0] in ('call', 'mcall', 'ctor') else None
                    if u != f['id']: continue
                    a = N.bind(p, f, m)
                    if a is None:
                        return ' -> '.join(path + (where(f, n),))
                    r = settle(g, m, a, ram, d + 1, path + (where(f, n),), st2)
                    if r: return r
        return None
    for f in list(F.functions.values()):
        if not any(sinks(n) for n in fn_nodes(f) if n[0] in ('call', 'mcall', 'ctor')): continue
        c = F.records.get(f.get('cls')); cn = c['tn'] if c else ''
        inner = cn in ('sdsl::ram_fs', 'sdsl::ram_filebuf')
        ev, _ = N.events(f)
        done = set()
        for n, st in ev:
            for i, (arg, ram) in enumerate(sinks(n)):
                if ram and inner: rep.count('accesses inside the in-memory file system'); continue
                rep.count('in-memory file system call sites' if ram else 'operating system call sites')
                r = settle(f, n, arg, ram, st=st)
                rep.ob(not r)
                if r: rep.violation('%s %s' % (where(f, n), 'ram' if ram else 'os'), '%s: %s passes a name that may %sstart with @ to %s (%s)' % (where(f, n), f['qn'], 'not ' if ram else '', n[4] if n[0] != 'ctor' else n[2].get('tn'), r))
    buffers(rep, F, N)
    rep.floor('operating system call sites', 8); rep.floor('in-memory file system call sites', 4); rep.floor('buffer uses', 8)
    return rep.finish()
def derived(t): return t['pt'].get('tn') if t['k'] == 'ptr' and t.get('pt') else None
def buffers(rep, F, N):
    """members of pointer-to-base type that receive objects of several classes: downcasts need the condition of the creation"""
    made = {}; casts = []; namew = {}
    for f in F.functions.values():
        if not any(n[0] in ('new', 'cast') and n[2]['k'] == 'ptr' for n in fn_nodes(f)): continue
        c = F.records.get(f.get('cls'))
        if c is None or not c['tn'].endswith('fstream'): continue
        for n, st in N.events(f)[0]:
            if n[0] == 'cast' and n[3] == 'BaseToDerived':
                k = N.G.key(n[4], st)
                if k[0] == 'f' and k[1] == ('this',): casts.append((f, n, k[2], derived(n[2]), st))
        for k, ds in N.events(f)[1].items():
            if k[0] == 'f' and k[1] == ('this',):
                for x, st in ds:
                    y = x
                    while y is not None and y[0] == 'cast': y = y[4]
                    if y is not None and y[0] == 'new': made.setdefault((f['cls'], k[2]), []).append((derived(y[2]), st, f, y[1]))
    for f, n, m, cls, st in casts:
        mk = made.get((f['cls'], m), [])
        if not mk: continue
        rep.count('buffer uses')
        def cond(st2):
            out = {}
            for k, v in st2.facts.items():
                # the condition in terms of members: undo copies m_file = file
                for p, q in st2.same.items():
                    if mentions(k, q): out[sub(k, q, p)] = v
                out[k] = v
            return out
        need = None; other = []
        for c, s2, g, l in mk:
            cs = set(cond(s2).items())
            if c == cls: need = cs if need is None else need & cs
            else: other.append(cs)
        def fine(f, st, d=0):
            for k, v in need or ():
                if all((k, not v) in o for o in other) and cond(st).get(k) == v and (not mentionsvar(k) or any(f['id'] == g['id'] for _, _, g, _ in mk)): return True
            # a helper: every caller has to know
            cs = N.callers.get(f['id'], {})
            if d > 3 or not cs: return False
            for g in cs.values():
                if g.get('cls') != f['cls']: return False
                for n2, s2 in N.events(g)[0]:
                    if n2[0] == 'mcall' and n2[3] == f['id'] and not (N.G.key(n2[5]) == ('this',) and fine(g, s2, d + 1)): return False
            return True
        good = fine(f, st)
        rep.ob(good)
        if not good: rep.violation('%s:%d cast' % (rel(f['file']), n[1]), '%s:%d: %s uses %s as %s without the condition under which it was created as such' % (rel(f['file']), n[1], f['qn'], m, cls))
def mentionsvar(k): return isinstance(k, tuple) and (k[:1] == ('v',) or any(mentionsvar(x) for x in k))
def sub(k, a, b):
    if k == a: return b
    if isinstance(k, tuple): return tuple(sub(x, a, b) if isinstance(x, tuple) else x for x in k)
    return k
if __name__ == '__main__': main(run, 'P08')
