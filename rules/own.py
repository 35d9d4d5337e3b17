"""Ownership of raw resources (memory blocks, mappings, descriptors) held by members and local variables.

Every acquisition creates an abstract resource; the engine follows which member or variable holds it on every path.
A resource must be released exactly once by the matching function: no path loses the last reference to a live one,
releases one twice, leaves a released one in a member, gives one to two owners, or releases it with the wrong function."""
import re
from common import *
from typestate import Flow, St, Out, strip, uniq
from guards import BAD
from facts import children, walk, fn_nodes

ACQ = {'malloc': 'malloc', 'calloc': 'malloc', 'strdup': 'malloc', 'open': 'fd', 'mkstemps': 'fd', 'mkstemp': 'fd', 'dup': 'fd', 'mmap': 'map', 'fopen': 'FILE', 'posix_memalign': 'malloc', 'aligned_alloc': 'malloc'}
REL = {'free': 'malloc', 'close': 'fd', 'munmap': 'map', 'fclose': 'FILE'}
REALLOC = {'realloc': 'malloc'}
PRIM_ACQ = {'sdsl::memory_manager::alloc_mem': 'mm'}
PRIM_REL = {'sdsl::memory_manager::free_mem': 'mm'}
PRIM_REALLOC = {'sdsl::memory_manager::realloc_mem': 'mm'}
HUGE = {'mm_alloc': 'a', 'mm_free': 'r', 'mm_realloc': 'x'}
NEVERNULL = {'new', 'new[]'}
NAMES = {'new': 'new', 'new[]': 'new[]', 'malloc': 'malloc/calloc', 'fd': 'open', 'map': 'mmap', 'FILE': 'fopen', 'mm': 'memory_manager', 'huge': 'the huge page allocator'}
CONTAINER = re.compile(r'(push|push_back|push_front|emplace|emplace_back|insert|reset|unique_ptr|shared_ptr|swap|operator=)$')

def peel(e):
    while e is not None:
        if e[0] == 'cast': e = e[4]
        elif e[0] in ('defarg', 'definit'): e = e[3]
        else: return e
    return e
def prim(e):
    """('a'|'r'|'x', family) of a primitive operation"""
    if e is None: return None
    if e[0] == 'new': return ('a', 'new[]' if e[6] else 'new')
    if e[0] == 'del': return ('r', 'new[]' if e[3] else 'new')
    if e[0] == 'call':
        n = e[4]
        if n in PRIM_ACQ: return ('a', PRIM_ACQ[n])
        if n in PRIM_REL: return ('r', PRIM_REL[n])
        if n in PRIM_REALLOC: return ('x', PRIM_REALLOC[n])
        if n.startswith('sdsl::'): return None
        b = n.rsplit('::', 1)[-1]
        if b in ACQ: return ('a', ACQ[b])
        if b in REL: return ('r', REL[b])
        if b in REALLOC: return ('x', REALLOC[b])
    if e[0] == 'mcall' and e[4].startswith('sdsl::hugepage_allocator::'):
        b = e[4].rsplit('::', 1)[-1]
        if b in HUGE: return (HUGE[b], 'huge')
    return None

def nullish(e):
    e = peel(e)
    if e is None: return False
    if e[0] == 'null': return True
    if e[0] == 'int': return str(e[3]) in ('-1', '0', str(2**64 - 1), str(2**32 - 1))
    if e[0] == 'un' and e[3] == '-': x = peel(e[4]); return x is not None and x[0] == 'int' and str(x[3]) == '1'
    return False

class Model:
    """which fields own, which functions are relevant"""
    def __init__(s, F, skip):
        s.F = F; s.skip = skip
        s.wrap = {}          # functions returning an acquired resource
        s.fns = [f for f in F.functions.values() if f['qn'].startswith('sdsl::') and not f.get('lambda') and not skip(f) and (f['body'] is not None or f.get('inits'))]
        ch = True
        while ch:
            ch = False
            for f in s.fns:
                if f['id'] in s.wrap or f['qn'] in PRIM_ACQ or f['qn'] in PRIM_REALLOC or f['body'] is None or f['ret']['k'] not in ('ptr', 'int'): continue
                for n in fn_nodes(f):
                    if n[0] == 'ret' and n[2] is not None:
                        a = s.acquire(n[2]) or s.local_acquire(f, n[2])
                        if a: s.wrap[f['id']] = a; ch = True; break
        s.owned = {}
        for f in s.fns:
            for i in f.get('inits') or []:
                if i['e'] is not None and f.get('cls') and i.get('f'):
                    a = s.acquire(i['e'])
                    if a: s.owned[(f['cls'], i['f'])] = a
            for n in fn_nodes(f):
                if n[0] == 'asg' and n[3] == '=':
                    l = peel(n[4])
                    if l is not None and l[0] == 'mem':
                        a = s.acquire(n[5]) or s.local_acquire(f, n[5])
                        if a: s.owned[(l[6], l[4])] = a
        s.classes = {}
        for (c, fl), a in s.owned.items(): s.classes.setdefault(c, {})[fl] = a
        # objects that have members of such classes and touch their fields
        s.nested = {}
        for f in s.fns:
            for n in fn_nodes(f):
                if n[0] == 'mem' and (n[6], n[4]) in s.owned:
                    b = peel(n[3])
                    if b is not None and b[0] == 'mem' and f.get('cls') and b[6] == f['cls'] and s.iswrite(f):
                        s.nested.setdefault(f['cls'], {})[(b[4], n[4])] = s.owned[(n[6], n[4])]
        for c in list(s.nested):
            if c not in s.classes: del s.nested[c]
    def iswrite(s, f): return True
    def acquire(s, e, d=0):
        e = peel(e)
        if e is None: return None
        if e[0] == 'cond': return s.acquire(e[4]) or s.acquire(e[5])
        p = prim(e)
        if p and p[0] in 'ax': return p[1]
        if e[0] in ('call', 'mcall') and e[3] in s.wrap: return s.wrap[e[3]]
        return None
    def local_acquire(s, f, e):
        e = peel(e)
        if e is None or e[0] != 'ref' or e[3] != 'var': return None
        for n in fn_nodes(f):
            if n[0] == 'decl':
                for b in n[2]:
                    if b[0] == e[4] and b[3] is not None: 
                        a = s.acquire(b[3])
                        if a: return a
            if n[0] == 'asg' and n[3] == '=':
                l = peel(n[4])
                if l is not None and l[0] == 'ref' and l[4] == e[4]:
                    a = s.acquire(n[5])
                    if a: return a
        return None
    def direct(s, f):
        """does f itself acquire, release or write an owned field?"""
        for n in fn_nodes(f):
            if prim(n): return True
            if n[0] in ('call', 'mcall') and n[3] in s.wrap: return True
            if n[0] == 'asg':
                l = peel(n[4])
                if l is not None and l[0] == 'mem' and (l[6], l[4]) in s.owned: return True
            if n[0] == 'call' and n[4] in ('std::swap', 'std::exchange'):
                for a in n[5]:
                    l = peel(a)
                    if l is not None and l[0] == 'mem' and (l[6], l[4]) in s.owned: return True
        return False

class Own(Flow):
    LIMIT = 300
    def __init__(s, M):
        Flow.__init__(s, M.F); s.M = M; s.out = []; s.depth = 0; s.stack = []; s.reach = {}; s.checks = 0
    # ------------------------------------------------------------ helpers
    def say(s, line, what, key):
        k = (s.f['qn'], rel(s.f['file']), line, what, key)
        if k not in s.out: s.out.append(k)
    def fresh(s, st, fam, maybe, old=None):
        n = 0
        while ('res', n) in st.d: n += 1
        return n, st.set(('res', n), (fam, 'live', maybe, old))
    def refs(s, st, n): return [k for k, v in st.d.items() if isinstance(k, tuple) and k[0] in ('val', 'tmp') and v == ('R', n)]
    def gc(s, st, line, why='is lost'):
        """resources without a reference"""
        for k, v in list(st.d.items()):
            if isinstance(k, tuple) and k[0] == 'res':
                n = k[1]
                if s.refs(st, n): continue
                if any(isinstance(q, tuple) and q[0] == 'res' and x[3] == n for q, x in st.d.items()): continue
                s.checks += 1
                if v[1] == 'live':
                    if v[0] == 'mm' and v[2] or v[2] == 'init?': pass
                    s.say(line, 'the only reference to a resource from %s %s' % (NAMES[v[0]], why), '%s %s' % (v[0], why))
                st = st.drop(k)
                st = st.drop_if(lambda q, x: isinstance(q, tuple) and q[0] in ('val', 'tmp') and x == ('A', n))
        return st
    def val(s, e, st):
        """value of an expression"""
        e0 = e; e = peel(e)
        if e is None: return ('unk',)
        t = st.get(('tmp', id(e)))
        if t is not None: return t
        if nullish(e) and (e[0] == 'null' or e[2]['k'] != 'ptr' or True) and (e[0] == 'null' or e0[2]['k'] == 'ptr' or str(e[3]) != '0'): return ('null',)
        if e[0] in ('ref', 'mem'): return st.get(('val', s.G.key(e)), ('unk',))
        if e[0] == 'cond':
            v = [x for x in (s.val(e[4], st), s.val(e[5], st)) if x[0] == 'R']
            return v[0] if len(v) == 1 else ('unk',)
        if e[0] == 'bin' and e[3] in ('+', '-'):
            for a in (e[4], e[5]):
                v = s.val(a, st)
                if v[0] in 'RA': return ('A', v[1])
        if e[0] == 'call' and e[4] == 'std::exchange' : return ('unk',)
        if e[0] == 'asg' and e[3] == '=': return s.val(e[4], st)
        return ('unk',)
    def tracked(s, e):
        """lhs that can hold a resource"""
        x = peel(e)
        if x is None: return None
        if x[0] == 'mem':
            if (x[6], x[4]) in s.M.owned:
                k = s.G.key(x)
                return k if k != BAD else None
            return None
        if x[0] == 'ref' and x[3] in ('var', 'param'): return ('v', x[4])
        return None
    def kill(s, p, st): return Flow.kill(s, p, st)
    def store(s, key, v, st, line):
        old = st.get(('val', key))
        st = st.set(('val', key), v) if v != ('unk',) or old is not None else st
        return s.gc(st, line) if old is not None and old[0] == 'R' and old != v else st
    def droptmp(s, st, e=None):
        return st.drop_if(lambda k, v: isinstance(k, tuple) and k[0] == 'tmp')
    def escape(s, v, st):
        if v[0] == 'R':
            n = v[1]
            r = st.get(('res', n))
            if r is None: return st
            return st.drop(('res', n)).drop_if(lambda k, x: isinstance(k, tuple) and k[0] in ('tmp',) and x[0] in 'RA' and x[1] == n).__class__({k: (('unk',) if isinstance(k, tuple) and k[0] == 'val' and v2[0] in 'RA' and v2[1] == n else v2) for k, v2 in st.d.items() if k != ('res', n) and not (isinstance(k, tuple) and k[0] == 'tmp' and v2[0] in 'RA' and v2[1] == n)})
        return st
    # ------------------------------------------------------------ primitives
    def release(s, fam, a, st, line):
        v = s.val(a, st)
        if v[0] == 'A':
            if ('res', v[1]) in st.d: s.checks += 1; s.say(line, 'memory inside of another resource is released', 'alias')
            return st
        if v[0] != 'R': return st
        n = v[1]; r = st.get(('res', n)); s.checks += 1
        if r[1] == 'dead':
            s.say(line, 'a resource is released twice', 'twice ' + r[0]); return st
        ok = r[0] == fam or r[0] == 'mm' and (fam == 'huge' and st.get('huge') is True or fam == 'malloc' and st.get('huge') is False)
        if not ok: s.say(line, 'a resource from %s is released by the function for %s' % (NAMES[r[0]], NAMES[fam]), 'family %s %s' % (r[0], fam))
        return st.set(('res', n), (r[0], 'dead', r[2], r[3]))
    def do_prim(s, p, e, st):
        kind, fam = p; line = e[1]
        if kind == 'a':
            if s.f['qn'] in PRIM_ACQ and fam in ('huge', 'malloc'):
                s.checks += 1
                if (fam == 'huge') != (st.get('huge') is True): s.say(line, 'memory is taken from %s' % NAMES[fam], 'wrong allocator')
                fam = 'mm'
            n, st = s.fresh(st, fam, fam not in NEVERNULL)
            return [st.set(('tmp', id(e)), ('R', n))]
        a = (e[4] if e[0] == 'del' else e[5][0] if e[0] == 'call' else e[6][0])
        if kind == 'r': return [s.release(fam, a, st, line)]
        # realloc: the new block replaces the old one, or fails and leaves it
        v = s.val(a, st); old = None
        if v[0] == 'R':
            n = v[1]; r = st.get(('res', n)); s.checks += 1
            if r[1] == 'dead': s.say(line, 'a released resource is used', 'use after release')
            elif r[0] != fam and not (r[0] == 'mm' and (fam == 'huge') == (st.get('huge') is True)): s.say(line, 'a resource from %s is resized by the function for %s' % (NAMES[r[0]], NAMES[fam]), 'family')
            old = n; st = st.set(('res', n), (r[0], 'dead', r[2], r[3])); nf = r[0]
        else: nf = 'mm' if s.f['qn'] in PRIM_REALLOC else fam
        n, st = s.fresh(st, nf, fam == 'malloc', old if fam == 'malloc' else None)
        return [st.set(('tmp', id(e)), ('R', n))]
    # ------------------------------------------------------------ conditions
    def nsplit(s, e, st):
        """test of a pointer or descriptor: (state, valid?)"""
        v = s.val(e, st); x = peel(e)
        if v[0] == 'null': return [(st, False)]
        if v[0] == 'A': return [(st, True)]
        if v[0] == 'R':
            r = st.get(('res', v[1]))
            if not r[2]: return [(st, True)]
            good = st.set(('res', v[1]), (r[0], r[1], False, None))
            d = {}
            for k, w in st.d.items():
                if k == ('res', v[1]): continue
                if isinstance(k, tuple) and k[0] in ('val', 'tmp') and w[0] in 'RA' and w[1] == v[1]: w = ('null',)
                d[k] = w
            bad = St(d)
            if r[3] is not None and ('res', r[3]) in bad.d:
                o = bad.get(('res', r[3])); bad = bad.set(('res', r[3]), (o[0], 'live', o[2], o[3]))
            good = s.gc(good, e[1])
            return [(good, True), (bad, False)]
        k = s.tracked(e)
        if k is not None and s.holder(k): return [(st, True), (st.set(('val', k), ('null',)), False)]
        return None
    def holder(s, k): return True
    def atom(s, e, st):
        k = e[0]
        if k == 'cast' and 'PointerToBoolean' in str(e[3]):
            x = e[4]
            if prim(peel(x)) or peel(x)[0] in ('call', 'mcall'):
                r = []
                for y in s.ev(x, [st]): r += s.nsplit(x, y) or [(y, True), (y, False)]
                return r
            return s.nsplit(x, st)
        if k == 'bin' and e[3] in ('==', '!=', '<', '>=', '>'):
            for a, b in ((e[4], e[5]), (e[5], e[4])):
                if s.isnullc(b) and peel(a) is not None and peel(a)[0] == 'call' and peel(a)[4].rsplit('::', 1)[-1] in ('memcpy', 'memmove', 'memset') and e[3] in ('==', '!='):
                    return [(y, e[3] == '!=') for y in s.ev(a, [st])]
            for a, b in ((e[4], e[5]), (e[5], e[4])):
                if s.isnullc(b) and (a[2]['k'] == 'ptr' or s.val(a, st)[0] in ('R', 'null') and s.isfd(a, st)):
                    sts = [st]
                    if peel(a)[0] in ('call', 'mcall', 'asg'): sts = s.ev(a, [st]); 
                    r = []
                    for y in sts:
                        z = s.nsplit(a, y)
                        if z is None: return None
                        r += [(q, t == (e[3] in ('!=', '>=', '>'))) for q, t in z]
                    return r
            # this != &other: distinct objects are analysed
            ks = {s.G.key(e[4]), s.G.key(e[5])}
            if ('this',) in ks and e[3] in ('==', '!=') and e[4][2]['k'] == 'ptr': return [(st, e[3] == '!=')]
        if k == 'mcall' and e[4].endswith('::in_address_space'):
            if st.get('huge') is not None: return [(st, st.get('huge'))]
            return [(st.set('huge', True), True), (st.set('huge', False), False)]
        if k == 'mem' and e[4] == 'hugepages':
            if s.f['qn'] in PRIM_ACQ: return [(st.set('huge', True), True), (st.set('huge', False), False)]
            return [(st, True), (st.set('huge', False), False)]
        return None
    def isnullc(s, e):
        x = peel(e)
        if x is None: return False
        if nullish(e): return True
        return x[0] == 'call' and False
    def isfd(s, a, st):
        v = s.val(a, st)
        return v[0] == 'null' or st.get(('res', v[1]), ('',))[0] == 'fd'
    # ------------------------------------------------------------ nodes
    def on_decl(s, b, st):
        if b[3] is None: return [st]
        t = b[2]
        if t.get('k') in ('ptr', 'int', 'ref', 'rref') or t.get('k') == 'rec' and False:
            v = s.val(b[3], st)
            if t.get('k') in ('ref', 'rref') or t.get('ref'): return [s.droptmp(st)]
            if v[0] == 'R' or t.get('k') == 'ptr':
                if t.get('k') == 'int' and st.get(('res', v[1]), ('',))[0] != 'fd': return [st]
                st = st.set(('val', ('v', b[0])), v)
            return [s.droptmp(st)]
        if t.get('k') == 'rec' and t.get('rec') in s.M.classes and s.track_locals(b):
            r = []
            i = peel(b[3])
            s.objs[('v', b[0])] = t['rec']
            for x in s.objects(st, t['rec'], ('v', b[0]), True): r.append(s.droptmp(x))
            return r or [st]
        return [st]
    def track_locals(s, b):
        for n in fn_nodes(s.f):
            if n[0] == 'mem' and (n[6], n[4]) in s.M.owned:
                x = peel(n[3])
                if x is not None and x[0] == 'ref' and x[3] == 'var' and x[4] == b[0]: return True
        return False
    def on_assign(s, lhs, rhs, st, node=None):
        k = s.tracked(lhs)
        if k is None:
            v = s.val(rhs, st)
            x = peel(lhs)
            # stored somewhere else: handed over
            if v[0] == 'R' and node is None: st = s.escape(v, st)
            return [s.droptmp(st)]
        if node is not None: return [s.droptmp(st)]
        v = s.val(rhs, st)
        if peel(lhs)[0] == 'ref' and lhs[2].get('k') not in ('ptr', 'int'): return [st]
        if peel(lhs)[0] == 'ref' and v[0] == 'R' and lhs[2].get('k') == 'int' and st.get(('res', v[1]), ('',))[0] != 'fd': return [st]
        st = s.store(k, v, st, lhs[1])
        return [s.droptmp(st)]
    def on_init(s, i, st):
        if i['e'] is not None and i['e'][0] == 'ctor' and not i.get('f') and i['e'][3] != s.f['id']:    # delegating constructor
            g = s.F.fn(i['e'][3], s.f.get('tu'))
            if g is not None and g.get('cls') == s.f.get('cls') and s.inlinable(g):
                return s.inline(g, i['e'], ['this', s.f['line'], {'k': 'ptr'}], list(i['e'][4]), st)
        if i.get('f') and (s.f.get('cls'), i['f']) in s.M.owned:
            st = st.set(('val', ('f', ('this',), i['f'])), s.val(i['e'], st))
        return [s.droptmp(st)]
    def on_node(s, e, st):
        p = prim(e)
        if p: return s.do_prim(p, e, st)
        k = e[0]
        if k in ('idx',) or k == 'un' and e[3] == '*' or k == 'mem' and e[3] is not None and e[3][2].get('k') == 'ptr':
            b = e[3] if k in ('idx', 'mem') else e[4]
            x = peel(b)
            if x is not None and x[0] in ('mem', 'ref') and s.tracked(x):
                v = st.get(('val', s.tracked(x)))
                if v is not None and v[0] in 'RA' and ('res', v[1]) in st.d:
                    s.checks += 1
                    if st.get(('res', v[1]))[1] == 'dead': s.say(e[1], 'a released resource is used', 'use after release')
            return [st]
        if k == 'call' and e[4] == 'std::swap' and len(e[5]) == 2:
            a, b = s.tracked(e[5][0]), s.tracked(e[5][1])
            if a and b:
                x, y = st.get(('val', a), ('unk',)), st.get(('val', b), ('unk',))
                return [st.set(('val', a), y).set(('val', b), x)]
            return [st]
        if k in ('call', 'mcall', 'opcall', 'ctor'): return s.call(e, st)
        return [st]
    def call(s, e, st):
        k = e[0]
        if k == 'opcall': u, n, ar = e[4], e[5], list(e[6]); obj = None
        elif k == 'mcall': u, n, ar = e[3], e[4], list(e[6]); obj = e[5]
        elif k == 'call': u, n, ar = e[3], e[4], list(e[5]); obj = None
        else: u, n, ar = e[3], '', list(e[4]); obj = None
        g = s.F.fn(u, s.f.get('tu')) if u else None
        if g is not None and k == 'opcall' and g.get('cls') and not g.get('static'): obj = ar[0]; ar = ar[1:]
        if g is not None and k != 'ctor' and s.inlinable(g) and s.concerns(g, obj, ar, st):
            return s.inline(g, e, obj, ar, st)
        for a in ar:
            if a is None: continue
            v = s.val(a, st)
            if v[0] == 'R' and a[2].get('k') in ('ptr', 'int'):
                i = ar.index(a)
                if g is not None and s.borrows(g, i) and not (i < len(g['params']) and g['params'][i][2].get('k') in ('ref', 'rref') and not (g['params'][i][2].get('pt') or {}).get('c')): continue
                if g is None and not (k == 'ctor' or CONTAINER.search(n)): continue
                st = s.escape(v, st)
        # objects handed to functions that may change their fields
        return [st]
    def borrows(s, g, i):
        if g['body'] is None: return not g['kind'].startswith('ctor')
        if i >= len(g['params']): return True
        pid = g['params'][i][0]
        for n in fn_nodes(g):
            if n[0] in ('asg', 'ret', 'del', 'decl', 'ctor'):
                src = n[5] if n[0] == 'asg' else n[2] if n[0] == 'ret' else n[4] if n[0] == 'del' else None
                if n[0] == 'decl':
                    if any(b[3] is not None and peel(b[3])[0] == 'ref' and peel(b[3])[4] == pid and peel(b[3])[3] in ('var', 'param') for b in n[2]): return False
                    continue
                if n[0] == 'ctor':
                    if any(a is not None and peel(a)[0] == 'ref' and peel(a)[3] in ('var', 'param') and peel(a)[4] == pid for a in n[4]): return False
                    continue
                x = peel(src) if src is not None else None
                if x is not None and x[0] == 'ref' and x[3] in ('var', 'param') and x[4] == pid: return False
            if n[0] in ('call', 'mcall'):
                ar = n[5] if n[0] == 'call' else n[6]
                p = prim(n)
                if (p or (n[4] and CONTAINER.search(n[4])) or n[4].startswith('sdsl::')) and any(a is not None and peel(a)[0] == 'ref' and peel(a)[3] in ('var', 'param') and peel(a)[4] == pid for a in ar): return False
        for i2 in g.get('inits') or []:
            x = peel(i2['e'])
            if x is not None and x[0] == 'ref' and x[3] in ('var', 'param') and x[4] == pid: return False
        return True
    def inlinable(s, g):
        if g['body'] is None or g.get('lambda') or s.M.skip(g) or g['qn'] in PRIM_ACQ or g['qn'] in PRIM_REL or g['qn'] in PRIM_REALLOC: return False
        if g['id'] in s.stack or len(s.stack) > 4: return False
        return g['id'] in s.rel
    def known_object(s, key):
        """is the object under this key one whose owning members are followed?"""
        for k in s.objs:
            if key == k: return True
            if isinstance(key, tuple) and len(key) == 3 and key[0] == 'f' and key[1] == k and any(a == key[2] for a, b in s.M.nested.get(s.objs[k], ())): return True
        return False
    def concerns(s, g, obj, ar, st):
        if g['id'] in s.M.wrap: return True
        if obj is not None and not g.get('static'): return s.known_object(s.G.key(obj))
        for p, a in zip(g['params'], ar):
            if a is None: continue
            if s.val(a, st)[0] == 'R' and p[2].get('k') in ('ptr', 'int') and not s.borrows(g, g['params'].index(p)): return True
            if p[2].get('k') in ('ref', 'rref') and (p[2].get('pt') or {}).get('k') in ('ptr', 'int') and s.tracked(a) and s.val(a, st)[0] != 'unk': return True
            t = p[2]
            while t.get('k') in ('ref', 'rref', 'ptr') and t.get('pt'): t = t['pt']
            if t.get('rec') in s.M.classes and s.known_object(s.G.key(a)): return True
        return False
    def inline(s, g, e, obj, ar, st):
        """evaluate the body of g with the fields of this and of the arguments bound"""
        maps = []        # (callee root, caller path)
        if obj is not None and not g.get('static'):
            k = s.G.key(obj)
            if k != BAD: maps.append((('this',), k))
        binds = []
        for p, a in zip(g['params'], ar):
            if a is None: continue
            t = p[2]
            if t.get('k') in ('ptr', 'int') and not t.get('ref'):
                v = s.val(a, st)
                if v[0] != 'unk': binds.append((('v', p[0]), v))
                x = peel(a)
                if t.get('k') == 'ptr':
                    kk = s.G.key(a)
                    if kk != BAD and v[0] == 'unk': maps.append((('v', p[0]), kk))
            else:
                kk = s.G.key(a)
                if kk != BAD: maps.append((('v', p[0]), kk))
        def sub(path, frm, to):
            if path == frm: return to
            if isinstance(path, tuple) and path and path[0] == 'f':
                q = sub(path[1], frm, to)
                return ('f', q, path[2]) if q is not None else None
            return None
        d = {}
        for k, v in st.d.items():
            nk = None
            if isinstance(k, tuple) and k[0] == 'val':
                for root, path in sorted(maps, key=lambda m: -len(str(m[1]))):
                    q = sub(k[1], path, root)
                    if q is not None: nk = ('val', q); break
                if nk is None: nk = ('val', ('fr', k[1]))
            elif isinstance(k, tuple) and k[0] == 'res' or k == 'huge': nk = k
            elif isinstance(k, tuple) and k[0] == 'tmp': nk = ('val', ('fr', k))
            else: nk = ('fr', k)
            d[nk] = v
        for k, v in binds: d[('val', k)] = v
        c = St(d)
        sv = (s.f, s.thrown, s.rep_keys, s.objs)
        nobjs = {}
        for root, path in maps:
            cls = s.objs.get(path)
            if cls is None and path[0] == 'f' and path[1] in s.objs:
                R = s.F.records.get(s.objs[path[1]])
                for fd in (R['fields'] if R else []):
                    if fd['n'] == path[2]: cls = fd['t'].get('rec')
            if cls in s.M.classes: nobjs[root] = cls
        s.objs = nobjs
        s.stack.append(g['id'])
        o = Flow.run(s, g, c)
        s.stack.pop()
        s.f, s.thrown, s.rep_keys, s.objs = sv
        pids = {p[0] for p in g['params']}
        def back(x, rv, scope_line):
            d = {}
            for k, v in x.d.items():
                if isinstance(k, tuple) and k[0] == 'val':
                    q = k[1]
                    if isinstance(q, tuple) and q[0] == 'fr':
                        if isinstance(q[1], tuple) and q[1][0] == 'tmp': d[q[1]] = v
                        else: d[('val', q[1])] = v
                        continue
                    nk = None
                    for root, path in maps:
                        w = sub(q, root, path)
                        if w is not None: nk = ('val', w); break
                    if nk is not None: d[nk] = v
                elif isinstance(k, tuple) and k[0] == 'res': d[k] = v
                elif k == 'huge': pass
                elif isinstance(k, tuple) and k[0] == 'fr': d[k[1]] = v
            if 'huge' in st.d: d['huge'] = st.d['huge']
            y = St(d)
            if rv is not None and rv[0] in ('R', 'A', 'null'): y = y.set(('tmp', id(e)), rv)
            return s.gc(y, scope_line)
        r = []
        for n, x in o.ret: r.append(back(x, x.get('retv'), e[1]))
        for n, x in o.thr: s.thrown[-1].append((e, back(x, None, e[1])))
        return uniq(r)
    def stm(s, n, sts):
        if n is not None and n[0] == 'ret' and n[2] is not None:
            o = Out()
            for st in s.ev(n[2], sts):
                v = s.val(n[2], st)
                if n[2][2].get('k') in ('ptr', 'int'): st = st.set('retv', v)
                o.ret.append((n, st))
            return o
        r = Flow.stm(s, n, sts)
        if n is not None and n[0] not in ('block', 'decl', 'if', 'for', 'while', 'do', 'rfor', 'switch', 'try', 'case', 'default', 'label'):
            r.norm = [s.droptmp(x) for x in r.norm]
        return r
    def end_scope(s, b, o):
        def f(st, rv=None):
            k = ('v', b[0])
            if b[2].get('k') == 'rec':
                # destructor of a tracked local object
                ks = [q for q in st.d if isinstance(q, tuple) and q[0] == 'val' and s.root(q[1]) == k]
                for q in ks:
                    v = st.get(q)
                    if v[0] == 'R':
                        r = st.get(('res', v[1])); s.checks += 1
                        if r[1] == 'dead': s.say(s.f['line'], 'a local object still holds a released resource', 'dangling local')
                        else:
                            others = [z for z in s.refs(st, v[1]) if s.root(z[1]) != k and len(z[1]) == 3]
                            if others: s.say(s.f['line'], 'two objects own one resource', 'shared')
                            st = st.set(('res', v[1]), (r[0], 'dead', r[2], r[3]))
                    st = st.drop(q)
                return s.gc(st, s.f['line'])
            v = st.get(('val', k))
            if v is None: return st
            keep = st.get('retv')
            st = st.drop(('val', k))
            if v[0] == 'R' and keep == v: return st.set(('tmp', 'ret'), v)
            return s.gc(st, s.f['line'])
        o.norm = s.each(o.norm, lambda st: [f(st)]); o.brk = s.each(o.brk, lambda st: [f(st)]); o.cont = s.each(o.cont, lambda st: [f(st)])
        o.ret = uniq([(n, f(x)) for n, x in o.ret])
        o.thr = uniq([(n, f(x)) for n, x in o.thr])
    def root(s, p):
        while isinstance(p, tuple) and p and p[0] == 'f': p = p[1]
        return p
    # ------------------------------------------------------------ objects
    def paths(s, cls):
        r = [(('f', '@', fl), fam) for fl, fam in s.M.classes.get(cls, {}).items()]
        r += [(('f', ('f', '@', a), b), fam) for (a, b), fam in s.M.nested.get(cls, {}).items()]
        return sorted(r, key=str)
    def at(s, p, root): return root if p == '@' else ('f', s.at(p[1], root), p[2])
    def objects(s, st, cls, root, local=False):
        """st with the fields of an object of class cls in every reachable combination"""
        r = []
        for combo in s.reach.get(cls, ()):
            x = st; ids = {}
            for (p, fam), c in zip(s.paths(cls), combo):
                q = ('val', s.at(p, root))
                if c[0] in ('R', 'A') and c[1] not in ids:
                    n, x = s.fresh(x, c[2], c[3]); ids[c[1]] = n
                x = x.set(q, (c[0], ids[c[1]]) if c[0] in ('R', 'A') else c)
            r.append(x)
        return r
    def combo(s, st, cls, root):
        ids = {}; r = []
        for p, fam in s.paths(cls):
            v = st.get(('val', s.at(p, root)), ('unk',))
            if v[0] in 'RA':
                q = st.get(('res', v[1]))
                if q is None: r.append(('unk',)); continue
                if q[1] == 'dead': return None
                ids.setdefault(v[1], len(ids)); r.append((v[0], ids[v[1]], q[0], q[2]))
            else: r.append(v)
        return tuple(r)

def cover(roots):
    """instantiations of one template are the same code: keep as few classes as cover every function once"""
    by = {}
    for f in roots: by.setdefault(f.get('cls') or (f['file'], f['line']), []).append(f)
    have = set(); out = []
    for c in sorted(by, key=lambda c: (-len({(f['file'], f['line']) for f in by[c]}), str(c))):
        new = {(f['file'], f['line']) for f in by[c]}
        if new - have: have |= new; out += by[c]
    return out

def check_own(rep, F, skip):
    M = Model(F, skip)
    W = Own(M)
    # relevant functions: those that acquire, release or write owned fields, and what calls them
    direct = {f['id'] for f in M.fns if M.direct(f)}
    W.rel = set(direct)
    for f in M.fns:
        if f.get('cls') in M.classes and f['kind'] in ('ctor', 'dtor'): W.rel.add(f['id'])
    # functions of one line of calls between them (int_vector::resize -> memory_manager::resize)
    for _ in range(3):
        add = set()
        for f in M.fns:
            if f['id'] in W.rel or not (f.get('cls') in M.classes): continue
            for n in fn_nodes(f):
                if n[0] in ('call', 'mcall', 'opcall') :
                    u = n[4] if n[0] == 'opcall' else n[3]
                    if u in W.rel and u not in M.wrap or u in PRIM_REL:
                        tgt = n[5] if n[0] == 'mcall' else None
                        if n[0] == 'mcall' and W.G.key(tgt) != ('this',): continue
                        if n[0] == 'call' and not any(a is not None and (W.G.key(a) == ('this',) or W.tracked(a) and W.tracked(a)[0] == 'f') for a in n[5]): continue
                        add.add(f['id']); break
        if not add: break
        W.rel |= add
    roots = []
    for f in M.fns:
        if f['id'] not in W.rel: continue
        called = False
        if f.get('acc') == 2 and f['kind'] not in ('ctor', 'dtor'): called = True     # private helpers are analysed where they are called
        roots.append((f, called))
    privs = {f['id'] for f, c in roots if c}
    # a private helper nobody calls is a root
    usedp = set()
    for f in M.fns:
        if f['id'] in W.rel:
            for n in fn_nodes(f):
                u = n[4] if n[0] == 'opcall' else n[3] if n[0] in ('call', 'mcall') else None
                if u in privs and u != f['id']: usedp.add(u)
    roots = [f for f, c in roots if not (c and f['id'] in usedp)]
    roots = cover(roots)
    over = set(); stats = {}
    for rnd in range(4):
        before = {k: set(v) for k, v in W.reach.items()}
        W.out = []; W.checks = 0
        for f in sorted(roots, key=lambda f: (f['kind'] != 'ctor', f['file'], f['line'], f['id'])):
            cls = f.get('cls'); isobj = cls in M.classes and not f.get('static')
            init = [St()]
            if isobj and f['kind'] != 'ctor': init = [y for x in init for y in W.objects(x, cls, ('this',))]
            elif isobj:
                x = init[0]
                for (a, b), fam in M.nested.get(cls, {}).items():
                    n, x = W.fresh(x, fam, True); x = x.set(('val', ('f', ('f', ('this',), a), b)), ('R', n))
                for fl in M.classes[cls]:
                    R = F.records.get(cls)
                    for fd in (R['fields'] if R else []):
                        if fd['n'] == fl and fd.get('init') not in (None, 'uninst') and nullish(fd['init']): x = x.set(('val', ('f', ('this',), fl)), ('null',))
                init = [x]
            objs = [(('this',), cls)] if isobj else []
            for p in f['params']:
                t = p[2]
                while t.get('k') in ('ref', 'rref', 'ptr') and t.get('pt'): t = t['pt']
                if t.get('rec') in M.classes and (f.get('cls') == t['rec'] or not f.get('cls') in M.classes):
                    nx = [y for x in init for y in W.objects(x, t['rec'], ('v', p[0]))]
                    init = nx; objs.append((('v', p[0]), t['rec']))
                elif p[2].get('k') == 'ptr' and f['qn'] in list(PRIM_REL) + list(PRIM_REALLOC):
                    nx = []
                    for x in init:
                        n, y = W.fresh(x, 'mm', False); nx.append(y.set(('val', ('v', p[0])), ('R', n)))
                        nx.append(x.set(('val', ('v', p[0])), ('null',)))
                    init = nx
            if len(init) > 64: init = init[:64]; over.add(f['qn'])
            for st0 in init:
                W.stack = [f['id']]; W.objs = dict(objs)
                o = W.run(f, st0)
                if W.over: over.add(f['qn'])
                for n, st in o.ret: finish(W, f, n, st, objs, False)
                for n, st in o.thr: finish(W, f, n, st, objs, True)
        if {k: set(v) for k, v in W.reach.items()} == before: break
    for q in over: rep.incomplete.append('%s: too many states' % q)
    rep.count('functions', len(roots))
    rep.count('owning members', len({(re.sub(r'<.*', '', c), f) for c, f in M.owned}))
    rep.count('combinations of member states', sum(len(v) for v in W.reach.values()))
    for _ in range(W.checks): rep.ob()
    for qn, file, line, what, key in W.out:
        rep.ob(False)
        rep.violation('%s %s' % (qn, key), '%s:%d: %s: %s' % (file, line, qn, what))
    return M, W

def finish(W, f, n, st, objs, thrown):
    line = n[1] if n is not None else f['end'] if f.get('end') else f['line']
    M = W.M
    W.f = f
    W.checks += 1
    rv = st.get('retv')
    st = st.drop_if(lambda k, v: isinstance(k, tuple) and k[0] == 'tmp' and k[1] != 'ret')
    if f['qn'] in PRIM_REL or f['qn'] in PRIM_REALLOC:
        for k, v in list(st.d.items()):
            if isinstance(k, tuple) and k[0] == 'res' and v[1] == 'live' and rv != ('R', k[1]) and not thrown:
                W.say(line, 'the memory is not released', 'not released')
        return
    roots = {r for r, c in objs}
    if rv is not None and rv[0] == 'R' and not thrown and not any(len(k[1]) == 3 and W.root(k[1]) in roots for k in W.refs(st, rv[1]) if k[0] == 'val'): st = W.escape(rv, st)
    # local pointers (also parameters) go
    for k in [k for k in st.d if isinstance(k, tuple) and k[0] == 'val' and k[1][0] == 'v']:
        st = st.drop(k)
    st = st.drop_if(lambda k, v: isinstance(k, tuple) and k[0] == 'tmp')
    owner = {}
    for root, cls in objs:
        dying = root == ('this',) and (f['kind'] == 'dtor' or f['kind'] == 'ctor' and thrown)
        for p, fam in W.paths(cls):
            q = W.at(p, root); v = st.get(('val', q), ('unk',)); nested = p[1] != '@'
            name = p[2] if not nested else p[1][2] + '.' + p[2]
            if v[0] not in 'RA': continue
            r = st.get(('res', v[1]))
            if r is None: continue
            W.checks += 1
            if dying:
                if nested:
                    if v[0] == 'A' or r[1] == 'dead': W.say(line, 'the destructor of member %s releases memory that it does not own' % p[1][2], 'member ' + name)
                    else: st = st.set(('res', v[1]), (r[0], 'dead', r[2], r[3]))
                elif v[0] == 'R' and r[1] == 'live' and f['kind'] == 'dtor':
                    W.say(line, 'the resource of member %s is not released' % name, 'destructor ' + name)
                elif v[0] == 'R' and r[1] == 'live' and f['kind'] == 'ctor':
                    W.say(line, 'the resource of member %s is not released when the constructor fails' % name, 'failing constructor ' + name)
            elif r[1] == 'dead':
                W.say(line, 'member %s still refers to a released resource' % name, 'dangling ' + name)
            elif v[0] == 'R':
                if v[1] in owner: W.say(line, 'members %s and %s own one resource' % (owner[v[1]], name), 'shared ' + name)
                owner[v[1]] = name
        if not dying:
            c = W.combo(st, cls, root)
            if c is not None and len(W.reach.setdefault(cls, {})) < 12: W.reach[cls].setdefault(c, 1)
    W.gc(st, line)
