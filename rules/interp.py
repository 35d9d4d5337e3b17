"""Interprocedural, path-sensitive dataflow over the resolved statement trees (no solver, no execution).

Domain: for every memory location the *provenance* of its value: the initial value of a location (`init`), the
address of a location (`ptr`/`aptr`), null, a linear form over initial values / uninterpreted terms (`lin`), a
default constructed object, a moved-from object, an uninitialised cell, or an opaque value with the set of
locations it was computed from (`opq`).  Loops are summarised by induction variables (value0 + delta * iteration).
"""
import itertools
from facts import N, walk

# ------------------------------------------------------------------------------------------------ values
def lin(c, terms=()):
    return ('lin', c, tuple(sorted(((a, k) for a, k in terms if k != 0), key=repr)))
ZERO = lin(0)
NULL = ('null',)
UNINIT = ('uninit',)
def const(n): return lin(n)
def is_lin(v): return v[0] == 'lin'
def is_const(v): return v[0] == 'lin' and not v[2]
def atomize(v): return lin(0, [(v, 1)])
def as_lin(v):
    if v[0] == 'lin': return v
    if v == ('zero',) or v == NULL: return ZERO
    return atomize(v)
def ladd(a, b, kb=1):
    a = as_lin(a); b = as_lin(b)
    d = dict(a[2])
    for t, k in b[2]: d[t] = d.get(t, 0) + k * kb
    return lin(a[1] + kb * b[1], d.items())
def lscale(a, k):
    a = as_lin(a)
    return lin(a[1] * k, [(t, c * k) for t, c in a[2]])
def simp(v):
    """a lin that is a single atom with coefficient one is that atom"""
    if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1: return v[2][0][0]
    return v
def op(name, *args): return ('op', name) + tuple(args)
def opq(tag, *vals):
    d = frozenset().union(*[deps(v) for v in vals]) if vals else frozenset()
    return ('opq', tag, d)
_depc = {}
def deps(v):
    if not isinstance(v, tuple) or not v: return frozenset()
    k = v[0]
    if k in ('null', 'uninit', 'zero', 'default', 'str', 'lambda'): return frozenset()
    if k == 'opq': return v[2]
    r = _depc.get(v)
    if r is not None: return r
    if k == 'init': r = frozenset([v[1]])
    elif k == 'lin':
        r = frozenset().union(*[deps(a) for a, c in v[2]]) if v[2] else frozenset()
    elif k in ('ptr', 'aptr'):
        r = frozenset([v[1]])
        if k == 'aptr': r |= deps(v[2])
    elif k == 'phi': r = frozenset().union(*[deps(x) for x in v[1]])
    elif k == 'rec':
        r = deps(v[1]).union(*[deps(x) for _, x in v[2]])
    else:
        r = frozenset().union(*[deps(x) for x in v[1:] if isinstance(x, tuple)]) if len(v) > 1 else frozenset()
    _depc[v] = r
    return r

def substv(v, a, b):
    """replace the symbol a by b inside a value / event"""
    if v == a: return b
    if isinstance(v, tuple):
        r = tuple(substv(x, a, b) for x in v)
        if r and r[0] == 'lin' and isinstance(r[2], tuple): return lin(r[1], r[2])
        return r
    if isinstance(v, frozenset): return frozenset(substv(x, a, b) for x in v)
    return v

def project(V, rest, I=None):
    if not rest: return V
    k = V[0]
    if k == 'init': return ('init', V[1] + rest)
    if k in ('uninit', 'zero', 'moved', 'null'): return V if k != 'moved' else ('moved', project(V[1], rest, I))
    if k == 'rec':
        best = None
        for p, x in V[2]:
            if rest[:len(p)] == p and (best is None or len(p) > len(best[0])): best = (p, x)
        sub = tuple((p[len(rest):], x) for p, x in V[2] if len(p) > len(rest) and p[:len(rest)] == rest)
        base = project(best[1], rest[len(best[0]):], I) if best else project(V[1], rest, I)
        return ('rec', base, sub) if sub else base
    if k == 'default' and I is not None:
        return I.default_field(V, rest)
    if k == 'opq': return V
    if k == 'phi':
        out = []
        for x in V[1]:
            y = project(x, rest, I)
            for z in (y[1] if y[0] == 'phi' else (y,)):
                if z not in out: out.append(z)
        return out[0] if len(out) == 1 else ('phi', tuple(sorted(out, key=repr)))
    return ('op', 'proj', V, ('path',) + rest)

def show(v):
    if not isinstance(v, tuple) or not v: return str(v)
    k = v[0]
    if k == 'lin':
        s = []
        for a, c in v[2]: s.append(('' if c == 1 else '%d*' % c) + show(a))
        if v[1] or not s: s.append(str(v[1]))
        return '+'.join(s)
    if k == 'init': return 'init(' + pstr(v[1]) + ')'
    if k == 'ptr': return '&' + pstr(v[1])
    if k == 'aptr': return '&' + pstr(v[1]) + '+' + show(v[2])
    if k == 'op': return v[1] + '(' + ','.join(show(x) for x in v[2:]) + ')'
    if k == 'opq': return 'f<%s>{%s}' % (v[1], ','.join(sorted(pstr(p) for p in v[2])[:6]))
    if k == 'phi': return '{' + ' | '.join(show(x) for x in v[1]) + '}'
    if k == 'rec': return 'rec(%s;%s)' % (show(v[1]), ','.join('%s=%s' % (pstr(p), show(x)) for p, x in v[2][:8]))
    if k == 'moved': return 'moved(' + show(v[1]) + ')'
    if k == 'path': return pstr(v[1:])
    if k == 'default': return 'default<%s>' % str(v[1])[-40:]
    return '%s' % (v,)
def pstr(p):
    o = []
    for c in p:
        if isinstance(c, tuple):
            if c[0] == '[' : o.append('[' + show(c[1]) + ']')
            elif c[0] == '@': o.append('@' + show(c[1]))
            elif c[0] == 'L': o.append('local:%s' % (c[3] if len(c) > 3 else c[2]))
            else: o.append(':'.join(str(x) for x in c))
        else: o.append(str(c))
    return '.'.join(o)

# ------------------------------------------------------------------------------------------------ state
class State:
    __slots__ = ('store', 'conds', 'ev', 'x', 'pos')
    def __init__(s):
        s.store = {}; s.conds = {}; s.ev = []; s.x = {}; s.pos = 0
    def clone(s):
        n = State(); n.store = dict(s.store); n.conds = dict(s.conds); n.ev = list(s.ev); n.x = dict(s.x); n.pos = s.pos
        return n

class Env:
    __slots__ = ('fid', 'this', 'fn', 'depth', 'parent', 'locs', 'stack')
    def __init__(s, fid, this, fn, depth, parent=None, stack=()):
        s.fid = fid; s.this = this; s.fn = fn; s.depth = depth; s.parent = parent; s.locs = {}; s.stack = stack
    def loc(s, i, name='?'):
        e = s
        while e is not None:
            if i in e.locs: return e.locs[i]
            e = e.parent
        r = (('L', s.fid, i, name),)
        s.locs[i] = r
        return r

OPQ = ('opq', 'v', frozenset())
class Limit(Exception): pass

CMP = {'<', '>', '<=', '>=', '==', '!='}
STD = ('std::', '__gnu_cxx::')

class Interp:
    MAXPATHS = 600
    MERGE = False        # join states after branches and calls instead of enumerating paths
    MAXDEPTH = 14
    ALT = False
    def delta(s, o, p, m):
        v = s.get(o, p)
        return v[2] if v[0] == 'aptr' else ZERO if v == m else ladd(v, atomize(m), -1)
    def __init__(s, F):
        s.F = F
        s.n = itertools.count(1)
        s.steps = 0
        s.maxsteps = 400000
        s._dft = {}
        s.log = None
        s.cur_rid = None

    # -------------------------------------------------------------------------- store
    def get(s, st, path):
        st_ = st.store
        sub = None
        for i in range(len(path), 0, -1):
            p = path[:i]
            if p in st_:
                base = project(st_[p], path[i:], s)
                break
        else:
            base = s.root_value(st, path)
        n = len(path)
        ov = [(q[n:], v) for q, v in st_.items() if len(q) > n and q[:n] == path]
        if ov:
            if base[0] == 'rec':
                d = dict(base[2])
                for p, v in sorted(ov, key=lambda y: len(y[0])):
                    for q in [q for q in d if q[:len(p)] == p]: del d[q]
                    d[p] = v
                return ('rec', base[1], tuple(sorted(d.items(), key=repr)))
            return ('rec', base, tuple(sorted(ov, key=repr)))
        return base
    def root_value(s, st, path):
        return ('init', path)
    def set(s, st, path, v):
        n = len(path)
        for q in [q for q in st.store if len(q) > n and q[:n] == path]: del st.store[q]
        if v[0] == 'rec':
            st.store[path] = v[1]
            for p, x in sorted(v[2], key=lambda y: len(y[0])): s.set(st, path + p, x)
        else:
            st.store[path] = v
    def default_field(s, V, rest):
        """value of field `rest` of a default constructed record"""
        rid = V[1]
        key = rid
        if key not in s._dft:
            s._dft[key] = None
            s._dft[key] = s.default_summary(rid)
        d = s._dft[key]
        if d is None: return opq('default')
        if isinstance(d, State):
            v = s.get(d, ('this',) + rest)
            return v
        return opq('default')
    def default_summary(s, rid):
        R = s.F.records.get(rid)
        if R is None: return None
        for f in s.F.methods_of.get(rid, []):
            if f.get('sp') == 'dctor' and (f['body'] is not None or f.get('inits')):
                try:
                    sub = type(s)(s.F) if type(s) is Interp or s.MERGE else Interp(s.F)
                    sub._dft = s._dft
                    rs = sub.run_ctor(f, [NULL if p[2]['k'] == 'ptr' else OPQ if p[2]['k'] not in ('ref', 'rref') else ('ptr', ('P',)) for p in f['params']])
                except Limit:
                    return None
                rs = [st for st, k, v in rs if k in ('next', 'ret')]
                return rs[0] if len(rs) >= 1 else None
        st = State(); st.store[('this',)] = UNINIT
        for fl in R['fields']:
            s.default_init_field(st, ('this',), fl)
        return st
    def default_init_field(s, st, base, fl):
        t = fl['t']
        p = base + (fl['n'],)
        if t['k'] == 'rec': s.set(st, p, ('default', t['rec'], t.get('rn')))
        elif 'init' in fl and fl['init'] not in (None, 'uninit'):
            env = Env(next(s.n), base, None, 1)
            for st2, v in s.ev(st, env, fl['init'])[:1]: s.set(st, p, v)
        elif 'init' in fl: s.set(st, p, opq('fieldinit'))

    # -------------------------------------------------------------------------- running functions
    def run_ctor(s, f, args=None):
        st = State(); st.store[('this',)] = UNINIT
        return s.run(f, st, ('this',), args)
    def run(s, f, st=None, this=('this',), args=None):
        """run f with symbolic parameters P0, P1, ..."""
        st = st or State()
        if args is None: args = s.symargs(f)
        return s.call(st, f, this, args, 0)
    def symargs(s, f):
        r = []
        for i, p in enumerate(f['params']):
            t = p[2]
            if t['k'] in ('ref', 'rref'): r.append(('ptr', ('P%d' % i,)))
            else: r.append(('init', ('P%d' % i,)))
        return r

    def call(s, st, f, this, args, depth, parent=None, stack=()):
        """inline f; returns list of (state, 'ret'|'throw', value)"""
        env = Env(next(s.n), this, f, depth, parent, stack + (f['id'],))
        for p, a in zip(f['params'], args):
            l = (('L', env.fid, p[0], p[1]),)
            env.locs[p[0]] = l
            s.set(st, l, a)
        outs = [st]
        if f['kind'] == 'ctor':
            outs = s.ctor_inits(st, env, f)
        res = []
        for o in outs:
            if f['body'] is None:
                res.append((o, 'ret', ('void',))); continue
            for st2, k, v in s.st(o, env, f['body']):
                if k == 'throw': res.append((st2, 'throw', v))
                else: res.append((st2, 'ret', v if k == 'ret' else ('void',)))
        for r in res: s.drop_locals(r[0], env)
        if s.MERGE and len(res) > 1: res = s.merge3(res)
        return s.limit(res)
    def drop_locals(s, st, env):
        fid = env.fid
        for q in [q for q in st.store if isinstance(q[0], tuple) and q[0][0] == 'L' and q[0][1] == fid]:
            # keep: values may still be referenced by address; cheap to keep only if someone points there
            del st.store[q]
    # -------------------------------------------------------------------------- joining (MERGE mode)
    def join(s, vs):
        out = []
        for v in vs:
            for x in (v[1] if v[0] == 'phi' else (v,)):
                if x not in out: out.append(x)
        if len(out) == 1: return out[0]
        if len(out) > 12 or not any(x[0] in ('ptr', 'aptr', 'null', 'default', 'uninit', 'init', 'rec', 'moved') for x in out): return OPQ
        return ('phi', tuple(sorted(out, key=repr)))
    def merge(s, sts):
        a = sts[0]; n = a.clone()
        keys = set()
        for o in sts: keys |= set(o.store)
        for k in sorted(keys, key=lambda p: (len(p), repr(p))):
            vs = []
            for o in sts:
                v = o.store.get(k)
                if v is None:
                    if isinstance(k[0], tuple) and k[0][0] in ('L', 'T', 'heap') and not any(k[:i] in o.store for i in range(1, len(k))): continue
                    v = s.get(o, k)
                vs.append(v)
            n.store[k] = vs[0] if all(v == vs[0] for v in vs) else s.join([s.flatv(v) for v in vs])
        n.conds = {c: b for c, b in a.conds.items() if all(o.conds.get(c) == b for o in sts[1:])}
        n.x = s.merge_x([o.x for o in sts])
        return n
    def merge_x(s, xs): return dict(xs[0])
    def flatv(s, v): return v
    def merge3(s, res):
        by = {}
        for o, k, v in res: by.setdefault(k, []).append((o, v))
        out = []
        for k, l in by.items():
            if len(l) == 1: out.append((l[0][0], k, l[0][1])); continue
            vals = [v if v is not None else ('void',) for _, v in l]
            out.append((s.merge([o for o, _ in l]), k, s.join(vals)))
        return out
    def limit(s, res):
        if len(res) > s.MAXPATHS: raise Limit('paths')
        return res

    def ctor_inits(s, st, env, f):
        rec = s.F.records.get(f.get('cls'))
        outs = [st]
        done = set()
        deleg = any('d' in i for i in f.get('inits') or [])
        for i in f.get('inits') or []:
            new = []
            for o in outs:
                if 'f' in i:
                    p = env.this + (i['f'],)
                    done.add(i['f'])
                    t = None
                    if rec:
                        for fl in rec['fields']:
                            if fl['n'] == i['f']: t = fl['t']
                    new += s.init_loc(o, env, p, i['e'], t)
                elif 'b' in i or 'd' in i:
                    new += s.init_loc(o, env, env.this, i['e'], i.get('b'), base=True)
                else: new.append(o)
            outs = new
        if rec and not deleg:
            for o in outs:
                for fl in rec['fields']:
                    if fl['n'] not in done:
                        s.default_init_field(o, env.this, fl)
        return outs

    def init_loc(s, st, env, path, e, t, base=False):
        """initialise location `path` of type t from expression e; returns states"""
        if e is None:
            if t is not None and t['k'] == 'rec': s.set(st, path, ('default', t['rec'], t.get('rn')))
            elif not base: s.set(st, path, UNINIT)
            return [st]
        x = e
        while x[0] in ('defarg', 'definit'): x = x[3]
        if x[0] == 'ctor':
            return [o for o, _ in s.ev_ctor(st, env, x, path, base)]
        if t is not None and t['k'] in ('ref', 'rref'):
            out = []
            for o, p in s.loc(st, env, x):
                s.set(o, path, ('ptr', p)); out.append(o)
            return out
        if x[0] == 'init' and t is not None and t['k'] == 'rec':
            rec = s.F.records.get(t['rec'])
            outs = [st]
            if rec and len(rec['fields']) >= len(x[3]):
                s.set(st, path, ('zero',))
                for fl, ie in zip(rec['fields'], x[3]):
                    outs = [o2 for o in outs for o2 in s.init_loc(o, env, path + (fl['n'],), ie, fl['t'])]
                return outs
        if x[0] == 'init' and t is not None and t['k'] == 'arr':
            outs = [st]
            s.set(st, path, ('zero',))
            w = (t['pt'] or {}).get('w', 8) // 8 or 1
            for i, ie in enumerate(x[3][:64]):
                outs = [o2 for o in outs for o2 in s.init_loc(o, env, path + (('@', const(i * w)),), ie, t['pt'])]
            return outs
        out = []
        for o, v in s.ev(st, env, x):
            s.set(o, path, v); out.append(o)
        return out

    # -------------------------------------------------------------------------- statements
    def st(s, st, env, n):
        """returns list of (state, kind, value)"""
        if n is None: return [(st, 'next', None)]
        s.steps += 1
        if s.steps > s.maxsteps: raise Limit('steps')
        k = n[0]
        m = getattr(s, 'st_' + k, None)
        if m is None: 
            r = []
            for o, v in s.ev(st, env, n):
                r.append((o, 'throw', v) if v == ('thrown',) else (o, 'next', None))
            return r
        return m(st, env, n)
    def st_block(s, st, env, n):
        cur = [st]; res = []
        for c in n[2]:
            nxt = []
            for o in cur:
                for o2, k, v in s.st(o, env, c):
                    if k == 'next': nxt.append(o2)
                    else: res.append((o2, k, v))
            if s.MERGE and len(nxt) > 1: nxt = [s.merge(nxt)]
            cur = s.limit(nxt)
            if not cur: break
        return res + [(o, 'next', None) for o in cur]
    def st_nop(s, st, env, n): return [(st, 'next', None)]
    st_unkst = st_nop
    st_goto = st_nop
    def st_label(s, st, env, n): return s.st(st, env, n[3])
    def st_break(s, st, env, n): return [(st, 'break', None)]
    def st_cont(s, st, env, n): return [(st, 'cont', None)]
    def st_ret(s, st, env, n):
        if n[2] is None: return [(st, 'ret', ('void',))]
        rt = env.fn['ret'] if env.fn else None
        if rt is not None and rt['k'] in ('ref', 'rref'):
            return [(o, 'ret', ('ptr', p)) for o, p in s.loc(st, env, n[2])]
        return [(o, 'throw' if v == ('thrown',) else 'ret', v) for o, v in s.ev(st, env, n[2])]
    def st_decl(s, st, env, n):
        cur = [st]
        for (i, name, t, e, static) in n[2]:
            nxt = []
            for o in cur:
                l = (('L', env.fid, i, name),)
                env.locs[i] = l
                if t['k'] in ('ref', 'rref') and e is not None:
                    for o2, p in s.loc(o, env, e):
                        s.set(o2, l, ('ptr', p)); nxt.append(o2)
                else:
                    nxt += s.init_loc(o, env, l, e, t)
            cur = s.limit(nxt)
        return [(o, 'next', None) for o in cur]
    def st_if(s, st, env, n):
        res = []
        for o, b in s.cond(st, env, n[2]):
            if b is None: res.append((o, 'throw', None)); continue
            br = n[3] if b else n[4]
            res += s.st(o, env, br)
        if s.MERGE and len(res) > 1: res = s.merge3(res)
        return s.limit(res)
    def st_switch(s, st, env, n):
        # cases: run every segment as an alternative
        body = n[3]
        items = body[2] if body and body[0] == 'block' else [body]
        flat = []
        for it in items:
            labs = []
            while it is not None and it[0] in ('case', 'default'):
                labs.append(it if it[0] == 'case' else 'default'); it = it[3] if it[0] == 'case' else it[2]
            flat.append((labs, it))
        res = []
        for o, v in s.ev(st, env, n[2]):
            hasdef = False; starts = []
            for j, (labs, it) in enumerate(flat):
                for lb in labs:
                    if lb == 'default': hasdef = True; starts.append((j, None))
                    else: starts.append((j, lb[2]))
            dec = None
            if is_const(v):
                for j, lb in starts:
                    if lb is not None:
                        c = s.ev(o.clone(), env, lb)[0][1]
                        if c == v: dec = j
                if dec is None:
                    d = [j for j, lb in starts if lb is None]
                    dec = d[0] if d else -1
            for j, lb in starts:
                if dec is not None and j != dec: continue
                o2 = o.clone()
                if dec is None:
                    if lb is not None:
                        c = s.ev(o2, env, lb)[0][1]
                        o2.conds[('case', v, c)] = True
                    else: o2.conds[('case', v, 'default')] = True
                r = s.st_block(o2, env, ['block', n[1], [it for _, it in flat[j:] if it is not None], n[1]])
                res += [(a, 'next' if k == 'break' else k, x) for a, k, x in r]
                if dec is not None: break
            if (not hasdef and dec is None) or dec == -1: res.append((o, 'next', None))
        return s.limit(res)
    def st_try(s, st, env, n):
        res = []
        for o, k, v in s.st(st, env, n[2]):
            if k == 'throw' and n[3]:
                for h in n[3]: res += s.st(o.clone(), env, h)
            else: res.append((o, k, v))
        return s.limit(res)
    def st_for(s, st, env, n):
        res = []
        for o, k, v in s.st(st, env, n[2]):
            if k != 'next': res.append((o, k, v)); continue
            res += s.loop(o, env, n[3], n[4], n[5], False, n)
        return s.limit(res)
    def st_while(s, st, env, n): return s.loop(st, env, n[2], None, n[3], False, n)
    def st_do(s, st, env, n): return s.loop(st, env, n[2], None, n[3], True, n)
    def st_rfor(s, st, env, n):
        res = []
        for o, p in s.loc(st, env, n[3]):
            res += s.loop(o, env, None, None, n[4], False, n, rng=(n[2], p))
        return s.limit(res)

    # loops ---------------------------------------------------------------------
    def loop(s, st, env, cond, inc, body, post, node, rng=None):
        if s.MERGE: return s.merge_loop(st, env, cond, inc, body, post, node, rng)
        lid = ('loop', env.fn['id'] if env.fn else '?', node[1])
        hasev0 = len(st.ev)
        def once(o, itv):
            """one iteration; returns (next-states, exits[(st,kind,val)], conds)"""
            o.ev = []
            if rng is not None:
                (i, name, t, e, static), p = rng
                l = (('L', env.fid, i, name),); env.locs[i] = l
                el = p + (('[', itv),)
                if t['k'] in ('ref', 'rref'): s.set(o, l, ('ptr', el))
                else: s.set(o, l, s.get(o, el))
            nx = []; ex = []
            cs = [(o, True)]
            if cond is not None and not post:
                cs = s.cond(o, env, cond, force=True)
            for o1, b in cs:
                if b is None or not b: continue
                for o2, k, v in s.st(o1, env, body):
                    if k in ('next', 'cont'):
                        if inc is not None:
                            for o3, _ in s.ev(o2, env, inc): nx.append(o3)
                        elif post and cond is not None:
                            for o3, b in s.cond(o2, env, cond, force=True):
                                if b: nx.append(o3)
                        else: nx.append(o2)
                    else: ex.append((o2, k, v))
            return nx, ex
        itn = atomize(('iter', lid))
        # constant false at entry?
        if cond is not None and not post:
            c0 = s.cond(st.clone(), env, cond)
            if c0 and all(b is False for _, b in c0) and len(c0) == 1:
                return [(o, 'next', None) for o, b in c0]
        # pass 1: changed locations
        a = st.clone()
        nx, ex = once(a, itn)
        changed = {}
        fid0 = None
        for o in nx + [e[0] for e in ex if e[1] == 'break']:
            for p, v in o.store.items():
                if s.is_new_local(p, st, env): continue
                if p not in st.store:
                    if s.get(st, p) != v: changed[p] = 1
                elif st.store[p] != v: changed[p] = 1
            for p in st.store:
                if p not in o.store: changed[p] = 1
        # iterate until the changed set is stable (values that change only from 2nd iteration on)
        ind = {}
        for rnd in range(3):
            b = st.clone()
            marks = {}
            for p in changed:
                if s.has_iter(p, lid): continue
                v = s.get(st, p)
                m = ('itv', lid, p)
                if v[0] in ('ptr', 'aptr', 'init') and v[0] != 'lin': marks[p] = v
                s.set(b, p, ('itv', lid, p))
            nx, ex = once(b, itn)
            again = False
            for o in nx:
                for p, v in o.store.items():
                    if s.is_new_local(p, st, env) or p in changed: continue
                    if any(p[:len(q)] == q for q in changed) : continue
                    if (p not in st.store and s.get(st, p) != v) or (p in st.store and st.store[p] != v):
                        changed[p] = 1; again = True
            if not again: break
        ind = {}
        for p in list(changed):
            if s.has_iter(p, lid): continue
            m = ('itv', lid, p); ds = set()
            for o in nx:
                v = s.get(o, p)
                if v[0] == 'aptr' and v[1] == m: ds.add(('b', v[2])); continue
                if v == m: ds.add(('v', ZERO)); continue
                if v[0] == 'lin':
                    d = ladd(v, atomize(m), -1)
                    if s.mentions(d, lid, 'itv'): ds.add(None)
                    else: ds.add(('v', d))
                else: ds.add(None)
            if len(ds) == 1 and None not in ds: ind[p] = next(iter(ds))
            elif ds and all(d is not None for d in ds) and len({d for d in ds}) == 2 and any(d[1] == ZERO for d in ds):
                ind[p] = None
            else: ind[p] = None
        if s.ALT:
            # values whose increment depends on induction variables, or on the way through the body
            for p in list(changed):
                if s.has_iter(p, lid) or ind.get(p) is not None: continue
                m = ('itv', lid, p); dl = []
                for o in nx:
                    v = s.get(o, p)
                    d = ZERO if v == m else v[2] if v[0] == 'aptr' and v[1] == m else ladd(v, atomize(m), -1) if v[0] == 'lin' else None
                    if d is not None:
                        for q, iq in ind.items():
                            if iq is None or iq[0] == 'alt': continue
                            mq = ('itv', lid, q)
                            if s.mentions(d, lid, 'itv'): d = substv(d, mq, s.step(s.get(st, q), iq, itn))
                        if s.mentions(d, lid, 'itv'): d = None
                    dl.append(d)
                if dl and None not in dl:
                    ind[p] = ('v', dl[0]) if all(d == dl[0] for d in dl) else ('alt', dl)
        brk = any(k == 'break' for _, k, _ in ex)
        # pass 3: body at iteration `itn`
        def at(v0, d, k):
            if d[0] == 'alt':   # the body has several ways through: how often each is taken is a symbol of its own
                if v0[0] not in ('lin', 'init', 'op', 'zero'): return opq('loop', v0, *d[1])
                r = as_lin(v0)
                for i_, x_ in enumerate(d[1]): r = ladd(r, s.mulv(x_, atomize(op('times', ('n', lid, i_), k))))
                return r
            if d[0] == 'b':
                if v0[0] == 'aptr': return ('aptr', v0[1], ladd(v0[2], s.mulv(d[1], k)))
                if v0[0] == 'ptr': return ('aptr', v0[1], s.mulv(d[1], k))
                if v0[0] == 'init': return ('aptr', v0[1] + ('*',), s.mulv(d[1], k))
                return opq('loop', v0)
            if d[1] == ZERO: return v0
            if v0[0] in ('lin', 'init', 'op', 'zero', 'opq'): return ladd(as_lin(v0), s.mulv(d[1], k))
            return opq('loop', v0)
        c = st.clone()
        for p in sorted(changed, key=len):
            if s.has_iter(p, lid): continue
            v0 = s.get(st, p)
            s.set(c, p, at(v0, ind[p], itn) if ind.get(p) else opq('loop', v0))
        cc = c.clone()
        ckey = None
        cnt = None
        if rng is not None:
            cnt = s.size_of(st, rng[1]); ckey = cnt
        elif cond is not None:
            cs = s.cond(cc, env, cond, force=True)
            keys = []
            for o, bb in cs:
                if bb: keys += [(kk, vv) for kk, vv in o.conds.items() if kk not in c.conds]
            keys = sorted(set(keys), key=repr)
            if len(keys) == 1:
                (kk, vv) = keys[0]
                # i < bound, i = a + iter
                if kk[0] == 'lt' and vv:
                    d = kk[1]; cf = dict(d[2]).get(('iter', lid))
                    if cf is not None and cf > 0:
                        rest = lin(-d[1], [(t, -k2) for t, k2 in d[2] if t != ('iter', lid)])
                        cnt = rest if cf == 1 else atomize(op('ceildiv', rest, const(cf)))
                elif kk[0] == 'lt' and not vv:   # not (x < 0): counts down  e.g. i >= b
                    d = kk[1]; cf = dict(d[2]).get(('iter', lid))
                    if cf is not None and cf < 0:
                        rest = lin(d[1] + 1, [(t, k2) for t, k2 in d[2] if t != ('iter', lid)])
                        cnt = rest if cf == -1 else None
                elif kk[0] == 'eq' and not vv:
                    d = kk[1]; cf = dict(d[2]).get(('iter', lid))
                    if cf in (1, -1):
                        sg = -cf
                        cnt = lin(sg * d[1], [(t, sg * k2) for t, k2 in d[2] if t != ('iter', lid)])
            ckey = tuple(keys)
        if cnt is None or brk: cnt = atomize(('count', s.canon_loop(ckey, lid)))
        nx, ex = once(c.clone(), itn)
        res = []
        base_ev = st.ev
        # exits by return / throw inside the body
        for o, k, v in ex:
            if k in ('ret', 'throw'):
                o.ev = base_ev + ([('partial-loop', node[1])] if any(n_.ev for n_ in nx) else []) + o.ev
                res.append((o, k, v))
        bodies = []
        for o in nx + [e[0] for e in ex if e[1] == 'break']:
            bodies.append((tuple(o.ev), frozenset((kk, vv) for kk, vv in o.conds.items() if kk not in c.conds)))
        bodies = list(dict.fromkeys(bodies))
        post_st = st.clone()
        allst = nx + [e[0] for e in ex if e[1] == 'break']
        for p in sorted(changed, key=len):
            if s.has_iter(p, lid): continue
            v0 = s.get(st, p)
            if ind.get(p):
                s.set(post_st, p, at(v0, ind[p], cnt))
            else:
                vs = [s.get(o, p) for o in allst]
                r = s.last_value(lid, p, v0, vs, cnt) if s.ALT else None
                s.set(post_st, p, s.loop_join(v0, vs, lid) if r is None else r)
        # elementwise writes
        for o in allst:
            for p, v in o.store.items():
                i = s.iter_index(p, lid)
                if i is None: continue
                cont = p[:i]
                if isinstance(cont[0], tuple) and cont[0] not in [q[0] for q in st.store] and s.is_new_local(cont, st, env): continue
                src = s.strip_iter(v, p[i:], lid)
                if src is not None: s.whole(st, post_st, cont, src); s.set(post_st, cont, src)
                else:
                    old = s.get(post_st, cont)
                    if not (old[0] == 'init' and src is not None):
                        s.set(post_st, cont, opq('elem', old, v))
        s.last_cnt = cnt
        if any(b for b, _ in bodies):
            post_st.ev = base_ev + [('loop', cnt, lid, tuple(bodies), node[1])]
        kept = post_st.x.get('kept')
        post_st.x = dict(allst[0].x) if allst and not st.x else dict(st.x)
        if kept: post_st.x['kept'] = kept
        s.loop_extra(st, post_st, allst)
        if not (cond is None and rng is None and not brk):
            res.append((post_st, 'next', None))
        return res
    def merge_loop(s, st, env, cond, inc, body, post, node, rng):
        cur = st; exits = []; outs = []
        for rnd in range(2):
            o = cur.clone()
            if rng is not None:
                (i, name, t, e, static), p = rng
                l = (('L', env.fid, i, name),); env.locs[i] = l
                el = p + (('[', OPQ),)
                if t['k'] in ('ref', 'rref'): s.set(o, l, ('ptr', el))
                else: s.set(o, l, s.get(o, el))
            cs = s.cond(o, env, cond) if cond is not None and not post else [(o, True)]
            nx = []; ex = []; brk = []
            cs = [o1 for o1, b in cs if b]
            if not cs: break
            o1 = s.merge(cs) if len(cs) > 1 else cs[0]
            for o2, k, v in s.st(o1, env, body):
                if k in ('next', 'cont'):
                    if inc is not None: nx += [o3 for o3, _ in s.ev(o2, env, inc)]
                    else: nx.append(o2)
                elif k == 'break': brk.append(o2)
                else: ex.append((o2, k, v))
            exits = ex
            outs = nx + brk
            if not nx: break
            cur = s.merge([cur] + nx)
        outs = ([] if post and outs else [st]) + outs
        return exits + [(s.merge(outs) if len(outs) > 1 else outs[0], 'next', None)]
    def step(s, v0, d, k):
        if d[0] == 'b':
            if v0[0] == 'aptr': return ('aptr', v0[1], ladd(v0[2], s.mulv(d[1], k)))
            if v0[0] == 'ptr': return ('aptr', v0[1], s.mulv(d[1], k))
            if v0[0] == 'init': return ('aptr', v0[1] + ('*',), s.mulv(d[1], k))
            return opq('loop', v0)
        return v0 if d[1] == ZERO else ladd(as_lin(v0), s.mulv(d[1], k))
    def loop_extra(s, st, post, all): pass
    def whole(s, st, post_st, cont, src): pass
    def last_value(s, lid, p, v0, vs, cnt):
        """a number that the body overwrites: its value is that of the last iteration"""
        vs = [v0 if v in (('itv', lid, p), v0, opq('loop', v0)) else v for v in vs]
        if not vs or any(v[0] not in ('lin', 'op', 'zero') or 'opq' in repr(v) or s.mentions(v, lid, 'itv') for v in vs): return None
        if v0[0] not in ('lin', 'zero') : return None
        return atomize(op('lastof', ('n', lid, p), cnt, *vs))
    def loop_join(s, v0, vs, lid):
        if vs and all(v == vs[0] for v in vs) and not s.mentions(vs[0], lid):
            if vs[0] == v0: return v0
            return opq('loop', v0, vs[0])
        return opq('loop', v0, *[v for v in vs])
    def is_new_local(s, p, st, env):
        r = p[0]
        if not (isinstance(r, tuple) and r[0] in ('L', 'T', 'heap')): return False
        for q in st.store:
            if q[0] == r: return False
        return True
    def has_iter(s, p, lid):
        return s.iter_index(p, lid) is not None
    def iter_index(s, p, lid):
        for i, c in enumerate(p):
            if isinstance(c, tuple) and c[0] in ('[', '@') and s.mentions(c[1], lid): return i
        return None
    def mentions(s, v, lid, kind=None):
        if not isinstance(v, tuple): return False
        if len(v) >= 2 and v[0] in ('iter', 'itv') and v[1] == lid and (kind is None or v[0] == kind): return True
        return any(s.mentions(x, lid, kind) for x in v if isinstance(x, tuple))
    def strip_iter(s, v, rest, lid):
        """if v is the element `rest` of some container, the container"""
        if v[0] == 'init':
            q = v[1]
            if len(q) > len(rest) and q[-len(rest):] == rest: return ('init', q[:-len(rest)])
        if v[0] == 'moved': return None
        return None
    def canon_loop(s, key, lid):
        """make a loop condition key position independent"""
        def r(x):
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] in ('iter', 'itv') and x[1] == lid: return (x[0], 'loop')
                return tuple(r(y) for y in x)
            return x
        return r(key) if key is not None else ('?', lid)
    def size_of(s, st, path):
        return atomize(op('size', s.get(st, path)))
    def mulv(s, a, b):
        a = as_lin(a); b = as_lin(b)
        if is_const(a): return lscale(b, a[1])
        if is_const(b): return lscale(a, b[1])
        x, y = sorted([a, b], key=repr)
        return atomize(op('*', x, y))

    # -------------------------------------------------------------------------- conditions
    def cond(s, st, env, e, force=False):
        """returns list of (state, True/False/None)"""
        if e is None: return [(st, True)]
        k = e[0]
        if k == 'bin' and e[3] in ('&&', '||'):
            res = []
            for o, b in s.cond(st, env, e[4], force):
                if b is None: res.append((o, None)); continue
                if e[3] == '&&':
                    if b: res += s.cond(o, env, e[5], force)
                    else: res.append((o, False))
                else:
                    if b: res.append((o, True))
                    else: res += s.cond(o, env, e[5], force)
            return s.limit(res)
        if k == 'un' and e[3] == '!':
            return [(o, None if b is None else not b) for o, b in s.cond(st, env, e[4], force)]
        if k == 'cast' and e[3] in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp', 'IntegralCast'):
            if e[3] in ('IntegralToBoolean', 'PointerToBoolean') or e[2]['k'] == 'bool':
                return s.cond(st, env, e[4], force)
        res = []
        for o, v in s.ev(st, env, e):
            if v == ('thrown',): res.append((o, None)); continue
            res += s.branch(o, v, e[2])
        return s.limit(res)
    def canon(s, v, t=None):
        """boolean value -> (key, polarity) or bool constant"""
        if v[0] == 'lin' and not v[2]: return v[1] != 0
        if v == NULL: return False
        if v == ('zero',): return False
        if v[0] in ('ptr', 'aptr'): return True
        if v[0] == 'op' and v[1] == 'not':
            r = s.canon(v[2])
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if v[0] == 'op' and v[1] == 'cmp':
            _, _, o, a, b = v[:5]; uns = True
            isnum = a[0] in ('lin', 'zero') or b[0] in ('lin', 'zero') or o in ('<', '>', '<=', '>=')
            if o in ('==', '!='):
                if a == b: return o == '=='
                if not isnum:
                    if a[0] in ('ptr', 'null') and b[0] in ('ptr', 'null') and a[0] != b[0]: return o == '!='
                    x, y = sorted([a, b], key=repr)
                    return (('eqv', x, y), o == '==')
                d = ladd(a, b, -1)
                if is_const(d): return (d[1] == 0) == (o == '==')
                first = d[2][0][1]
                if first < 0: d = lscale(d, -1)
                return (('eq', d), o == '==')
            if o == '>': a, b, o = b, a, '<'
            elif o == '>=': o = '<='; a, b = b, a
            if o == '<=':   # a<=b == not (b<a)
                d = ladd(b, a, -1); pol = False
            else:
                d = ladd(a, b, -1); pol = True
            if is_const(d): return (d[1] < 0) == pol
            # 0 < x  (unsigned) == x != 0 ;  x < 1 == x == 0
            if len(d[2]) == 1:
                t_, c_ = d[2][0]
                if c_ < 0 and -c_ > d[1] >= 0: return (('eq', lin(0, [(t_, 1)])), not pol)
                if c_ > 0 and -c_ <= d[1] < 0: return (('eq', lin(0, [(t_, 1)])), pol)
            return (('lt', d), pol)
        if v[0] == 'lin':
            d = v
            if d[2][0][1] < 0: d = lscale(d, -1)
            return (('eq', d), False)
        if v[0] in ('init', 'op', 'itv') and t is not None and t['k'] in ('int', 'bool'):
            return (('eq', lin(0, [(v, 1)])), False)
        if v[0] == 'init' and t is not None and t['k'] == 'ptr':
            x, y = sorted([v, NULL], key=repr)
            return (('eqv', x, y), False)
        return (('t', v), True)
    def branch(s, st, v, t=None):
        c = s.canon(v, t)
        if isinstance(c, bool): return [(st, c)]
        key, pol = c
        if key in st.conds: return [(st, st.conds[key] == pol)]
        d = s.decide(st, key)
        if d is not None: return [(st, d == pol)]
        a = st.clone(); a.conds[key] = pol
        st.conds[key] = not pol
        return [(a, True), (st, False)]
    RANGES = {'m_width': (1, 64)}
    def rng(s, v):
        lo = hi = v[1]
        for a, k in v[2]:
            r = None
            if a[0] == 'init' and isinstance(a[1][-1], str): r = s.RANGES.get(a[1][-1])
            if r is None: return None
            lo += min(k * r[0], k * r[1]); hi += max(k * r[0], k * r[1])
        return (lo, hi)
    def decide(s, st, key):
        if key[0] in ('lt', 'eq'):
            r = s.rng(key[1])
            if r is not None:
                if key[0] == 'lt':
                    if r[1] < 0: return True
                    if r[0] >= 0: return False
                elif r[0] > 0 or r[1] < 0: return False
        if key[0] == 'eqv':
            a, b = key[1], key[2]
            if a[0] in ('ptr', 'aptr') and b[0] in ('ptr', 'aptr'):
                if a == b: return True
                ra, rb = a[1][0], b[1][0]
                if ra != rb and (isinstance(ra, tuple) or isinstance(rb, tuple)): return False
                if ra == rb and a[0] == b[0] == 'ptr': return False
            elif NULL in (a, b) and (a[0] in ('ptr', 'aptr') or b[0] in ('ptr', 'aptr')): return False
        if key[0] == 'lt':
            # eq known true for the same form?
            d = key[1]
            x = ('eq', d if d[2][0][1] > 0 else lscale(d, -1))
            if st.conds.get(x) is True: return False
        return None

    # -------------------------------------------------------------------------- lvalues
    def loc(s, st, env, e):
        """locations an expression designates: list of (state, path)"""
        k = e[0]
        if k in ('defarg', 'definit'): return s.loc(st, env, e[3])
        if k == 'ref':
            if e[3] in ('var', 'param', 'slocal'):
                if e[3] == 'slocal': return [(st, (('S', e[5]),))]
                l = env.loc(e[4], e[5])
                v = st.store.get(l)
                if v is not None and v[0] == 'ptr' and s.ref_local(env, e, v): return [(st, v[1])]
                if v is not None and v[0] == 'aptr' and s.ref_local(env, e, v): return [(st, v[1] + (('@', v[2]),))]
                return [(st, l)]
            if e[3] == 'glob': return [(st, (('G', e[5]),))]
            return [(st, (('F', e[5]),))]
        if k == 'this': return [(st, env.this)]
        if k == 'mem':
            res = []
            if e[5]:
                for o, v in s.ev(st, env, e[3]): res.append((o, s.deref(v) + (e[4],)))
            else:
                for o, p in s.loc(st, env, e[3]): res.append((o, p + (e[4],)))
            # reference member
            if e[2] is not None and s.field_is_ref(e):
                q = s.ref_binding(e[6], e[4])
                r2 = []
                for o, p in res:
                    if q is not None: r2.append((o, p[:-1] + q)); continue
                    v = s.get(o, p)
                    r2.append((o, s.deref(v)))
                return r2
            return res
        if k == 'un' and e[3] == '*':
            return [(o, s.deref(v)) for o, v in s.ev(st, env, e[4])]
        if k == 'un' and e[3] in ('++', '--'):
            return [(o, p) for o, p in s.incdec(st, env, e)]
        if k == 'idx':
            res = []
            w = max(1, (e[2].get('w') or 8) // 8)
            for o, b in s.ev(st, env, e[3]):
                for o2, i in s.ev(o, env, e[4]):
                    res.append((o2, s.deref(s.padd(b, lscale(as_lin(i), w)), True)))
            return res
        if k == 'cast':
            if e[3] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'LValueBitCast', 'Dynamic', 'ConstructorConversion'):
                return s.loc(st, env, e[4])
            if e[3] == 'ArrayToPointerDecay': return s.loc(st, env, e[4])
        if k == 'cond':
            res = []
            for o, b in s.cond(st, env, e[3]):
                res += s.loc(o, env, e[4] if b else e[5])
            return res
        if k == 'asg':
            return s.assign(st, env, e)
        if k == 'bin' and e[3] == ',':
            return [x for o, _ in s.ev(st, env, e[4]) for x in s.loc(o, env, e[5])]
        if k in ('mcall', 'opcall', 'call'):
            res = []
            for o, v in s.ev(st, env, e, want='loc'):
                if v[0] == 'LOC': res.append((o, v[1]))
                else: res.append((o, s.temp(o, v)))
            return res
        res = []
        for o, v in s.ev(st, env, e): res.append((o, s.temp(o, v)))
        return res
    def ref_local(s, env, e, v):
        """is the local a reference variable/parameter?"""
        en = env
        while en is not None:
            if e[4] in en.locs:
                t = s.local_type(en.fn, e[4])
                return t is not None and t['k'] in ('ref', 'rref')
            en = en.parent
        return False
    _lt = {}
    def local_type(s, fn, i):
        if fn is None: return None
        key = (id(fn))
        m = s._lt.get(key)
        if m is None:
            m = {p[0]: p[2] for p in fn['params']}
            for n in (x for x in s.nodes(fn)):
                if n[0] == 'decl':
                    for b in n[2]: m[b[0]] = b[2]
                elif n[0] == 'rfor' and n[2] is not None: m[n[2][0]] = n[2][2]
            s._lt[key] = m
        return m.get(i)
    def nodes(s, fn):
        from facts import fn_nodes
        return fn_nodes(fn)
    def field_is_ref(s, e):
        r = s.F.records.get(e[6])
        if r is None: return False
        m = r.get('_refs')
        if m is None:
            m = r['_refs'] = {f['n'] for f in r['fields'] if f['t']['k'] in ('ref', 'rref')}
        return e[4] in m
    _rb = {}
    def ref_binding(s, rid, name):
        """member the reference field `name` is bound to by the class itself (None: bound to something external)"""
        key = (id(s.F), rid, name)
        if key in s._rb: return s._rb[key]
        s._rb[key] = None
        R = s.F.records.get(rid); cand = set()
        exprs = []
        if R is not None:
            for f in s.F.methods_of.get(rid, []):
                if f['kind'] != 'ctor' or f.get('defaulted'): continue
                for i in f.get('inits') or []:
                    if i.get('f') == name: exprs.append((f, i['e']))
            if any(f.get('sp') not in ('cctor', 'mctor') for f, _ in exprs): exprs = [x for x in exprs if x[0].get('sp') not in ('cctor', 'mctor')]
        for f, x in exprs:
            while x is not None and x[0] in ('definit', 'defarg'): x = x[3]
            try:
                env = Env(next(s.n), ('this',), f, 1)
                for i_, p in enumerate(f['params']):
                    env.locs[p[0]] = (('P%d' % i_),)
                for o, p in s.loc(State(), env, x): cand.add(p)
            except Exception: cand.add(None)
        if len(cand) == 1:
            p = next(iter(cand))
            if p and p[0] == 'this' and all(isinstance(c, str) and c != '*' for c in p): s._rb[key] = p[1:]
        return s._rb[key]
    def temp(s, st, v):
        p = (('T', next(s.n)),)
        s.set(st, p, v)
        return p
    def deref(s, v, arr=False):
        k = v[0]
        if k == 'ptr': return v[1]
        if k == 'aptr': return v[1] + (('@', v[2]),)
        if k == 'init': return v[1] + ('*',)
        if k == 'moved': return s.deref(v[1])
        if k == 'uptr': return v[1]
        return (('D', v),)
    def padd(s, b, off):
        if b[0] == 'aptr': return ('aptr', b[1], ladd(b[2], off))
        if b[0] == 'ptr':
            p = b[1]
            if p and isinstance(p[-1], tuple) and p[-1][0] == '@': return ('aptr', p[:-1], ladd(p[-1][1], off))
            return ('aptr', p, off)
        if b[0] == 'init': return ('aptr', b[1] + ('*',), off)
        if b[0] == 'itv': return ('aptr', b, off)
        return ('aptr', (('D', b),), off)
    def addr(s, p):
        if p and isinstance(p[-1], tuple) and p[-1][0] == '@': return ('aptr', p[:-1], p[-1][1])
        return ('ptr', p)

    # -------------------------------------------------------------------------- expressions
    def ev(s, st, env, e, want='val'):
        s.steps += 1
        if s.steps > s.maxsteps: raise Limit('steps')
        k = e[0]
        m = getattr(s, 'ev_' + k, None)
        if m is None: return [(st, opq('?' + k))]
        if k in ('mcall', 'opcall', 'call'):
            r = m(st, env, e, want)
            if want == 'val': r = [(o, s.get(o, v[1]) if v[0] == 'LOC' else v) for o, v in r]
            return r
        return m(st, env, e)
    def ev_int(s, st, env, e): return [(st, const(int(e[3])))]
    def ev_float(s, st, env, e): return [(st, ('op', 'float', str(e[3])))]
    def ev_str(s, st, env, e): return [(st, ('str', e[3]))]
    def ev_null(s, st, env, e): return [(st, NULL)]
    def ev_zero(s, st, env, e):
        t = e[2]
        return [(st, ZERO if t['k'] in ('int', 'bool', 'enum') else NULL if t['k'] == 'ptr' else ('zero',))]
    def ev_this(s, st, env, e): return [(st, ('ptr', env.this))]
    def ev_typeid(s, st, env, e): return [(st, opq('typeid'))]
    def ev_defarg(s, st, env, e): return s.ev(st, env, e[3])
    ev_definit = ev_defarg
    def ev_ref(s, st, env, e):
        if e[3] == 'func': return [(st, ('func', e[4]))]
        if e[3] in ('glob', 'var', 'slocal', 'param') and len(e) > 6 and isinstance(e[6], str):
            try: return [(st, const(int(e[6])))]
            except ValueError: pass
        return [(o, s.get(o, p)) for o, p in s.loc(st, env, e)]
    def ev_mem(s, st, env, e): return [(o, s.get(o, p)) for o, p in s.loc(st, env, e)]
    def ev_idx(s, st, env, e): return [(o, s.get(o, p)) for o, p in s.loc(st, env, e)]
    def ev_cast(s, st, env, e):
        ck = e[3]; sub = e[4]
        if ck == 'ArrayToPointerDecay':
            if sub[0] == 'str': return s.ev(st, env, sub)
            return [(o, ('aptr', p, ZERO)) for o, p in s.loc(st, env, sub)]
        if ck in ('NullToPointer', 'NullToMemberPointer'): return [(st, NULL)]
        if ck == 'ToVoid': return [(o, ('void',)) for o, _ in s.ev(st, env, sub)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(o, const(1 if b else 0)) for o, b in s.cond(st, env, sub) if b is not None]
        if ck in ('LValueBitCast',): return [(o, s.get(o, p)) for o, p in s.loc(st, env, sub)]
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            return [(o, s.fcast(v)) for o, v in s.ev(st, env, sub)]
        return s.ev(st, env, sub)
    def fcast(s, v): return v if v[0] == 'lin' and not v[2] else ('op', 'fcast', v)
    def ev_bin(s, st, env, e):
        o_ = e[3]
        if o_ in ('&&', '||'):
            return [(o, const(1 if b else 0)) for o, b in s.cond(st, env, e) if b is not None]
        if o_ == ',':
            return [x for o, _ in s.ev(st, env, e[4]) for x in s.ev(o, env, e[5])]
        res = []
        for o, a in s.ev(st, env, e[4]):
            for o2, b in s.ev(o, env, e[5]):
                if a == ('thrown',) or b == ('thrown',): res.append((o2, ('thrown',))); continue
                v = s.binop(o_, a, b, e[4][2], e[5][2])
                if s.MERGE and v[0] in ('lin', 'op') and not is_const(v) and v[1:2] != ('cmp',): v = OPQ
                elif s.MERGE and v[0] == 'op' and v[1] == 'cmp' and e[4][2]['k'] != 'ptr': v = OPQ
                res.append((o2, v))
        return res
    def binop(s, o, a, b, ta, tb):
        if o in CMP:
            if o in ('==', '!=') and (ta['k'] in ('ptr', 'nullptr') or tb['k'] in ('ptr', 'nullptr')):
                if a[0] == 'lin' and a == ZERO: a = NULL
                if b[0] == 'lin' and b == ZERO: b = NULL
                return op('cmp', o, a, b)
            if o in ('<', '>', '<=', '>=') or ta['k'] in ('int', 'bool', 'enum'):
                a = as_lin(a); b = as_lin(b)
            return op('cmp', o, a, b)
        pa = ta['k'] in ('ptr', 'arr'); pb = tb['k'] in ('ptr', 'arr')
        if o in ('+', '-') and pa and not pb:
            w = max(1, ((ta.get('pt') or {}).get('w') or 8) // 8)
            return s.padd(a, lscale(as_lin(b), w if o == '+' else -w))
        if o == '+' and pb:
            w = max(1, ((tb.get('pt') or {}).get('w') or 8) // 8)
            return s.padd(b, lscale(as_lin(a), w))
        if o == '-' and pa and pb:
            return atomize(op('ptrdiff', a, b))
        a = as_lin(a); b = as_lin(b)
        if o == '+': return ladd(a, b)
        if o == '-': return ladd(a, b, -1)
        if o == '*': return s.mulv(a, b)
        if is_const(a) and is_const(b):
            x, y = a[1], b[1]
            try:
                if o == '/': return const(int(x / y) if (x < 0) != (y < 0) else x // y)
                if o == '%': return const(x % y)
                if o == '<<': return const(x << y & (2 ** 64 - 1) if y < 64 else 0)
                if o == '>>': return const(x >> y)
                if o == '&': return const(x & y)
                if o == '|': return const(x | y)
                if o == '^': return const(x ^ y)
            except (ZeroDivisionError, ValueError): pass
        if o == '<<' and is_const(b) and 0 <= b[1] < 64: return lscale(a, 1 << b[1])
        if o == '>>' and is_const(b) and 0 <= b[1] < 64: return s.divc(a, 1 << b[1])
        if o == '/' and is_const(b) and b[1] > 0: return s.divc(a, b[1])
        if o in ('&', '|', '^'): a, b = sorted([a, b], key=repr)
        return atomize(op(o, a, b))
    def divc(s, a, n):
        if n == 1: return a
        if all(k % n == 0 for _, k in a[2]):
            return lin(a[1] // n, [(t, k // n) for t, k in a[2]])
        # floor((c*n + r)/n) with inner division folded
        if len(a[2]) == 1 and a[1] == 0 and a[2][0][1] == 1 and a[2][0][0][0] == 'op' and a[2][0][0][1] == 'div':
            _, _, x, m = a[2][0][0]
            return s.divc(x, m[1] * n)
        return atomize(op('div', a, const(n)))
    def ev_un(s, st, env, e):
        o_ = e[3]
        if o_ == '&':
            if e[4][0] == 'ref' and e[4][3] == 'func': return [(st, ('func', e[4][4]))]
            return [(o, s.addr(p)) for o, p in s.loc(st, env, e[4])]
        if o_ == '*': return [(o, s.get(o, p)) for o, p in s.loc(st, env, e)]
        if o_ in ('++', '--', 'p++', 'p--'):
            if o_[0] == 'p':
                res = []
                for o, p in s.loc(st, env, e[4]):
                    v = s.get(o, p)
                    s.bump(o, p, v, e, 1 if '+' in o_ else -1)
                    res.append((o, v))
                return res
            return [(o, s.get(o, p)) for o, p in s.incdec(st, env, e)]
        if o_ == '!':
            return [(o, const(1 if b else 0)) for o, b in s.cond(st, env, e) if b is not None]
        res = []
        for o, v in s.ev(st, env, e[4]):
            if o_ == '-': res.append((o, lscale(as_lin(v), -1)))
            elif o_ == '+': res.append((o, v))
            elif o_ == '~' and is_const(as_lin(v)):
                w = e[2].get('w', 64); res.append((o, const(~as_lin(v)[1] & (2 ** w - 1) if not e[2].get('sg') else ~as_lin(v)[1])))
            else: res.append((o, atomize(op(o_, as_lin(v)))))
        return res
    def bump(s, st, p, v, e, d):
        if s.MERGE and e[2]['k'] != 'ptr': s.set(st, p, OPQ); s.written(st, p, e); return
        t = e[2]
        if t['k'] == 'ptr':
            w = max(1, ((t.get('pt') or {}).get('w') or 8) // 8)
            s.set(st, p, s.padd(v, const(d * w)))
        elif t['k'] in ('int', 'bool', 'enum'): s.set(st, p, ladd(as_lin(v), const(d)))
        else: s.set(st, p, opq('incdec', v))
        s.written(st, p, e)
    def incdec(s, st, env, e):
        res = []
        for o, p in s.loc(st, env, e[4]):
            s.bump(o, p, s.get(o, p), e, 1 if '+' in e[3] else -1)
            res.append((o, p))
        return res
    def written(s, st, p, e): pass
    def ev_asg(s, st, env, e): return [(o, s.get(o, p)) for o, p in s.assign(st, env, e)]
    def assign(s, st, env, e):
        res = []
        o_ = e[3]
        for o, v in s.ev(st, env, e[5]):
            if v == ('thrown',): continue
            for o2, p in s.loc(o, env, e[4]):
                if o_ != '=':
                    old = s.get(o2, p)
                    v2 = s.binop(o_[:-1], old, v, e[4][2], e[5][2])
                else: v2 = v
                if s.MERGE and v2[0] in ('op', 'lin') and not is_const(v2): v2 = OPQ
                if e[4][2]['k'] == 'bool' or e[4][2]['k'] == 'int': v2 = v2
                s.set(o2, p, v2)
                s.written(o2, p, e)
                res.append((o2, p))
        return res
    def ev_cond(s, st, env, e):
        res = []
        for o, b in s.cond(st, env, e[3]):
            if b is None: continue
            res += s.ev(o, env, e[4] if b else e[5])
        if s.MERGE and len(res) > 1: res = [(s.merge([o for o, v in res]), s.join([v for o, v in res]))]
        return s.limit(res)
    def ev_init(s, st, env, e):
        cur = [(st, [])]
        for x in e[3]:
            cur = [(o2, vs + [v]) for o, vs in cur for o2, v in s.ev(o, env, x)] if x is not None else cur
        if len(e[3]) == 1 and e[2]['k'] in ('int', 'bool', 'ptr', 'enum'): return [(o, vs[0]) for o, vs in cur]
        if not e[3]: return s.ev_zero(st, env, e)
        return [(o, opq('initlist', *vs)) for o, vs in cur]
    def ev_new(s, st, env, e):
        p = (('heap', next(s.n)),)
        if e[6]:
            outs = [st]
            n = None
            if e[4] is not None:
                outs = []
                for o, v in s.ev(st, env, e[4]): outs.append(o)
            for o in outs: s.set(o, p, UNINIT if e[5] is None else ('zero',))
            return [(o, ('aptr', p, ZERO)) for o in outs]
        return [(o, ('ptr', p)) for o in s.init_loc(st, env, p, e[5], e[3])]
    def ev_del(s, st, env, e):
        return [(o, ('void',)) for o, v in s.ev(st, env, e[4])]
    def ev_throw(s, st, env, e): return [(st, ('thrown',))]
    def ev_lambda(s, st, env, e): return [(st, ('lambda', e[3], id(env), env))]
    def ev_unk(s, st, env, e):
        cur = [(st, [])]
        for x in e[4]:
            if x[0] in ('block',): continue
            cur = [(o2, vs + [v]) for o, vs in cur for o2, v in s.ev(o, env, x)]
        return [(o, opq('unk', *vs)) for o, vs in cur]

    # constructors ----------------------------------------------------------------
    def ev_ctor(s, st, env, e, path=None, base=False):
        """construct an object (at `path` or a temporary); returns (state, value)"""
        kind = e[5]; rid = e[6]; args = e[4]
        R = s.F.records.get(rid)
        target = path
        own = rid == s.cur_rid and s.F.fn(e[3]) is not None and (s.F.fn(e[3])['body'] is not None) and e[3] not in env.stack
        if kind in ('copy', 'move') and len(args) == 1 and not base and not own:
            res = []
            for o, p in s.loc(st, env, args[0]):
                v = s.get(o, p)
                if target is None: 
                    if kind == 'move' and not (isinstance(p[0], tuple) and p[0][0] == 'T'): s.set(o, p, ('moved', v))
                    res.append((o, v)); continue
                s.rec_copy(o, env, target, p, kind, R)
                res.append((o, s.get(o, target)))
            return res
        if kind == 'default' and not base:
            real = [a for a in args if a is not None and a[0] != 'defarg']
            if not real:
                v = ('default', rid, e[2].get('rn'))
                if target is not None: s.set(st, target, v)
                return [(st, v)]
        f = s.F.fn(e[3], env.fn.get('tu') if env.fn else None)
        # evaluate arguments
        tmp = target if target is not None else (('T', next(s.n)),)
        outs = []
        for o, vals in s.args(st, env, args, f):
            r = s.construct(o, env, e, f, R, tmp, vals, base)
            for o2 in r: outs.append((o2, s.get(o2, tmp)))
        return outs
    def construct(s, st, env, e, f, R, path, vals, base):
        if f is not None and R is not None and (f['body'] is not None or f.get('inits')) and s.inline_ok(st, env, f, path, vals):
            if not base: s.set(st, path, UNINIT)
            return [o for o, k, v in s.call(st, f, path, vals, env.depth + 1, None, env.stack) if k != 'throw']
        if base and e[5] in ('copy', 'move') and R is not None and vals and vals[0][0] == 'ptr':
            s.rec_copy(st, env, path, vals[0][1], e[5], R)
            return [st]
        if not base:
            if R is None and (e[2].get('tn') or '').startswith(STD):
                s.set(st, path, s.std_ctor(st, e, vals))
            else: s.set(st, path, opq('ctor', *[s.through(st, v) for v in vals]))
        s.escape(st, vals, f, e)
        return [st]
    def std_ctor(s, st, e, vals):
        tn = e[2].get('tn') or ''
        if tn == 'std::unique_ptr' and vals: return vals[0] if vals[0][0] != 'ptr' or True else vals[0]
        return opq('ctor', *[s.through(st, v) for v in vals])
    def through(s, st, v):
        """value seen through an address (dependence of an opaque result on what is pointed to)"""
        if v[0] == 'ptr': return s.get(st, v[1])
        return v
    def is_base_of_own(s, path, R):
        return len(path) == 1 and R is not None and s.cur_rid is not None and R['id'] != s.cur_rid and path[0] in ('this', 'P0')
    def rec_copy(s, st, env, dst, src, kind, R):
        if s.is_base_of_own(dst, R):
            for fl in s.all_fields(R):
                s.rec_copy(st, env, dst + (fl['n'],), src + (fl['n'],), kind, s.F.records.get(fl['t'].get('rec')))
            return
        v = s.get(st, src)
        if kind in ('move', 'amove') and not (isinstance(src[0], tuple) and src[0][0] == 'T'):
            s.set(st, src, ('moved', v))
        s.set(st, dst, v)
        if R is not None: s.rebind(st, dst, src, kind, R['id'])
    def all_fields(s, R):
        out = []
        for b in R['bases']:
            if b['k'] == 'rec' and b['rec'] in s.F.records: out += s.all_fields(s.F.records[b['rec']])
        return out + R['fields']
    def rebind(s, st, dst, src, kind, rid): pass

    def args(s, st, env, es, f=None):
        """evaluate call arguments -> list of (state, [values]); reference parameters get addresses"""
        cur = [(st, [])]
        for i, a in enumerate(es):
            pt = f['params'][i][2] if f is not None and i < len(f['params']) else None
            byref = (pt is not None and pt['k'] in ('ref', 'rref')) or (pt is None and s.is_glvalue(a))
            nxt = []
            for o, vs in cur:
                if byref:
                    for o2, p in s.loc(o, env, a): nxt.append((o2, vs + [s.addr(p)]))
                else:
                    for o2, v in s.ev(o, env, a): nxt.append((o2, vs + [v]))
            cur = s.limit(nxt)
        return cur
    def is_glvalue(s, a):
        k = a[0]
        if k in ('ref',): return a[3] != 'func' and not (len(a) > 6 and isinstance(a[6], str)) and a[2]['k'] in ('rec', 'arr')
        if k in ('mem', 'idx'): return a[2]['k'] in ('rec', 'arr')
        if k == 'un' and a[3] == '*': return a[2]['k'] == 'rec'
        if k in ('mcall', 'opcall', 'call'): return a[2]['k'] == 'rec'
        return False

    # calls -------------------------------------------------------------------------
    def ev_call(s, st, env, e, want='val'):
        name = e[4]
        b = s.builtin_call(st, env, e, name, want)
        if b is not None: return b
        f = s.F.fn(e[3], env.fn.get('tu') if env.fn else None) if e[3] else None
        res = []
        if e[3] is None and len(e) > 6:
            cur = s.ev(st, env, e[6])
            return [(o2, opq('indirect', *vs)) for o, _ in cur for o2, vs in s.args(o, env, e[5], None)]
        for o, vals in s.args(st, env, e[5], f):
            res += s.invoke(o, env, e, f, None, vals, name, want, e[5])
        return res
    def ev_mcall(s, st, env, e, want='val'):
        name = e[4]
        f = s.F.fn(e[3], env.fn.get('tu') if env.fn else None) if e[3] else None
        res = []
        if e[5] is None: return [(st, opq('mcall'))]
        objs = []
        if e[7] :
            for o, v in s.ev(st, env, e[5]): objs.append((o, s.deref(v)))
        else: objs = s.loc(st, env, e[5])
        for o, p in objs:
            for o2, vals in s.args(o, env, e[6], f):
                res += s.method(o2, env, e, f, p, vals, name, want)
        return s.limit(res)
    def ev_opcall(s, st, env, e, want='val'):
        o_ = e[3]; args = e[6]
        f = s.F.fn(e[4], env.fn.get('tu') if env.fn else None) if e[4] else None
        res = []
        # assignment of records
        if e[7] and args:
            for o, p in s.loc(st, env, args[0]) if not (o_ == '*' and False) else []:
                if o_ == '=' and len(args) == 2:
                    res += s.record_assign(o, env, e, f, p, args[1], want)
                    continue
                for o2, vals in s.args(o, env, args[1:], f):
                    res += s.method(o2, env, e, f, p, vals, e[5], want)
            return s.limit(res)
        for o, vals in s.args(st, env, args, f):
            res += s.invoke(o, env, e, f, None, vals, e[5], want, args)
        return s.limit(res)
    def record_assign(s, st, env, e, f, p, rhs, want):
        t = e[6][0][2]
        R = s.F.records.get(e[8])
        rt = rhs[2]
        kind = None
        if p and isinstance(p[-1], tuple) and p[-1][0] == '[' and e[5].startswith('sdsl::int_vector_reference::'):
            return [(o, ('LOC', p)) for o, v in s.ev(st, env, rhs) for _ in [s.set(o, p, v)]]
        if f is not None and f.get('sp') in ('casg', 'masg'): kind = 'copy' if f['sp'] == 'casg' else 'move'
        elif f is None and rt.get('s', '').replace('const ', '') == t.get('s', '').replace('const ', ''):
            kind = 'move' if s.is_move(rhs) else 'copy'
        if kind and f is not None and f['body'] is not None and e[8] == s.cur_rid and f['id'] not in env.stack: kind = None
        if kind:
            res = []
            for o, q in s.loc(st, env, rhs):
                if not s.assign_hook(o, env, e, f, p, q, kind):
                    s.rec_copy(o, env, p, q, 'amove' if kind == 'move' else 'acopy', R) if p != q else None
                res.append((o, ('LOC', p)))
            return res
        res = []
        for o, vals in s.args(st, env, [rhs], f):
            res += s.method(o, env, e, f, p, vals, e[5], want)
        return res
    def assign_hook(s, st, env, e, f, p, q, kind): return False
    def is_move(s, e):
        return (e[0] == 'call' and e[4] == 'std::move') or e[0] in ('ctor', 'call', 'mcall')

    def method(s, st, env, e, f, p, vals, name, want):
        b = s.builtin_method(st, env, e, f, p, vals, name, want)
        if b is not None: return b
        return s.invoke(st, env, e, f, p, vals, name, want, None)
    def invoke(s, st, env, e, f, this, vals, name, want, argnodes):
        h = s.hook(st, env, e, f, this, vals, name, want)
        if h is not None: return h
        if f is not None and (f['body'] is not None) and s.inline_ok(st, env, f, this, vals):
            res = []
            rk = f['ret']['k']
            parent = None
            for o, k, v in s.call(st, f, this, vals, env.depth + 1, parent, env.stack):
                if k == 'throw': res.append((o, ('thrown',))); continue
                if rk in ('ref', 'rref'):
                    res.append((o, ('LOC', s.deref(v))))
                else: res.append((o, v))
            return s.limit(res)
        return s.opaque_call(st, env, e, f, this, vals, name, want)
    def opaque_call(s, st, env, e, f, this, vals, name, want):
        ins = [s.through(st, v) for v in vals]
        if s.MERGE: ins = []
        cst = True
        if this is not None:
            cst = bool(e[10] if e[0] == 'mcall' else (e[9] if e[0] == 'opcall' else 1))
            if not s.MERGE: ins.append(s.get(st, this))
        short = name.split('::')[-1]
        if s.MERGE: r = OPQ
        else: r = op('call', name, *[v for v in ins]) if all(not isinstance(v, list) for v in ins) and len(repr(ins)) < 600 else opq(short, *ins)
        if this is not None and not cst: s.set(st, this, opq(short, *ins))
        s.escape(st, vals, f, e, ins)
        if e[2]['k'] == 'rec' and want == 'loc': return [(st, r)]
        return [(st, r)]
    def escape(s, st, vals, f, e, ins=None):
        """locations passed by non-const reference/pointer to unknown code become opaque"""
        for i, v in enumerate(vals):
            if v[0] not in ('ptr', 'aptr'): continue
            t = f['params'][i][2] if f is not None and i < len(f['params']) else None
            if t is None: t = s.param_type_guess(e, i)
            if t is not None and (t.get('pt') or {}).get('c'): continue
            if t is None: continue
            p = v[1]
            s.set(st, p, opq('arg', s.get(st, p), *(ins or [])))
    def param_type_guess(s, e, i): return None
    def hook(s, st, env, e, f, this, vals, name, want):
        return s.mm_hook(st, env, e, f, this, vals, name, want)
    def mm_hook(s, st, env, e, f, this, vals, name, want):
        """the memory manager: resize/clear of a vector's payload (checked on its own)"""
        if not name.startswith('sdsl::memory_manager::') or not vals or vals[0][0] != 'ptr': return None
        m = name.rsplit('::', 1)[1]; p = vals[0][1]
        if m == 'resize' and len(vals) == 2:
            old = s.get(st, p + ('m_data',)); h = (('heap', next(s.n)),)
            oc = s.get(st, s.blk(old)) if old[0] in ('ptr', 'aptr', 'init') else old
            s.set(st, h, opq('resized', oc))
            s.set(st, p + ('m_size',), as_lin(vals[1])); s.set(st, p + ('m_data',), ('aptr', h, ZERO))
            return [(st, ('void',))]
        if m == 'clear':
            s.set(st, p + ('m_size',), ZERO); s.set(st, p + ('m_data',), NULL)
            return [(st, ('void',))]
        return None
    FOREIGN = 150
    def inline_ok(s, st, env, f, this, vals):
        if env.depth >= s.MAXDEPTH: return False
        if env.stack.count(f['id']) >= 1: return False
        if s.cur_rid is not None and this is not None and f.get('cls') != s.cur_rid and s.weight(f) > s.FOREIGN: return False
        return True
    def weight(s, f):
        w = f.get('_w')
        if w is None:
            w = f['_w'] = sum(1 for _ in s.nodes(f))
        return w

    # library models ------------------------------------------------------------------
    def builtin_call(s, st, env, e, name, want):
        a = e[5]
        if name in ('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref') and len(a) == 1:
            r = s.loc(st, env, a[0])
            if name == 'std::addressof': return [(o, ('ptr', p)) for o, p in r]
            return [(o, ('LOC', p)) for o, p in r]
        if name == 'std::swap' and len(a) == 2:
            res = []
            for o, p in s.loc(st, env, a[0]):
                for o2, q in s.loc(o, env, a[1]):
                    s.swap_locs(o2, env, p, q, a[0][2]); res.append((o2, ('void',)))
            return res
        if name in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy') and len(a) == 3:
            res = []
            for o, vals in s.args(st, env, a, None):
                d, sr, n = vals
                dp = s.blk(d); sp = s.blk(sr)
                s.set(o, dp, s.get(o, sp)); s.written(o, dp, e)
                o.ev.append(('memcpy', dp, sp, as_lin(n), e[1]))
                res.append((o, d))
            return res
        if name in ('std::min', 'std::max') and len(a) >= 2:
            res = []
            for o, x in s.ev(st, env, a[0]):
                for o2, y in s.ev(o, env, a[1]):
                    x1, y1 = as_lin(x), as_lin(y)
                    if is_const(x1) and is_const(y1): r = const((min if name[5:] == 'min' else max)(x1[1], y1[1]))
                    else:
                        x2, y2 = sorted([x1, y1], key=repr); r = atomize(op(name[5:], x2, y2))
                    res.append((o2, r))
            return res
        if name in ('std::copy', 'std::copy_n') and len(a) == 3:
            res = []
            for o, vals in s.args(st, env, a, None):
                dp = s.blk(vals[2]); sp = s.blk(vals[0])
                s.set(o, dp, s.get(o, sp)); s.written(o, dp, e)
                res.append((o, vals[2]))
            return res
        if name in ('std::fill', 'std::fill_n', 'memset', 'std::memset', 'std::sort') and a:
            res = []
            for o, vals in s.args(st, env, a, None):
                dp = s.blk(vals[0]); s.set(o, dp, opq('fill', *vals)); s.written(o, dp, e)
                res.append((o, ('void',)))
            return res
        if name in ('std::begin', 'std::end'):
            return [(o, ('aptr', p, ZERO)) for o, p in s.loc(st, env, a[0])]
        return None
    def blk(s, v):
        """memory block a pointer value designates"""
        if v[0] == 'aptr': return v[1]
        if v[0] == 'ptr': return v[1]
        if v[0] == 'init': return v[1] + ('*',)
        if v[0] == 'iterval': return v[1]
        return (('D', v),)
    def swap_locs(s, st, env, p, q, t):
        if p == q: return
        a = s.get(st, p); b = s.get(st, q)
        s.set(st, p, b); s.set(st, q, a)
        s.written(st, p, None); s.written(st, q, None)
        if t['k'] == 'rec' and s.F.records.get(t['rec']):
            s.rebind(st, p, q, 'amove', t['rec']); s.rebind(st, q, p, 'amove', t['rec'])
    ELEM = ('sdsl::int_vector::operator[]',)
    def elem_method(s, st, env, e, f, p, vals, name, want):
        if name in s.ELEM and vals and not (f is not None and f.get('cls') == s.cur_rid):
            i = as_lin(s.through(st, vals[0]) if vals[0][0] == 'ptr' else vals[0])
            return [(st, ('LOC', p + (('[', i),)))]
        if p and isinstance(p[-1], tuple) and p[-1][0] == '[' and f is not None and name.startswith('sdsl::int_vector_reference::'):
            m = name.rsplit('::', 1)[1]
            old = s.get(st, p)
            if m.startswith('operator ') : return [(st, old)]
            if m == 'operator=' and vals:
                v = vals[0]
                if v[0] == 'ptr': v = s.get(st, v[1])
                s.set(st, p, v); return [(st, ('LOC', p))]
            s.set(st, p, opq(m, old, *vals)); return [(st, ('LOC', p))]
        return None
    def builtin_method(s, st, env, e, f, p, vals, name, want):
        r = s.elem_method(st, env, e, f, p, vals, name, want)
        if r is not None: return r
        if not name.startswith(STD): return None
        cls = name.rsplit('::', 1)[0]; m = name.rsplit('::', 1)[1]
        if m == 'swap' and len(vals) == 1 and vals[0][0] == 'ptr':
            q = vals[0][1]
            a, b = s.get(st, p), s.get(st, q)
            s.set(st, p, b); s.set(st, q, a)
            return [(st, ('void',))]
        if cls in ('std::unique_ptr', 'std::shared_ptr'):
            v = s.get(st, p)
            if m in ('operator*',): return [(st, ('LOC', s.deref(v)))]
            if m in ('operator->', 'get'): return [(st, v)]
            if m == 'reset':
                s.set(st, p, vals[0] if vals else NULL); return [(st, ('void',))]
            if m == 'operator=' and vals:
                s.set(st, p, s.through(st, vals[0]) if vals[0][0] == 'ptr' and vals[0][1] and isinstance(vals[0][1][0], tuple) and vals[0][1][0][0] == 'T' else vals[0]); return [(st, ('LOC', p))]
        if cls in ('std::vector', 'std::array', 'std::basic_string', 'std::deque') or cls.startswith('std::_Vector') or cls == 'std::vector<bool>':
            if m in ('operator[]', 'at') and vals:
                i = as_lin(s.through(st, vals[0]) if vals[0][0] == 'ptr' else vals[0])
                return [(st, ('LOC', p + (('[', i),)))]
            if m in ('front',): return [(st, ('LOC', p + (('[', ZERO),)))]
            if m in ('data', 'begin', 'cbegin'): return [(st, ('aptr', p, ZERO))]
            if m in ('end', 'cend'): return [(st, ('aptr', p, atomize(op('size', s.get(st, p)))))]
            if m in ('size', 'length'): return [(st, s.size_of(st, p))]
            if m == 'empty': return [(st, op('cmp', '==', s.size_of(st, p), ZERO))]
        if m in ('operator*', 'operator->') and not vals:
            v = s.get(st, p)
            if v[0] == 'aptr':
                q = v[1] + (('[', v[2]),)
                return [(st, ('LOC', q) if m == 'operator*' else ('ptr', q))]
        if m == 'write' and 'stream' in cls and len(vals) == 2:
            return s.stream_write(st, env, e, vals)
        if m == 'read' and 'stream' in cls and len(vals) == 2:
            return s.stream_read(st, env, e, vals)
        if m in ('operator bool', 'good', 'fail', 'is_open', 'operator!', 'tellp', 'tellg', 'gcount'):
            return [(st, ('op', 'call', name, ('n', next(s.n))))]
        return None
    def stream_write(s, st, env, e, vals):
        st.ev.append(('w', s.base_off(vals[0]), as_lin(vals[1]), s.peek(st, vals[0]), e[1]))
        return [(st, ('void',))]
    def base_off(s, v):
        if v[0] == 'aptr': return (v[1], v[2])
        if v[0] == 'ptr': return (v[1], ZERO)
        if v[0] == 'init': return (v[1] + ('*',), ZERO)
        return ((('D', v),), ZERO)
    def peek(s, st, v):
        p, o = s.base_off(v)
        return s.get(st, p)
    def stream_read(s, st, env, e, vals):
        p, o = s.base_off(vals[0])
        s.set(st, p, opq('read', s.get(st, p)))
        return [(st, ('void',))]
