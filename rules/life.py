"""Lifecycle operations (copy / move / assign / swap): provenance of every data member."""
from interp import *
from facts import fn_nodes, walk

STREAMS = ('sdsl::isfstream::', 'sdsl::osfstream::')
OPS = ('cctor', 'mctor', 'casg', 'masg', 'swap')

class LifeInterp(Interp):
    def __init__(s, F, summ=None):
        Interp.__init__(s, F)
        s.summ = summ if summ is not None else {}
    # pointer rebinding done by member classes
    def rebind(s, st, dst, src, kind, rid):
        for leaf, q in s.summary(rid, kind).items():
            s.set(st, dst + leaf, ('ptr', dst + q))
    def summary(s, rid, kind):
        """pointer leaves that the class itself re-binds to one of its own members in copy/move"""
        key = (rid, kind)
        if key in s.summ: return s.summ[key]
        s.summ[key] = {}
        R = s.F.records.get(rid)
        out = {}
        if R is None: return out
        order = {'copy': ('cctor', 'casg'), 'move': ('mctor', 'cctor', 'masg', 'casg'), 'acopy': ('casg', 'cctor'), 'amove': ('masg', 'casg', 'mctor', 'cctor')}[kind]
        f = None
        for o_ in order:
            ms = [m for m in R['methods'] if m.get('sp') == o_ and not m.get('del')]
            if not ms: continue
            if ms[0].get('impl') or ms[0].get('dft'): f = None; break
            f = find_op(s.F, rid, o_)
            if f is not None and f['body'] is not None: break
        if f is not None and f['body'] is not None and not f.get('defaulted'):
            try: rs = run_op(s.F, f, s.summ)
            except Limit: rs = []
            for st in rs:
                for p, v in st.store.items():
                    if p[0] == 'this' and v[0] == 'ptr' and v[1][:1] == ('this',): out[p[1:]] = v[1][1:]
        else:
            for b in R['bases']:
                if b['k'] == 'rec':
                    out.update(s.summary(b['rec'], kind))
            for fl in R['fields']:
                if fl['t']['k'] == 'rec' and fl['t']['rec'] in s.F.records:
                    for leaf, q in s.summary(fl['t']['rec'], kind).items():
                        out[(fl['n'],) + leaf] = (fl['n'],) + q
        s.summ[key] = out
        return out
    def is_field_obj(s, this):
        return this is not None
    def hook(s, st, env, e, f, this, vals, name, want):
        if f is None: return None
        r = s.mm_hook(st, env, e, f, this, vals, name, want)
        if r is not None: return r
        if name.startswith(STREAMS) and this is not None: return s.opaque_call(st, env, e, f, this, vals, name, want)
        # member object's own swap
        if f['name'] == 'swap' and f['kind'] == 'method' and len(vals) == 1 and vals[0][0] == 'ptr' and env.depth >= 0 and this is not None \
                and f.get('cls') in s.F.records and env.fn is not None and f['id'] not in env.stack:
            q = vals[0][1]
            if f['cls'] != s.cur_rid:
                R = s.F.records[f['cls']]
                if s.is_base_of_own(this, R):
                    for fl in s.all_fields(R):
                        a, b = s.get(st, this + (fl['n'],)), s.get(st, q + (fl['n'],))
                        if this != q: s.set(st, this + (fl['n'],), b); s.set(st, q + (fl['n'],), a)
                    return [(st, ('void',))]
                if this == q: return [(st, ('void',))]
                a, b = s.get(st, this), s.get(st, q)
                s.set(st, this, b); s.set(st, q, a)
                s.rebind_swap(st, this, q, f)
                return [(st, ('void',))]
        return None
    def rebind_swap(s, st, p, q, f):
        rid = f['cls']; key = (rid, 'swap')
        if key not in s.summ:
            s.summ[key] = {}
            out = {}
            try: rs = run_op(s.F, f, s.summ)
            except Limit: rs = []
            for o in rs:
                for pp, v in o.store.items():
                    if pp[0] == 'this' and v[0] == 'ptr' and v[1][:1] == ('this',): out[pp[1:]] = v[1][1:]
            s.summ[key] = out
        for leaf, t in s.summ[key].items():
            s.set(st, p + leaf, ('ptr', p + t)); s.set(st, q + leaf, ('ptr', q + t))

def find_op(F, rid, op):
    for f in F.methods_of.get(rid, []):
        if op == 'swap':
            if f['name'] == 'swap' and f['kind'] == 'method' and len(f['params']) == 1 and not f.get('static'):
                t = f['params'][0][2]
                if t['k'] == 'ref' and (t.get('pt') or {}).get('rec') == rid: return f
        elif f.get('sp') == op: return f
    return None

ALIAS = tuple(sorted([('ptr', ('this',)), ('ptr', ('P0',))], key=repr))

def run_op(F, f, summ, alias=False):
    """final states of the (non self-aliasing) paths of operation f"""
    I = LifeInterp(F, summ)
    st = State(); I.cur_rid = f.get('cls')
    if f['kind'] == 'ctor': st.store[('this',)] = UNINIT
    st.conds[('eqv',) + ALIAS] = alias
    args = I.symargs(f)
    if alias: args = [('ptr', ('this',)) if f['params'][0][2]['k'] in ('ref', 'rref') else ('init', ('this',))]
    return [o for o, k, v in I.run(f, st, ('this',), args) if k == 'ret']


class BindInterp(LifeInterp):
    """path-joining mode that follows only what can change non-owning pointer members"""
    MERGE = True
    FOREIGN = 10 ** 9
    def __init__(s, F, summ=None):
        LifeInterp.__init__(s, F, summ)
        s.rel = relevant_functions(F); s._rn = s.F.__dict__.setdefault('_relnodes', {})
    def relevant(s, n):
        k = id(n)
        r = s._rn.get(k)
        if r is None:
            r = s._rn[k] = any(rel_node(s.F, x, s.rel) for x in walk(n))
        return r
    def st(s, st, env, n):
        if n is not None and n[0] not in ('block', 'decl', 'ret', 'break', 'cont', 'case', 'default', 'try', 'label') and not any(x[0] in ('ret', 'break', 'cont', 'throw') for x in walk(n)) and not s.relevant(n):
            return [(st, 'next', None)]
        return LifeInterp.st(s, st, env, n)
    def st_decl(s, st, env, n):
        if not s.relevant(n):
            for (i, name, t, e, static) in n[2]:
                l = (('L', env.fid, i, name),)
                env.locs[i] = l
                if t['k'] in ('ref', 'rref', 'ptr'):
                    return LifeInterp.st_decl(s, st, env, n)
                s.set(st, l, OPQ)
            return [(st, 'next', None)]
        return LifeInterp.st_decl(s, st, env, n)
    def inline_ok(s, st, env, f, this, vals):
        if f['id'] not in s.rel: return False
        return LifeInterp.inline_ok(s, st, env, f, this, vals)
    def opaque_call(s, st, env, e, f, this, vals, name, want):
        if this is not None and not bool(e[10] if e[0] == 'mcall' else (e[9] if e[0] == 'opcall' else 1)):
            st.store[this + ('#t',)] = ZERO
        for i, v in enumerate(vals):
            if v[0] == 'ptr' and f is not None and i < len(f['params']) and not (f['params'][i][2].get('pt') or {}).get('c'):
                st.store[v[1] + ('#t',)] = ZERO
        return [(st, OPQ)]
    def escape(s, *a): pass

def nonowned(F, fields={}):
    r = F.__dict__.get('_nonown')
    if r is None:
        from check_life import owned_fields
        r = F._nonown = set()
        for rid, R in F.records.items():
            own = owned_fields(F, R)
            for f in R['fields']:
                if f['t']['k'] == 'ptr' and f['n'] not in own: r.add((rid, f['n']))
    return r

def rel_node(F, n, rel):
    k = n[0]
    if k == 'asg': return n[4][2]['k'] in ('ptr', 'rec')
    if k == 'call': return n[3] in rel or n[4] in ('std::swap', 'std::move', 'std::forward')
    if k == 'mcall': return n[3] in rel or n[4].rsplit('::', 1)[-1] == 'swap'
    if k == 'opcall': return n[4] in rel or (n[3] == '=' and n[6] and n[6][0][2]['k'] == 'rec' and (n[6][0][2]['rec'] in F.records) and has_ptr(F, n[6][0][2]['rec']))
    if k == 'ctor': return n[3] in rel
    if k in ('new', 'del'): return False
    return False

def has_ptr(F, rid):
    c = F.__dict__.setdefault('_hasptr', {})
    if rid not in c:
        c[rid] = False
        R = F.records.get(rid)
        if R is not None:
            c[rid] = any((rid, f['n']) in nonowned(F) or (f['t']['k'] == 'rec' and has_ptr(F, f['t']['rec'])) for f in R['fields']) or any(b['k'] == 'rec' and has_ptr(F, b['rec']) for b in R['bases'])
    return c[rid]

def relevant_functions(F):
    """functions that may, directly or through calls, give a non-owning pointer member a value"""
    r = F.__dict__.get('_relfn')
    if r is not None: return r
    no = nonowned(F)
    rel = set(); callers = {}
    for f in F.functions.values():
        if f['body'] is None and not f.get('inits'): continue
        base = False
        if f['kind'] == 'ctor':
            R = F.records.get(f.get('cls'))
            if R is not None and (has_ptr(F, R['id'])): base = True
        for n in fn_nodes(f):
            k = n[0]
            if k == 'asg' and n[4][0] == 'mem' and (n[4][6], n[4][4]) in no: base = True
            elif k == 'opcall' and n[3] == '=' and n[6] and n[6][0][2]['k'] == 'rec' and has_ptr(F, n[6][0][2]['rec']): base = True
            elif k == 'call' and n[4] == 'std::swap' and n[5] and (n[5][0][2]['k'] == 'ptr' or (n[5][0][2]['k'] == 'rec' and has_ptr(F, n[5][0][2]['rec']))): base = True
            c = n[3] if k in ('call', 'mcall', 'ctor') else n[4] if k == 'opcall' else None
            if c is not None: callers.setdefault(c, set()).add(f['id'])
        if base: rel.add(f['id'])
    work = list(rel)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in rel: rel.add(c); work.append(c)
    F._relfn = rel
    return rel
