"""Interprocedural write-root analysis.

For every function of the program: which objects can it write, in terms of
  ('T',0) the storage of *this          ('T',1) what pointers inside *this lead to
  ('P',i,0) the referent of reference parameter i   ('P',i,1) what pointers inside parameter i lead to
  ('G',usr) a global / static member     ('S',fn,name) a function-local static
Local storage never leaves a function.  Flow insensitive inside a function, context sensitive through
summaries with substitution at every call."""
from facts import children, fn_nodes, walk

CONST_STD = {'size','empty','length','c_str','begin','end','cbegin','cend','find','count','substr','at','front','back','data','good','fail','eof','bad','tellg','tellp','str','capacity','max_size','rdbuf','gcount','is_open','get','compare','first','second','lower_bound','upper_bound','top','operator[]','rfind','find_first_of','joinable','equal_range','rbegin','rend'}
DEST = {'std::copy': (2,), 'std::copy_n': (2,), 'std::copy_backward': (2,), 'std::transform': (2, 3), 'std::merge': (4,), 'std::set_intersection': (4,), 'std::memcpy': (0,), 'memcpy': (0,), 'std::partial_sum': (2,), 'std::unique_copy': (2,), 'memcmp': (), 'strlen': (), 'std::strlen': (), 'strcmp': ()}
PURE_ALGO = {'std::min','std::max','std::swap_','std::lower_bound','std::upper_bound','std::equal','std::find','std::accumulate','std::distance','std::equal_range','std::binary_search','std::min_element','std::max_element','std::get','std::make_pair','std::make_tuple','std::tie','std::move','std::forward','std::count','std::begin','std::end','std::to_string','std::is_sorted','std::abs','std::log2','std::ceil','std::pow','std::sqrt','std::floor','std::make_unique','std::make_shared','std::addressof','std::next','std::prev','std::ref','std::cref','std::unique_ptr','std::search','std::mismatch','std::all_of','std::any_of','std::for_each','std::isnan'}
ARG0_PASS = {'std::move','std::forward','std::get','std::min','std::max','std::addressof','std::begin','std::end','std::next','std::prev','std::lower_bound','std::upper_bound','std::find','std::ref','std::cref'}

def isptr(t): return t['k'] in ('ptr', 'arr')
def isref(t): return t['k'] in ('ref', 'rref')

class Effects:
    def __init__(s, F):
        s.F = F; s.hp = {}; s.sum = {}; s.deps = {}; s.prog = {}
        s.cur = None
    # does a value of this type lead to memory that is not its own (views, pointers)?
    def hasptr(s, t, d=0):
        k = t['k']
        if k == 'ptr': return True
        if k in ('ref', 'rref'): return True
        if k == 'arr': return s.hasptr(t['pt'], d + 1)
        if k == 'rec':
            rid = t.get('rec')
            if rid in s.hp: return s.hp[rid]
            s.hp[rid] = False
            r = s.F.records.get(rid); res = False
            if r is not None:
                if r.get('lambda'): res = True
                for f in r['fields']:
                    if s.hasptr(f['t'], d + 1) and not s.owned(r, f['n']): res = True
                for b in r['bases']:
                    if s.hasptr(b, d + 1): res = True
            else:
                for a in t.get('ta', []):
                    if a and s.hasptr(a, d + 1): res = True
                if t.get('rn', '').startswith('std::basic_') or 'allocator' in t.get('tn', ''): res = False
            s.hp[rid] = res
            return res
        return False
    def owned(s, r, f):
        from check_life import owned_fields
        return f in owned_fields(s.F, r)

    # ------------------------------------------------------------------ one function
    def analyse(s, f):
        s.f = f; s.tu = f.get('tu'); s.new = dict(W={}, R=set(), ST=set())
        fid = f['id']
        if fid not in s.prog: s.prog[fid] = {}
        s.pts = s.prog[fid].setdefault('pts', {}); s.vf = s.prog[fid].setdefault('vf', {})
        s.refs = s.prog[fid].setdefault('refs', {})
        s.params = {p[0]: (i, p[2]) for i, p in enumerate(f['params'])}
        for _ in range(6):
            s.changed = False
            for i in f.get('inits') or []:
                if i['e'] is None: continue
                s.expr(i['e'])
                fld = i.get('f')
                if fld is not None:
                    ft = s.field_type(f.get('cls'), fld)
                    src = s.loc(i['e']) if ft is not None and isref(ft) else s.val(i['e'])
                    s.store({('T', 0, fld)}, src)
                elif i.get('d') or 'b' in i:
                    s.storerec({('T', 0, None)}, s.vals(i['e']))
            if f['body'] is not None: s.stmt(f['body'])
            if not s.changed: break
        return s.new
    def field_type(s, rid, n):
        r = s.F.records.get(rid)
        if r:
            for x in r['fields']:
                if x['n'] == n: return x['t']
        return None
    def write(s, roots, node, how):
        for r in roots:
            if r[0] == 'V': continue
            if r not in s.new['W']: s.new['W'][r] = (s.f['file'], node[1], how)
    @staticmethod
    def fld(r): return r[2] if r[0] in 'TV' else r[3] if r[0] == 'P' else None
    @staticmethod
    def withf(r, f):
        """the part f of the storage r (only the outermost member is told apart)"""
        if r[0] == 'V': return r if r[2] is not None else ('V', r[1], f)
        if r[0] == 'T': return r if r[2] is not None else ('T', r[1], f)
        if r[0] == 'P': return r if r[3] is not None else ('P', r[1], r[2], f)
        return r
    def store(s, dst, src):
        """a value leading to src is stored in the storage dst"""
        if not src: return
        for d in dst:
            if d[0] == 'V':
                cur = s.pts.setdefault((d[1], d[2]), set())
                if not src <= cur: cur |= src; s.changed = True; s.vf.setdefault(d[1], set()).add(d[2])
            elif d[0] in 'TP':
                for r in src:
                    if r[0] in 'TPGS' and r != d:
                        s.new['ST'].add((('T', s.fld(d)) if d[0] == 'T' else ('P', d[1], s.fld(d)), r))
    def storerec(s, dst, pairs):
        for f, r in pairs:
            s.store({s.withf(d, f) if f is not None else d for d in dst}, {r})
    def load(s, roots):
        res = set()
        for r in roots:
            if r[0] == 'V':
                if r[2] is None:
                    for f in s.vf.get(r[1], ()): res |= s.pts.get((r[1], f), set())
                else: res |= s.pts.get((r[1], r[2]), set()) | s.pts.get((r[1], None), set())
            elif r[0] == 'T': res.add(('T', 1, r[2]))
            elif r[0] == 'P': res.add(('P', r[1], 1, r[3]))
            else: res.add(r)
        return res
    def recfields(s, t):
        r = s.F.records.get(t.get('rec')) if t['k'] == 'rec' else None
        return [f['n'] for f in r['fields'] if s.hasptr(f['t'])] if r else None
    def vals(s, e):
        """(member, root) pairs of a record value"""
        k = e[0]; t = e[2]
        if not isinstance(t, dict): return set()
        while k in ('defarg', 'definit') or k == 'cast' and e[3] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            e = e[4] if k == 'cast' else e[3]; k = e[0]; t = e[2]
        if t['k'] != 'rec': return {(None, r) for r in s.val(e)}
        if not s.hasptr(t) and k != 'ctor': return set()
        if k == 'ctor':
            f = s.F.fn(e[3], s.tu) if e[3] else None
            if f is not None and s.hassum(f):
                sm = s.summary(f); sub = s.binding(f, e[4], (set(), set())); r = set()
                for d, x in sm['ST']:
                    if d[0] == 'T': r |= {(d[1], y) for y in sub(x)}
                return r
            if not s.hasptr(t): return set()
            if e[5] in ('copy', 'move') and e[4]: return s.vals(e[4][0])
        elif k in ('mcall', 'opcall', 'call') and not s.retref(e):
            f, o, ar, args = s.parts(e)
            if f is not None and s.hassum(f):
                sm = s.summary(f); sub = s.binding(f, args, s.objroots(o, ar)); r = set()
                for fl, x in sm['R']: r |= {(fl, y) for y in sub(x)}
                return r
        elif s.is_lvalue(e):
            fs = s.recfields(t); l = s.loc(e)
            if fs is None: return {(None, r) for r in s.load(l)}
            res = set()
            for r in l:
                if s.fld(r) is None and r[0] in 'TPV':
                    for f in fs: res |= {(f, y) for y in s.load({s.withf(r, f)})}
                else: res |= {(None, y) for y in s.load({r})}
            return res
        elif k == 'cond': return s.vals(e[4]) | s.vals(e[5])
        return {(None, r) for r in s.val(e)}

    # storage roots of an lvalue expression
    def loc(s, e):
        if e is None: return set()
        k = e[0]
        if k == 'ref':
            if e[3] in ('var', 'param', 'slocal'):
                if e[4] in s.params:
                    i, t = s.params[e[4]]
                    if isref(t): return {('P', i, 0, None)}
                    return {('V', e[4], None)}
                if e[3] == 'slocal': return {('S', s.f['qn'], e[5])}
                if e[4] in s.refs: return set(s.refs[e[4]])
                return {('V', e[4], None)}
            if e[3] == 'glob': return {('G', e[4], e[5])}
            return set()
        if k == 'mem':
            b = s.val(e[3]) if e[5] else s.lorv(e[3])
            ft = s.field_type(e[6], e[4])
            if ft is not None and isref(ft): return s.load({s.withf(r, e[4]) for r in b}) if not isinstance(b, frozenset) else set(b)
            return {s.withf(r, e[4]) if not isinstance(b, frozenset) else r for r in b}
        if k == 'idx':
            return s.val(e[3])
        if k == 'un':
            if e[3] == '*': return s.val(e[4])
            if e[3] in ('++', '--'): return s.loc(e[4])
            return set()
        if k == 'this': return set()
        if k in ('asg',): return s.loc(e[4])
        if k == 'cond': return s.loc(e[4]) | s.loc(e[5])
        if k == 'bin' and e[3] == ',': return s.loc(e[5])
        if k == 'cast':
            if e[3] in ('ArrayToPointerDecay',): return s.loc(e[4])
            return s.loc(e[4])
        if k in ('mcall', 'opcall', 'call'): return s.callret(e, True)
        if k in ('defarg', 'definit'): return s.loc(e[3])
        if k == 'unk':
            r = set()
            for x in e[4]: r |= s.loc(x)
            return r
        return set()
    def lorv(s, e):
        """storage of an object expression; for temporaries what the temporary leads to"""
        if s.is_lvalue(e): return s.loc(e)
        return frozenset(s.val(e))
    def is_lvalue(s, e):
        k = e[0]
        if k in ('ref', 'idx'): return True
        if k == 'mem': return bool(e[5]) or s.is_lvalue(e[3])
        if k == 'un': return e[3] in ('*', '++', '--')
        if k == 'cast': return s.is_lvalue(e[4]) and e[3] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'ConstructorConversion')
        if k == 'asg': return True
        if k == 'cond': return s.is_lvalue(e[4])
        if k == 'call' and e[4] in ('std::move', 'std::forward'): return bool(e[5]) and s.is_lvalue(e[5][0])
        if k in ('mcall', 'opcall', 'call'): return s.retref(e)
        if k in ('defarg', 'definit'): return s.is_lvalue(e[3])
        return False
    def callee(s, e):
        u = e[4] if e[0] == 'opcall' else e[3]
        return s.F.fn(u, s.tu) if u else None
    def retref(s, e):
        f = s.callee(e)
        if f is not None: return isref(f['ret'])
        n = e[4] if e[0] != 'opcall' else e[3]
        if e[0] == 'opcall': return e[3] in ('[]', '=', '<<', '>>', '*', '+=', '-=', '|=', '&=', '^=')
        n = n.rsplit('::', 1)[-1]
        return n in ('front', 'back', 'top', 'at', 'get', 'operator[]', 'min', 'max', 'forward', 'move', 'operator*')

    # what the value of an expression leads to
    def val(s, e):
        if e is None: return set()
        k = e[0]; t = e[2] if k not in ('block',) else None
        if k == 'this': return {('T', 0, None)}
        if k == 'ref' and e[3] == 'func': return set()
        if k in ('ref', 'mem', 'idx') or (k == 'un' and e[3] == '*'):
            if not isinstance(t, dict) or not (s.hasptr(t)): return set()
            if t['k'] == 'arr': return s.loc(e)
            if k == 'ref' and e[3] == 'param' and e[4] in s.params and not isref(s.params[e[4]][1]):
                i, pt = s.params[e[4]]
                return {('P', i, 1, None)} | s.load({('V', e[4], None)})
            if k == 'mem' and not e[5] and not s.is_lvalue(e[3]): return s.val(e[3])
            return s.load(s.loc(e))
        if k == 'un':
            if e[3] == '&': return s.loc(e[4])
            if e[3] in ('++', '--', 'p++', 'p--'): return s.val(e[4])
            return set()
        if k == 'cast':
            if e[3] == 'ArrayToPointerDecay': return s.loc(e[4])
            if not s.hasptr(t): return set()
            return s.val(e[4])
        if k == 'asg': return s.val(e[4]) | s.val(e[5]) if isinstance(t, dict) and s.hasptr(t) else set()
        if k == 'bin':
            if e[3] == ',': return s.val(e[5])
            if isinstance(t, dict) and t['k'] == 'ptr': return s.val(e[4]) | s.val(e[5])
            return set()
        if k == 'cond': return s.val(e[4]) | s.val(e[5])
        if k in ('mcall', 'opcall', 'call'):
            if not isinstance(t, dict): return set()
            if s.retref(e):
                return s.load(s.callret(e, True)) if s.hasptr(t) else set()
            return s.callret(e, False) if s.hasptr(t) else set()
        if k == 'ctor':
            return s.ctorval(e)
        if k == 'init':
            r = set()
            for x in e[3]:
                if x is not None: r |= s.val(x)
            return r
        if k in ('defarg', 'definit'): return s.val(e[3])
        if k == 'lambda': return set()
        if k == 'unk':
            r = set()
            for x in e[4]:
                if x is not None and x[0] not in ('block',): r |= s.val(x)
            return r
        return set()
    def binding(s, callee, args, obj):
        """substitution callee root -> caller roots; obj: (storage roots, pointee roots) of the object"""
        def sub(r):
            if r[0] == 'T':
                if r[1] == 0: return {s.withf(x, r[2]) if r[2] is not None else x for x in obj[0]}
                if r[2] is not None and obj[0]: return s.load({s.withf(x, r[2]) for x in obj[0]})
                if r[2] is not None and len(obj) > 2: return {y for g, y in obj[2] if g is None or g == r[2]}
                return obj[1]
            if r[0] == 'P':
                i = r[1]; lvl = r[2] if len(r) > 2 else 0; fl = r[3] if len(r) > 3 else None
                if i >= len(args): return set()
                p = callee['params'][i][2] if i < len(callee['params']) else None
                a = args[i]
                if a is None: return set()
                if p is not None and isref(p) and s.is_lvalue(a):
                    l = s.loc(a)
                    if fl is not None: l = {s.withf(x, fl) for x in l}
                    return l if lvl == 0 else s.load(l)
                if p is not None and isref(p) and lvl == 0: return set()
                if fl is not None and a[2] is not None and isinstance(a[2], dict) and a[2]['k'] == 'rec':
                    return {y for g, y in s.vals(a) if g is None or g == fl}
                return s.val(a)
            return {r}
        return sub
    def objroots(s, o, arrow):
        if o is None: return (set(), set())
        if arrow or o[0] == 'this':
            l = s.val(o); return (l, s.load(l))
        if o[2]['k'] == 'ptr':
            l = s.val(o); return (l, s.load(l))
        if s.is_lvalue(o):
            l = s.loc(o); return (l, s.load(l))
        return (set(), s.val(o), s.vals(o))
    def parts(s, e):
        """(callee, object, arrow, args)"""
        if e[0] == 'mcall': return s.callee(e), e[5], e[7], e[6]
        if e[0] == 'opcall':
            f = s.callee(e)
            if e[7]: return f, e[6][0] if e[6] else None, 0, e[6][1:]
            return f, None, 0, e[6]
        return s.callee(e), None, 0, e[5]
    def callret(s, e, aslv):
        f, o, ar, args = s.parts(e)
        if f is not None and s.hassum(f):
            sm = s.summary(f); sub = s.binding(f, args, s.objroots(o, ar))
            r = set()
            for _, x in sm['R']: r |= sub(x)
            return r
        r = set()
        if o is not None:
            ob = s.objroots(o, ar)
            r |= ob[0]
            if s.smart(o[2]): r = ob[0] | ob[1]
            if not ob[0]: r |= ob[1]
        elif e[0] == 'call' and e[4] in ARG0_PASS or e[0] == 'opcall':
            for a in args:
                if a is not None: r |= (s.loc(a) if aslv and s.is_lvalue(a) else s.val(a))
        elif e[0] == 'call' and not aslv:
            for a in args:
                if a is not None and isinstance(a[2], dict) and s.hasptr(a[2]): r |= s.val(a)
        return r
    def smart(s, t):
        n = t.get('tn', '') if t['k'] == 'rec' else ''
        return 'iterator' in n or n.endswith('_ptr') or 'reference_wrapper' in n
    def ctorval(s, e):
        t = e[2]
        f = s.F.fn(e[3], s.tu) if e[3] else None
        if f is not None and s.hassum(f):
            sm = s.summary(f); sub = s.binding(f, e[4], (set(), set())); r = set()
            for d, x in sm['ST']:
                if d[0] == 'T': r |= sub(x)
            return r
        if not s.hasptr(t): return set()
        r = set()
        for a in e[4]:
            if a is not None: r |= s.val(a)
        return r
    def hassum(s, f): return f['body'] is not None or (f.get('inits') is not None and not f.get('defaulted'))
    def summary(s, f):
        k = (f.get('tu') if f.get('lambda') else None, f['id'])
        s.deps.setdefault(k, set()).add(s.cur)
        if k not in s.sum:
            s.sum[k] = dict(W={}, R=set(), ST=set()); s.todo.append(k); s.byk[k] = f
        return s.sum[k]

    # ------------------------------------------------------------------ statements: writes, bindings, returns
    def stmt(s, n):
        if n is None: return
        k = n[0]
        if k == 'decl':
            for b in n[2]:
                if len(b) > 4 and b[4]:
                    if b[3] is not None: s.expr(b[3])
                    continue                                            # initialisation of a function-local static is synchronised
                s.bind(b[0], b[2], b[3])
            return
        if k == 'rfor':
            b = n[2]
            if n[3] is not None:
                s.expr(n[3])
                if b is not None:
                    l = s.loc(n[3]) if s.is_lvalue(n[3]) else s.val(n[3])
                    if isref(b[2]): s.setref(b[0], l)
                    elif s.hasptr(b[2]): s.store({('V', b[0], None)}, s.load(l))
            s.stmt(n[4]); return
        if k == 'ret':
            e = n[2]
            if e is not None:
                s.expr(e)
                if isref(s.f['ret']): src = {(None, r) for r in s.loc(e)}
                elif not s.hasptr(s.f['ret']): src = set()
                elif s.f['ret']['k'] == 'rec': src = s.vals(e)
                else: src = {(None, r) for r in s.val(e)}
                s.new['R'] |= {r for r in src if r[1][0] in 'TPGS'}
            return
        if k in ('block', 'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'try', 'label'):
            for c in children(n):
                s.stmt(c)
            return
        if k in ('break', 'cont', 'goto', 'nop', 'unkst'): return
        s.expr(n)
    def setref(s, v, l):
        cur = s.refs.setdefault(v, set())
        if not l <= cur: cur |= l; s.changed = True
    def bind(s, v, t, init):
        if isref(t): s.refs.setdefault(v, set())
        if init is None: return
        s.expr(init)
        if isref(t):
            if s.is_lvalue(init): s.setref(v, s.loc(init))
            else:
                s.setref(v, {('V', v, None)}); s.storerec({('V', v, None)}, s.vals(init))
        elif s.hasptr(t): s.storerec({('V', v, None)}, s.vals(init))
    def expr(s, e):
        for x in walk(e):
            k = x[0]
            if k == 'asg':
                l = s.loc(x[4]); s.write(l, x, 'assignment')
                if isinstance(x[5][2], dict) and s.hasptr(x[5][2]): s.storerec(l, s.vals(x[5]))
            elif k == 'un' and x[3] in ('++', '--', 'p++', 'p--'):
                s.write(s.loc(x[4]), x, 'increment')
            elif k == 'del': s.write(s.val(x[4]), x, 'delete')
            elif k in ('mcall', 'opcall', 'call'): s.docall(x)
            elif k == 'ctor': s.doctor(x)
            elif k == 'decl': s.stmt(x)
            elif k == 'lambda':
                f = s.F.fn(x[3], s.tu)
                if f is not None and f['body'] is not None and id(f) not in s.inlam:
                    s.inlam.add(id(f))
                    R = s.new['R']; s.new['R'] = set()
                    for p in f['params']:
                        if isref(p[2]): s.refs.setdefault(p[0], set())
                    s.stmt(f['body'])
                    s.new['R'] = R
                    s.inlam.discard(id(f))
    def apply(s, f, args, ob, x, what):
        sm = s.summary(f); sub = s.binding(f, args, ob)
        for r, w in list(sm['W'].items()):
            s.write(sub(r), x, ('call', f['qn'], w, f['id']))
        for d, src in list(sm['ST']):
            dd = set()
            if d[0] == 'T': dd = {s.withf(y, d[1]) if d[1] is not None else y for y in ob[0]}
            else: dd = sub(('P', d[1], 0, d[2]))
            s.store(dd, sub(src))
    def doctor(s, x):
        f = s.F.fn(x[3], s.tu) if x[3] else None
        if f is not None and s.hassum(f): s.apply(f, x[4], (set(), set()), x, 'ctor')
    def docall(s, x):
        f, o, ar, args = s.parts(x)
        if f is not None and s.hassum(f):
            s.apply(f, args, s.objroots(o, ar), x, 'call')
            return
        name = (f['qn'] if f is not None else (x[4] if x[0] != 'opcall' else 'operator' + x[3]))
        short = name.rsplit('::', 1)[-1]
        if o is not None:
            const = x[10] if x[0] == 'mcall' else x[9]
            if isinstance(o[2], dict) and (o[2].get('tn') or (o[2].get('pt') or {}).get('tn') or '').startswith(('std::atomic', 'std::__atomic', 'std::mutex', 'std::recursive_mutex', 'std::lock_guard', 'std::unique_lock')): return
            if f is not None and f.get('defaulted') and x[0] == 'opcall' and args and args[0] is not None:
                ob = s.objroots(o, ar)
                s.write(ob[0], x, ('library', name)); s.storerec(ob[0], s.vals(args[0]))
                return
            if not const and not (short in CONST_STD) and not (x[0] == 'opcall' and x[3] in ('[]', '*', '->', '()')):
                ob = s.objroots(o, ar)
                s.write(ob[0], x, ('library', name))
                if s.hasptr(o[2]) and short in ('push_back', 'emplace_back', 'push', 'push_front', 'insert', 'emplace', 'assign', 'swap', 'reset', 'resize', 'operator=', 'operator[]'):
                    for a in args:
                        if a is not None and isinstance(a[2], dict) and s.hasptr(a[2]): s.store(ob[0], s.val(a))
            return
        if x[0] == 'opcall':
            if x[3] in ('<<', '>>') and args and args[0] is not None:
                s.write(s.loc(args[0]), x, ('library', name))
                if x[3] == '>>' and len(args) > 1 and args[1] is not None: s.write(s.loc(args[1]), x, ('library', name))
            return
        if name in PURE_ALGO: return
        for i, a in enumerate(args):
            if a is None or not isinstance(a[2], dict): continue
            at = a[2]
            if name in DEST and i not in DEST[name]: continue
            if name == 'std::swap':
                if s.is_lvalue(a): s.write(s.loc(a), x, ('library', name))
                continue
            if at['k'] == 'ptr':
                if not (at['pt'] or {}).get('c') and (at['pt'] or {}).get('k') != 'other':
                    # implicit conversions to const pointers of the callee are casts to a const pointer type already
                    if short in ('memcpy', 'memmove', 'memset', 'realloc', 'free') and i > 0: continue
                    s.write(s.val(a), x, ('library', name))
            elif at['k'] == 'rec' and name.startswith('std::') and 'iterator' in at.get('rn', '') and 'const' not in at.get('rn', ''):
                s.write(s.val(a), x, ('library', name))
    # ------------------------------------------------------------------ fixpoint
    def run(s, roots):
        s.todo = []; s.byk = {}; s.inlam = set()
        for f in roots:
            s.cur = None; s.summary(f)
        n = 0
        while s.todo:
            k = s.todo.pop()
            f = s.byk[k]; s.cur = k; n += 1
            new = s.analyse(f); old = s.sum[k]
            if set(new['W']) - set(old['W']) or new['R'] - old['R'] or new['ST'] - old['ST']:
                for r, w in new['W'].items(): old['W'].setdefault(r, w)
                old['R'] |= new['R']; old['ST'] |= new['ST']
                for d in s.deps.get(k, ()):
                    if d is not None and d not in s.todo: s.todo.append(d)
        s.steps = n
    def get(s, f): return s.sum.get((f.get('tu') if f.get('lambda') else None, f['id']))
    def chain(s, w, d=0):
        from common import rel
        loc = '%s:%d' % (rel(w[0]), w[1]); h = w[2]
        if isinstance(h, tuple) and h[0] == 'call': return '%s calls %s -> %s' % (loc, h[1], s.chain(h[2], d + 1) if d < 12 else '...')
        if isinstance(h, tuple): return '%s: call of %s' % (loc, h[1])
        return '%s: %s' % (loc, h)
    def leaf(s, w):
        while isinstance(w[2], tuple) and w[2][0] == 'call': w = w[2][2]
        return w
