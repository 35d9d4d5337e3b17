"""Path-sensitive typestate over the statement trees: a set of abstract states is pushed through every function.

A state is an immutable mapping.  Conditions split states (facts about atoms that occur more than once are remembered, so
correlated branches stay correlated); equal states merge; loops run to a fixpoint; scopes end in reverse order on normal
and early exits; throw goes to the enclosing handler.  Subclasses give meaning to calls, tests, and ends of scopes."""
from facts import children, walk, N
from guards import Guards, BAD, mentions

class St:
    __slots__ = ('d', 'h')
    def __init__(s, d=None): s.d = d or {}; s.h = None
    def __hash__(s):
        if s.h is None: s.h = hash(frozenset(s.d.items()))
        return s.h
    def __eq__(s, o): return s.d == o.d
    def get(s, k, dflt=None): return s.d.get(k, dflt)
    def set(s, k, v):
        if s.d.get(k, BAD) == v: return s
        d = dict(s.d); d[k] = v; return St(d)
    def drop(s, k):
        if k not in s.d: return s
        d = dict(s.d); del d[k]; return St(d)
    def drop_if(s, pred):
        ks = [k for k in s.d if pred(k, s.d[k])]
        if not ks: return s
        d = dict(s.d)
        for k in ks: del d[k]
        return St(d)

class Out:
    __slots__ = ('norm', 'brk', 'cont', 'ret', 'thr')
    def __init__(s): s.norm = []; s.brk = []; s.cont = []; s.ret = []; s.thr = []
    def absorb(s, o):
        s.brk += o.brk; s.cont += o.cont; s.ret += o.ret; s.thr += o.thr

def uniq(l):
    seen = set(); r = []
    for x in l:
        k = (id(x[0]), x[1]) if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], St) else x
        if k not in seen: seen.add(k); r.append(x)
    return r

NORET = {'exit', 'std::exit', 'abort', 'std::abort', 'std::terminate', '_exit'}

def strip(e):
    while e is not None and e[0] in ('cast', 'defarg', 'definit') : e = e[4] if e[0] == 'cast' else e[3]
    return e

class Flow:
    LIMIT = 400
    def __init__(s, F): s.F = F; s.G = Guards(F); s.over = False
    # -------------------------------------------------------------- hooks
    def on_node(s, e, st): return [st]            # after the operands of e have been evaluated
    def on_decl(s, b, st): return [st]            # variable b = [id, name, type, init]
    def on_assign(s, lhs, rhs, st): return [st]   # scalar assignment and opcall '='
    def on_scope_end(s, b, st): return [st]
    def atom(s, e, st): return None               # meaning of a condition: list of (state, truth) or None
    def value_split(s, e): return False           # bool expression whose truth is to be stored in a variable
    # -------------------------------------------------------------- driver
    def run(s, f, init=None):
        """-> Out with ret: (node or None for falling off the end, state)"""
        s.f = f; s.over = False; s.thrown = [[]]
        s.rep_keys = s.count_keys(f)
        sts = [init or St()]
        for i in f.get('inits') or []:
            if i['e'] is not None:
                sts = s.ev(i['e'], sts)
                sts = s.each(sts, lambda st: s.on_init(i, st))
        o = Out()
        if f['body'] is not None: o = s.stm(f['body'], sts)
        else: o.norm = sts
        o.ret += [(None, st) for st in o.norm]; o.norm = []
        o.thr += s.thrown.pop()
        return o
    def on_init(s, i, st): return [st]
    def count_keys(s, f):
        """atoms that occur in several conditions are worth remembering"""
        cnt = {}
        def cond(e):
            e = strip(e)
            if e is None: return
            if e[0] == 'un' and e[3] == '!': return cond(e[4])
            if e[0] == 'bin' and e[3] in ('&&', '||'): cond(e[4]); cond(e[5]); return
            k, _ = s.akey(e)
            if k != BAD: cnt[k] = cnt.get(k, 0) + 1
        from facts import fn_nodes
        for n in fn_nodes(f):
            if n[0] in ('if', 'while'): cond(n[2])
            elif n[0] == 'do': cond(n[2])
            elif n[0] == 'for' and n[3] is not None: cond(n[3])
            elif n[0] == 'cond': cond(n[3])
        return {k for k, c in cnt.items() if c > 1}
    def akey(s, e):
        k = s.G.key(e); neg = False
        while isinstance(k, tuple) and k[0] == 'u' and k[1] == '!': k = k[2]; neg = not neg
        if isinstance(k, tuple) and k[0] == 'b' and k[1] == '!=': k = ('b', '==') + k[2:]; neg = not neg
        return k, neg
    def each(s, sts, fn):
        r = []
        for st in sts: r += fn(st)
        r = uniq(r)
        if len(r) > s.LIMIT: s.over = True; r = r[:s.LIMIT]
        return r
    # -------------------------------------------------------------- conditions
    def cond(s, e, st):
        """list of (state, truth value)"""
        if e is None: return [(st, True)]
        k = e[0]
        if k == 'cast':
            a = s.atom(e, st)
            if a is not None: return a
            return s.cond(e[4], st)
        if k in ('defarg', 'definit'): return s.cond(e[3], st)
        if k == 'un' and e[3] == '!':
            a = s.atom(e, st)
            if a is not None: return a
            return [(x, not b) for x, b in s.cond(e[4], st)]
        if k == 'bin' and e[3] in ('&&', '||'):
            r = []
            for x, b in s.cond(e[4], st):
                if b == (e[3] == '||'): r.append((x, b))
                else: r += s.cond(e[5], x)
            return uniq(r)
        if k == 'int': return [(st, str(e[3]) not in ('0', 'false'))]
        if k == 'cond':
            r = []
            for x, b in s.cond(e[3], st): r += s.cond(e[4] if b else e[5], x)
            return uniq(r)
        r = []
        for x in s.ev(e, [st]):
            a = s.atom(e, x)
            if a is None: a = s.fact(e, x)
            r += a
        return uniq(r)
    def fact(s, e, st):
        if e[0] == 'bin' and e[3] in ('==', '!='):
            for a, b in ((e[4], e[5]), (e[5], e[4])):
                c = strip(b); x = strip(a)
                if c is not None and c[0] == 'int' and x is not None and x[2]['k'] == 'bool' and str(c[3]) in ('0', '1'):
                    return [(y, (t == (str(c[3]) == '1')) == (e[3] == '==')) for y, t in s.cond(x, st)]
        k, neg = s.akey(e)
        if k == BAD or k not in s.rep_keys: return [(st, True), (st, False)]
        v = st.get(('fact', k))
        if v is not None: return [(st, v != neg)]
        return [(st.set(('fact', k), True), not neg), (st.set(('fact', k), False), neg)]
    def kill(s, p, st):
        if p == BAD: return st
        return st.drop_if(lambda k, v: isinstance(k, tuple) and k[0] == 'fact' and mentions(k[1], p))
    # -------------------------------------------------------------- expressions
    def ev(s, e, sts):
        if e is None or not sts: return sts
        k = e[0]
        if k == 'bin' and e[3] in ('&&', '||') or k == 'cond' and s.branching(e):
            if k == 'cond':
                r = []
                for st in sts:
                    for x, b in s.cond(e[3], st): r += s.ev(e[4] if b else e[5], [x])
                return uniq(r)
            return s.each(sts, lambda st: [x for x, b in s.cond(e, st)])
        if k == 'un' and e[3] == '!' and s.value_split(e): return s.each(sts, lambda st: [x for x, b in s.cond(e, st)])
        for c in children(e):
            sts = s.ev(c, sts)
            if not sts: return []
        def one(st):
            if k == 'throw': s.thrown[-1].append((e, st)); return []
            if k == 'asg':
                st = s.kill(s.G.key(e[4]), st)
                return s.on_assign(e[4], e[5], st) if e[3] == '=' else s.on_node(e, st)
            if k == 'un' and e[3] in ('++', '--', 'p++', 'p--'): st = s.kill(s.G.key(e[4]), st)
            if k == 'opcall' and e[3] == '=':
                st = s.kill(s.G.key(e[6][0]), st)
                return s.on_assign(e[6][0], e[6][1], st, e)
            if k in ('mcall', 'opcall', 'call', 'ctor'):
                for p in s.G.touched(e): st = s.kill(p, st)
                n = e[4] if k in ('call', 'mcall') else ''
                if k == 'call' and n in NORET: return []
            return s.on_node(e, st)
        return s.each(sts, one)
    def branching(s, e): return True
    def on_assign(s, lhs, rhs, st, node=None): return [st]
    # -------------------------------------------------------------- statements
    def stm(s, n, sts):
        o = Out()
        if n is None or not sts: o.norm = sts; return o
        k = n[0]
        if k == 'block':
            decls = []; cur = sts
            for x in n[2]:
                if not cur: break
                r = s.stm(x, cur); o.absorb(r); cur = r.norm
                if x is not None and x[0] == 'decl': decls += x[2]
            o.norm = cur
            for b in reversed(decls): s.end_scope(b, o)
            return o
        if k == 'decl':
            cur = sts
            for b in n[2]:
                if b[3] is not None:
                    if b[2].get('k') == 'bool' and s.value_split(b[3]):
                        def one(st, b=b):
                            r = []
                            for x, t in s.cond(b[3], st): r += [y for z in [x] for y in s.bind_bool(b, t, z)]
                            return r
                        cur = s.each(cur, one); continue
                    cur = s.ev(b[3], cur)
                cur = s.each(cur, lambda st: s.on_decl(b, st))
            o.norm = cur; return o
        if k == 'if':
            t = []; e = []
            for st in sts:
                for x, b in s.cond(n[2], st): (t if b else e).append(x)
            a = s.stm(n[3], s.lim(t)); o.absorb(a)
            e = s.lim(e)
            if n[4] is not None:
                b = s.stm(n[4], e); o.absorb(b); e = b.norm
            o.norm = s.lim(a.norm + e); return o
        if k in ('for', 'while', 'do', 'rfor'):
            decls = []
            if k == 'for':
                r = s.stm(n[2], sts); sts = r.norm
                if n[2] is not None and n[2][0] == 'decl': decls = n[2][2]
            if k == 'rfor':
                if n[3] is not None: sts = s.ev(n[3], sts)
                if n[2] is not None: sts = s.each(sts, lambda st: [s.kill(('v', n[2][0]), st)])
            body = {'for': 5, 'while': 3, 'do': 3, 'rfor': 4}[k]; c = {'for': 3, 'while': 2, 'do': 2, 'rfor': None}[k]
            c = n[c] if c is not None else None
            seen = set(); todo = list(sts); outs = []; first = k == 'do'
            if k == 'do':
                r = s.stm(n[3], todo); todo = r.norm + r.cont; outs += r.brk; o.ret += r.ret; o.thr += r.thr
            while todo:
                nxt = []
                for st in todo:
                    if st in seen: continue
                    seen.add(st)
                    if len(seen) > s.LIMIT: s.over = True; break
                    if k == 'rfor' or c is None: bs = [(st, True)] + ([(st, False)] if k == 'rfor' else [])
                    else: bs = s.cond(c, st)
                    for x, b in bs:
                        if b: nxt.append(x)
                        else: outs.append(x)
                if len(seen) > s.LIMIT: break
                nxt = uniq(nxt)
                if not nxt: break
                r = s.stm(n[body], nxt); o.ret += r.ret; o.thr += r.thr; outs += r.brk
                todo = uniq(r.norm + r.cont)
                if k == 'for' and n[4] is not None: todo = s.ev(n[4], todo)
                if k == 'rfor' and n[2] is not None: todo = s.each(todo, lambda st: [s.kill(('v', n[2][0]), st)])
            o.norm = s.lim(outs)
            for b in reversed(decls): s.end_scope(b, o)
            return o
        if k == 'switch':
            sts = s.ev(n[2], sts)
            # every case label may be entered
            cases = []
            body = n[3]
            items = body[2] if body is not None and body[0] == 'block' else [body]
            cur = []; has_default = False
            for x in items:
                y = x
                while y is not None and y[0] in ('case', 'default'):
                    cur = s.lim(cur + sts); has_default |= y[0] == 'default'
                    y = y[3] if y[0] == 'case' else y[2]
                r = s.stm(y, cur); o.ret += r.ret; o.thr += r.thr; o.cont += r.cont; cases += r.brk; cur = r.norm
            o.norm = s.lim(cases + cur + ([] if has_default else sts)); return o
        if k == 'case': return s.stm(n[3], sts)
        if k == 'default': return s.stm(n[2], sts)
        if k == 'label': s.over = True; return s.stm(n[3], sts)
        if k == 'goto': s.over = True; return o
        if k == 'ret':
            if n[2] is not None and n[2][2].get('k') == 'bool' and s.value_split(n[2]):
                for st in sts:
                    for x, b in s.cond(n[2], st): o.ret.append((n, x.set('ret', b)))
            else:
                for st in s.ev(n[2], sts): o.ret.append((n, s.on_ret(n, st)))
            return o
        if k == 'break': o.brk = sts; return o
        if k == 'cont': o.cont = sts; return o
        if k == 'try':
            s.thrown.append([])
            r = s.stm(n[2], sts); t = s.thrown.pop()
            o.absorb(r); o.thr = []
            t = [st for _, st in t] + [st for _, st in r.thr]
            t = s.lim(t + sts)     # a call inside may throw
            cur = list(r.norm)
            for h in n[3]:
                x = s.stm(h, t); o.absorb(x); cur += x.norm
            o.norm = s.lim(cur); return o
        if k in ('nop', 'unkst'): o.norm = sts; return o
        o.norm = s.ev(n, sts); return o
    def on_ret(s, n, st):
        e = strip(n[2]) if n[2] is not None else None
        if e is not None and e[0] == 'int' and n[2][2].get('k') == 'bool': return st.set('ret', str(e[3]) != '0')
        return st
    def bind_bool(s, b, t, st): return [st.set(('bool', ('v', b[0])), t)]
    def lim(s, l):
        l = uniq(l)
        if len(l) > s.LIMIT: s.over = True; l = l[:s.LIMIT]
        return l
    def end_scope(s, b, o):
        f = lambda st: [x.drop_if(lambda k, v: isinstance(k, tuple) and k[0] in ('bool', 'fact') and mentions(k[1], ('v', b[0]))) for x in s.on_scope_end(b, st)]
        o.norm = s.each(o.norm, f); o.brk = s.each(o.brk, f); o.cont = s.each(o.cont, f)
        o.ret = uniq([(n, y) for n, x in o.ret for y in f(x)])
