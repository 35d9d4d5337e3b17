"""Path conditions: which conditions are known to hold where an expression is evaluated.

walk_function(f, visit) runs once over the body of f in evaluation order (loops: conditions about variables the loop
changes are dropped on entry) and calls visit(node, state) for every expression node.  A state knows
  facts   key of a condition -> True / False        (if, ?:, &&, ||, !, early return/throw/break, bool variables)
  same    path -> path it has been copied from       (m_file = file)
Keys are structural; a single-return helper without arguments (is_ram()) is looked through."""
from facts import children, walk

BAD = '?'
ID_STD = {'std::move', 'std::forward', 'std::addressof'}
STRCONST = {'c_str', 'data', 'str', 'get'}

def mentions(k, p):
    if k == p: return True
    return isinstance(k, tuple) and any(mentions(x, p) for x in k if isinstance(x, tuple))

class State:
    __slots__ = ('facts', 'same', 'alias')
    def __init__(s, facts=None, same=None, alias=None): s.facts = facts or {}; s.same = same or {}; s.alias = alias or {}
    def copy(s): return State(dict(s.facts), dict(s.same), dict(s.alias))
    def kill(s, p):
        s.facts = {k: v for k, v in s.facts.items() if not mentions(k, p)}
        s.same = {k: v for k, v in s.same.items() if not mentions(k, p) and not mentions(v, p)}
        s.alias = {k: v for k, v in s.alias.items() if not mentions(k, p) and not mentions(v, p)}

def join(a, b):
    if a is None: return b
    if b is None: return a
    i = lambda x, y: {k: v for k, v in x.items() if k in y and y[k] == v}
    return State(i(a.facts, b.facts), i(a.same, b.same), i(a.alias, b.alias))

class Guards:
    def __init__(s, F): s.F = F; s.memo = {}
    # ------------------------------------------------------------------ keys
    def single(s, f):
        """the returned expression of a function that consists of one return statement"""
        b = f['body']
        if b is None or b[0] != 'block': return None
        st = [x for x in b[2] if x is not None and x[0] != 'nop']
        return st[0][2] if len(st) == 1 and st[0][0] == 'ret' else None
    def key(s, e, st=None, env=None, d=0):
        if e is None: return BAD
        k = e[0]
        if k in ('defarg', 'definit'): return s.key(e[3], st, env, d)
        if k == 'cast': return s.key(e[4], st, env, d)
        if k == 'ref':
            if e[3] in ('var', 'param', 'slocal'):
                r = ('v', e[4])
                if env is not None: r = env.get(e[4], BAD)
            elif e[3] == 'glob': r = ('g', e[4])
            elif e[3] == 'func': return ('fn', e[4])
            else: return BAD
        elif k == 'this':
            return env.get('this', BAD) if env is not None else ('this',)
        elif k == 'mem':
            b = s.key(e[3], st, env, d)
            if b == BAD: return BAD
            r = ('f', b, e[4])
        elif k == 'un' and e[3] in ('*', '&'):
            b = s.key(e[4], st, env, d)
            return b if b != BAD else BAD
        elif k == 'int': return ('i', str(e[3]))
        elif k == 'null': return ('null',)
        elif k == 'str': return ('s', str(e[3]))
        elif k == 'ctor':
            a = [x for x in e[4] if x is not None and x[0] != 'defarg']
            if len(a) == 1: return s.key(a[0], st, env, d)
            return BAD
        elif k in ('mcall', 'call', 'opcall'):
            if k == 'opcall':
                u, n, ar = e[4], e[5], list(e[6])
            elif k == 'mcall': u, n, ar = e[3], e[4], [e[5]] + list(e[6])
            else: u, n, ar = e[3], e[4], list(e[5])
            if k == 'call' and n in ID_STD and ar: return s.key(ar[0], st, env, d)
            if k == 'mcall' and n.rsplit('::', 1)[-1] in STRCONST: return s.key(e[5], st, env, d)
            ar = [a for a in ar if a is None or a[0] != 'defarg']
            f = s.F.fn(u) if u else None
            ks = [s.key(a, st, env, d) for a in ar]
            if f is not None and d < 4 and not f.get('virtual'):
                r = s.single(f)
                if r is not None:
                    en = {}
                    if k == 'mcall' or (k == 'opcall' and f.get('cls')): en['this'] = ks[0]; rest = ks[1:]
                    else: rest = ks
                    for p, x in zip(f['params'], rest): en[p[0]] = x
                    kk = s.key(r, st, en, d + 1)
                    if kk != BAD: return kk
            if BAD in ks: return BAD
            return ('c', n) + tuple(ks)
        elif k in ('bin',):
            a, b = s.key(e[4], st, env, d), s.key(e[5], st, env, d)
            if a == BAD or b == BAD: return BAD
            return ('b', e[3], a, b)
        elif k == 'un':
            a = s.key(e[4], st, env, d)
            return ('u', e[3], a) if a != BAD and e[3] in ('!', '-', '~') else BAD
        else: return BAD
        if st is not None:
            for _ in range(4):
                if r in st.same: r = st.same[r]
                else: break
        return r
    # ------------------------------------------------------------------ conditions
    def assume(s, e, val, st):
        """state in which condition e has the value val"""
        if st is None: return None
        if e is None: return st
        k = e[0]
        if k == 'cast' or k in ('defarg', 'definit'):
            x = e[4] if k == 'cast' else e[3]
            if k == 'cast' and e[3] == 'UserDefinedConversion': pass
            return s.assume(x, val, st)
        if k == 'un' and e[3] == '!': return s.assume(e[4], not val, st)
        if k == 'bin' and e[3] == '&&':
            if val: return s.assume(e[5], True, s.assume(e[4], True, st))
            return join(s.assume(e[4], False, st), s.assume(e[5], False, s.assume(e[4], True, st)))
        if k == 'bin' and e[3] == '||':
            if not val: return s.assume(e[5], False, s.assume(e[4], False, st))
            return join(s.assume(e[4], True, st), s.assume(e[5], True, s.assume(e[4], False, st)))
        if k == 'bin' and e[3] in ('==', '!='):
            for a, b in ((e[4], e[5]), (e[5], e[4])):
                c = b
                while c is not None and c[0] == 'cast': c = c[4]
                at = a
                while at is not None and at[0] == 'cast': at = at[4]
                if c is not None and c[0] == 'int' and str(c[3]) in ('0', '1', 'true', 'false') and at is not None and at[2]['k'] == 'bool':
                    return s.assume(a, (val == (e[3] == '==')) == (str(c[3]) in ('1', 'true')), st)
        if k == 'int':
            return None if (str(e[3]) not in ('0', 'false')) != val else st
        kk = s.key(e, st)
        if kk == BAD: return st
        st = st.copy()
        for _ in range(8):
            if kk in st.alias: 
                st.facts[kk] = val; kk, neg = st.alias[kk]
                if neg: val = not val
                continue
            if kk[0] == 'u' and kk[1] == '!': kk = kk[2]; val = not val; continue
            if kk[0] == 'b' and kk[1] == '!=': kk = ('b', '==') + kk[2:]; val = not val
            break
        if kk in st.facts and st.facts[kk] != val: return None
        st.facts[kk] = val
        return st
    def known(s, st, kk):
        if st is None: return None
        return st.facts.get(kk)
    # ------------------------------------------------------------------ walking
    def walk_function(s, f, visit):
        s.f = f; s.visit = visit; s.brk = []
        st = State()
        for i in f.get('inits') or []:
            if i['e'] is not None:
                st = s.ex(i['e'], st)
                if st is not None and 'f' in i: st = st.copy(); s.assign(('f', ('this',), i['f']), i['e'], st)
        if f['body'] is not None: s.st(f['body'], st)
    def assign(s, p, rhs, st):
        rk = s.key(rhs, st) if rhs is not None else BAD
        st.kill(p)
        if rk != BAD and not mentions(rk, p):
            t = rhs[2]
            if rk[0] in ('v', 'f', 'g'): st.same[p] = rk
            elif isinstance(t, dict) and t.get('k') == 'bool':
                neg = False
                while rk[0] == 'u' and rk[1] == '!': rk = rk[2]; neg = not neg
                st.alias[p] = (rk, neg)
    def changed(s, n):
        """paths a statement may change"""
        out = set()
        for x in walk(n):
            k = x[0]
            if k == 'asg': out.add(s.key(x[4]))
            elif k == 'un' and x[3] in ('++', '--', 'p++', 'p--'): out.add(s.key(x[4]))
            elif k in ('opcall', 'mcall', 'call', 'ctor'): out |= set(s.touched(x))
        out.discard(BAD)
        return out
    def touched(s, x):
        """paths a call may change: its object and arguments bound to non-const references"""
        k = x[0]; out = []
        if k == 'mcall':
            f = s.F.fn(x[3]) if x[3] else None; ar = x[6]; pa = f['params'] if f else None
            if not x[10] and x[4].rsplit('::', 1)[-1] not in ('begin', 'end', 'find', 'rdbuf', 'at', 'front', 'back', 'operator->', 'get', 'data'): out.append(s.key(x[5]))
        elif k == 'opcall':
            f = s.F.fn(x[4]) if x[4] else None
            if x[3] in ('=', '+=', '-=', '<<=', '>>=', '|=', '&=', '^=', '++', '--'): out.append(s.key(x[6][0]))
            ar = x[6][1:] if x[7] else x[6]; pa = f['params'] if f else None
            if x[3] in ('[]', '==', '!=', '+', '<', '*', '->', '<<'): return [p for p in out if p != BAD]
        elif k == 'call': f = s.F.fn(x[3]) if x[3] else None; ar = x[5]; pa = f['params'] if f else None
        else: f = s.F.fn(x[3]) if x[3] else None; ar = x[4]; pa = f['params'] if f else None
        for i, a in enumerate(ar):
            if a is None: continue
            if pa is not None and i < len(pa):
                t = pa[i][2]
                if t['k'] in ('ref', 'rref') and t['pt'] and not t['pt'].get('c'): out.append(s.key(a))
            if k == 'call' and x[4] in ('std::move', 'std::swap'): out.append(s.key(a)) if x[4] == 'std::swap' else None
        return [p for p in out if p != BAD]
    def ex(s, e, st):
        """evaluates e; returns the state afterwards (None: does not return)"""
        if e is None or st is None: return st
        k = e[0]
        if k == 'bin' and e[3] in ('&&', '||'):
            s1 = s.ex(e[4], st); a = s.assume(e[4], e[3] == '&&', s1)
            s2 = s.ex(e[5], a) if a is not None else None
            return join(s.assume(e[4], e[3] != '&&', s1), s2)
        if k == 'cond':
            s1 = s.ex(e[3], st)
            return join(s.ex(e[4], s.assume(e[3], True, s1)), s.ex(e[5], s.assume(e[3], False, s1)))
        for c in children(e):
            st = s.ex(c, st)
            if st is None: return None
        s.visit(e, st)
        if k == 'throw': return None
        if k == 'asg':
            p = s.key(e[4])
            if p != BAD:
                st = st.copy()
                if e[3] == '=': s.assign(p, e[5], st)
                else: st.kill(p)
        elif k == 'un' and e[3] in ('++', '--', 'p++', 'p--'):
            p = s.key(e[4])
            if p != BAD: st = st.copy(); st.kill(p)
        elif k == 'opcall' and e[3] == '=':
            p = s.key(e[6][0])
            if p != BAD: st = st.copy(); s.assign(p, e[6][1], st)
        elif k in ('mcall', 'opcall', 'call', 'ctor'):
            tp = s.touched(e)
            if tp:
                st = st.copy()
                for p in tp: st.kill(p)
            n = e[4] if k != 'opcall' else ''
            if k == 'call' and n in ('exit', 'std::exit', 'abort', 'std::abort', 'std::terminate'): return None
        return st
    def st(s, n, st):
        if n is None or st is None: return st
        k = n[0]
        if k == 'block':
            for x in n[2]:
                st = s.st(x, st)
            return st
        if k == 'decl':
            for b in n[2]:
                if b[3] is not None:
                    st = s.ex(b[3], st)
                    if st is None: return None
                    st = st.copy(); s.assign(('v', b[0]), b[3], st)
            return st
        if k == 'if':
            s1 = s.ex(n[2], st)
            a = s.st(n[3], s.assume(n[2], True, s1)); b = s.assume(n[2], False, s1)
            if n[4] is not None: b = s.st(n[4], b)
            return join(a, b)
        if k in ('for', 'while', 'do', 'rfor'):
            if k == 'for': st = s.st(n[2], st)
            if k == 'rfor' and n[2] is not None and n[2][3] is not None: st = s.ex(n[2][3], st)
            if st is None: return None
            ent = st.copy()
            for p in s.changed(n): ent.kill(p)
            s.brk.append([])
            if k == 'do':
                b = s.st(n[3], ent); 
                if b is not None: b = s.ex(n[2], b)
                out = s.assume(n[2], False, b)
            else:
                c = n[3] if k == 'for' else n[2] if k == 'while' else None
                s1 = s.ex(c, ent) if c is not None else ent
                b = s.assume(c, True, s1) if c is not None else s1
                body = n[5] if k == 'for' else n[3] if k == 'while' else n[4]
                b = s.st(body, b)
                if k == 'for' and n[4] is not None and b is not None: s.ex(n[4], b)
                out = s.assume(c, False, s1) if c is not None else (s1 if k == 'rfor' else None)
            for x in s.brk.pop(): out = join(out, x)
            return out
        if k == 'switch':
            st = s.ex(n[2], st); s.brk.append([])
            ent = st.copy()
            for p in s.changed(n[3]): ent.kill(p)
            s.sw = ent; r = s.st(n[3], ent)
            r = join(r, ent)
            for x in s.brk.pop(): r = join(r, x)
            return r
        if k in ('case',): return s.st(n[3], st)
        if k == 'default': return s.st(n[2], st)
        if k == 'label': return s.st(n[3], State())
        if k == 'ret': s.ex(n[2], st); s.visit(n, st); return None
        if k == 'break':
            if s.brk: s.brk[-1].append(st)
            return None
        if k in ('cont', 'goto'): return None
        if k == 'try':
            ent = st.copy()
            for p in s.changed(n): ent.kill(p)
            r = s.st(n[2], st)
            for h in n[3]: r = join(r, s.st(h, ent))
            return r
        if k in ('nop', 'unkst'): return st
        return s.ex(n, st)
