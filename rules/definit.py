"""Definite initialisation of scalar members: which members has every constructor certainly given a value when it returns?"""
from facts import children, walk
ALL = None    # unreachable end (every member counts as assigned)

def meet(a, b):
    if a is ALL: return b
    if b is ALL: return a
    return a & b
def join(a, b):
    if a is ALL or b is ALL: return ALL
    return a | b

class DefInit:
    def __init__(s, F): s.F = F; s.memo = {}; s.busy = set()
    def scalars(s, R):
        """paths of scalar members that the class itself has to initialise, through anonymous aggregates without constructor"""
        out = []
        for f in R['fields']:
            t = f['t']
            if t['k'] in ('int', 'bool', 'enum', 'float', 'ptr'): out.append(f)
        return out
    # members certainly assigned by a complete run of member function f on *this
    def effect(s, f):
        if f is None or (f['body'] is None and not f.get('inits')): return frozenset()
        k = f['id']
        if k in s.memo: return s.memo[k]
        if k in s.busy: return frozenset()
        s.busy.add(k)
        s_rets = []
        cur = frozenset()
        if f['kind'] == 'ctor': cur = s.inits(f, cur)
        old = getattr(s, 'rets', None), getattr(s, 'cf', None), getattr(s, 'brk', None)
        s.rets = []; s.cf = f; s.brk = []
        if f['body'] is not None: end = s.st(f['body'], cur)
        else: end = cur
        for r in s.rets: end = meet(end, r)
        s.rets, s.cf, s.brk = old
        s.busy.discard(k)
        s.memo[k] = end
        return end
    def inits(s, f, cur):
        for i in f.get('inits') or []:
            if i.get('d'):
                for x in walk(i['e']):
                    if x[0] == 'ctor' and x[6] == f.get('cls'):
                        g = s.F.fn(x[3])
                        cur = join(cur, s.effect(g) if g is not None else ALL); break
            elif 'f' in i and i['e'] is not None:
                e = i['e']
                if e[0] == 'ctor' and e[5] == 'default' and False: continue
                cur = join(cur, frozenset([i['f']]))
        return cur
    def isthis(s, e):
        while e is not None and e[0] == 'cast': e = e[4]
        if e is None: return False
        if e[0] == 'this': return True
        return e[0] == 'un' and e[3] == '*' and s.isthis(e[4])
    def notself(s, e):
        """this != &other: an object under construction is not its own source"""
        while e[0] == 'cast': e = e[4]
        if e[0] != 'bin' or e[3] != '!=': return False
        a, b = e[4], e[5]
        while a[0] == 'cast': a = a[4]
        while b[0] == 'cast': b = b[4]
        if b[0] == 'this': a, b = b, a
        return a[0] == 'this' and b[0] == 'un' and b[3] == '&'
    def fld(s, e):
        """member of *this that the lvalue denotes (whole member)"""
        while e is not None and e[0] == 'cast': e = e[4]
        if e is None: return None
        if e[0] == 'mem' and s.isthis(e[3]): return e[4]
        if e[0] in ('mem', 'idx'): return s.fld(e[3])      # part of a member: counts
        if e[0] == 'un' and e[3] in ('++', '--', '*'): return None
        if e[0] == 'asg': return s.fld(e[4])
        return None
    def ex(s, e, cur):
        """members assigned after the evaluation of expression e"""
        if e is None or cur is ALL: return cur
        k = e[0]
        if k == 'bin' and e[3] in ('&&', '||'):
            return s.ex(e[4], cur)
        if k == 'cond':
            c = s.ex(e[3], cur)
            return meet(s.ex(e[4], c), s.ex(e[5], c))
        if k == 'lambda': return cur
        if k == 'throw': return ALL
        for c in children(e): cur = s.ex(c, cur)
        if cur is ALL: return cur
        if k == 'asg':
            f = s.fld(e[4])
            if f is not None: cur = cur | {f}
        elif k == 'un' and e[3] == '&':
            f = s.fld(e[4])
            if f is not None: cur = cur | {f}
        elif k in ('mcall', 'opcall', 'call'):
            u = e[4] if k == 'opcall' else e[3]
            g = s.F.fn(u, s.cf.get('tu')) if u else None
            if k == 'mcall': obj, args = e[5], e[6]
            elif k == 'opcall': obj, args = (e[6][0], e[6][1:]) if e[7] and e[6] else (None, e[6])
            else: obj, args = None, e[5]
            if obj is not None and s.isthis(obj):
                if g is not None and g['body'] is not None: 
                    r = s.effect(g)
                    cur = join(cur, r)
                else: cur = ALL if not (k == 'mcall' and e[10]) else cur      # defaulted assignment of the whole object
                if cur is ALL: return cur
            for i, a in enumerate(args):
                if a is None: continue
                f = s.fld(a)
                if f is not None:
                    # handed out by non-const reference (or to a library function): filled in there
                    if g is None or i < len(g['params']) and g['params'][i][2]['k'] == 'ref' and not (g['params'][i][2].get('pt') or {}).get('c'): cur = cur | {f}
                elif s.isthis(a) and a[0] != 'this':
                    # *this handed out: the callee may assign all of it
                    if g is None or i < len(g['params']) and g['params'][i][2]['k'] in ('ref', 'rref') and not (g['params'][i][2].get('pt') or {}).get('c'): return ALL
        return cur
    def st(s, n, cur):
        if n is None or cur is ALL: return cur
        k = n[0]
        if k == 'block':
            for c in n[2]: cur = s.st(c, cur)
            return cur
        if k == 'if':
            c = s.ex(n[2], cur)
            from check_life import const_bool
            b = const_bool(n[2])
            if s.notself(n[2]): b = True
            if b is True: return s.st(n[3], c)
            if b is False: return s.st(n[4], c)
            return meet(s.st(n[3], c), s.st(n[4], c) if n[4] is not None else c)
        if k == 'for':
            c = s.st(n[2], cur) if n[2] is not None else cur
            c = s.ex(n[3], c); s.loop(n[5], c); s.ex(n[4], c)
            return c if n[3] is not None else c
        if k == 'while': c = s.ex(n[2], cur); s.loop(n[3], c); return c
        if k == 'do':
            b0 = s.brk; s.brk = []
            c = s.st(n[3], cur)
            for x in s.brk: c = meet(c, x)
            s.brk = b0
            return s.ex(n[2], c) if c is not ALL else c
        if k == 'rfor': c = s.ex(n[3], cur); s.loop(n[4], c); return c
        if k == 'ret':
            cur = s.ex(n[2], cur); s.rets.append(cur); return ALL
        if k == 'decl':
            for b in n[2]:
                if b[3] is not None: cur = s.ex(b[3], cur)
                if cur is ALL: return ALL
            return cur
        if k == 'break': 
            s.brk.append(cur); return ALL
        if k in ('cont', 'goto'): 
            s.brk.append(cur); return ALL
        if k == 'switch':
            c = s.ex(n[2], cur); b0 = s.brk; s.brk = []
            e = s.st(n[3], c)
            s.brk = b0
            return c          # conservative: nothing the cases assign counts
        if k in ('case',): return s.st(n[3], cur)
        if k == 'default': return s.st(n[2], cur)
        if k == 'try': return meet(s.st(n[2], cur), cur) if False else s.st(n[2], cur)
        if k == 'label': return s.st(n[3], cur)
        if k in ('nop', 'unkst'): return cur
        return s.ex(n, cur)
    def loop(s, body, c):
        b0 = s.brk; s.brk = []
        s.st(body, c)
        s.brk = b0
