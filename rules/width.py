"""Which integer values can be as large as a size or position of the input, and where are they cut off?

Abstract value of an integer expression: (lo, hi, T) - an interval and the set of tokens its magnitude may come from:
  ('P', fn, i)  parameter i      ('F', class template, field)  a member      ('R', fn) result of a function not expanded
The tokens form a graph (assignment to members, argument passing); a token is *position like* if it is reachable from a
root.  Reducing operations (%, & mask, >>, / and comparison with something bounded, difference of two positions) remove
tokens."""
from facts import children, fn_nodes, walk
NONE = frozenset()
MIN_STD = {'std::min'}
PASS = {'std::move', 'std::forward', 'std::max', 'std::min', 'std::abs'}
BITS = {'sdsl::bits::cnt', 'sdsl::bits::hi', 'sdsl::bits::lo', 'sdsl::bits::sel', 'sdsl::bits::cnt11', 'sdsl::bits::hi11', 'sdsl::bits::sel11', 'sdsl::bits::cnt10', 'sdsl::bits::cnt01'}
TWO32 = 1 << 32

def isint(t): return t is not None and t['k'] in ('int', 'enum', 'bool') and 'w' in t
def wide(t): return isint(t) and t['w'] >= 64
def narrow(t): return isint(t) and t['k'] == 'int' and t['w'] <= 32
def trange(t):
    if not isint(t): return (-(1 << 127), 1 << 128)
    if t['k'] == 'bool': return (0, 1)
    w = t['w']
    if t.get('sg'): return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return (0, (1 << w) - 1)
CONT = ('sdsl::int_vector', 'std::vector', 'std::array', 'sdsl::int_vector_buffer', 'sdsl::int_vector_mapper', 'std::deque', 'std::stack', 'std::queue', 'sdsl::int_vector_const_iterator', 'sdsl::int_vector_iterator', 'sdsl::int_vector_reference')
def cont(t): return t is not None and (t['k'] == 'rec' and t.get('tn') in CONT or t['k'] in ('ptr', 'arr'))
def tracked(t): return wide(t) or cont(t)
READ = {'operator[]', 'operator*', 'get_int', 'front', 'back', 'at', 'data', 'begin', 'end', 'cbegin', 'cend', 'top'}
def top(t): return trange(t) + (NONE,)
def small(v):
    return (v[0], v[1], NONE) if v[2] and v[1] < (1 << 31) and v[0] >= -(1 << 31) else v
def join(a, b): return (min(a[0], b[0]), max(a[1], b[1]), a[2] | b[2])
def clip(v, t):
    lo, hi = trange(t)
    if v[0] < lo or v[1] > hi: return (lo, hi, v[2])
    return v
def strip(n):
    while n is not None and n[0] in ('cast', 'defarg', 'definit'): n = n[4] if n[0] == 'cast' else n[3]
    return n

class Width:
    def __init__(s, F):
        s.F = F; s.memo = {}; s.busy = set()
        s.edges = {}       # token -> set of tokens its value flows to
        s.into = {}; s.cuts = {}        # (file, line, kind) -> (token set, text)
        s.n = dict(functions=0, conversions=0, loops=0, shifts=0)
        s.why = {}; s.defc = {}; s.smallcont = set(); s.widths = {}; s.eprod = {}; s.enarrow = {}
    def tn(s, rid):
        r = s.F.records.get(rid)
        return r['tn'] if r else None
    def flow(s, toks, to, f, line):
        if to[0] == 'P' and to[1] == f['id']: s.into.setdefault((to[1], to[2]), set()).update(toks)
        for t in toks:
            if t != to and t[0] != 'D': s.edges.setdefault(t, {}).setdefault(to, (f['file'], line))
    def cut(s, e, toks, kind, text, must=False):
        k = (s.f['file'], e[1], kind)
        o = s.cuts.get(k)
        s.cuts[k] = ((o[0] if o else NONE) | toks, text, s.f['qn'])
    # ------------------------------------------------------------------ functions
    def summary(s, f):
        k = f['id']
        if k in s.memo: return s.memo[k]
        if k in s.busy or f['body'] is None and not f.get('inits'): return None
        s.busy.add(k)
        save = getattr(s, 'f', None), getattr(s, 'ret', None), getattr(s, 'loops', None), getattr(s, 'final', None)
        s.f = f; s.ret = None; s.loops = []; s.final = True
        s.n['functions'] += 1
        env = {}
        for i, p in enumerate(f['params']):
            t = p[2]
            if t['k'] in ('ref', 'rref'): t = t['pt']
            if isint(t): env[p[0]] = trange(t) + (frozenset([('P', k, i)]) if wide(t) else NONE,)
            elif cont(t): env[p[0]] = (0, 0, frozenset([('P', k, i)]))
        for i in f.get('inits') or []:
            if i['e'] is not None:
                v = s.ex(i['e'], env)
                if 'f' in i: s.setfield(f.get('cls'), i['f'], v, i['e'][1])
        if f['body'] is not None: s.st(f['body'], env)
        r = s.ret
        s.f, s.ret, s.loops, s.final = save
        s.busy.discard(k); s.memo[k] = r
        return r
    def setfield(s, rid, name, v, line):
        n = s.tn(rid)
        if n is not None and n in CONT and name in ('m_data', 'm_buffer', 'm_word'): return
        if n is not None: s.flow(v[2], ('F', n, name), s.f, line)
    # ------------------------------------------------------------------ expressions
    def ex(s, e, env):
        """value of e; evaluates sub-expressions for their effects"""
        if e is None: return (0, 0, NONE)
        k = e[0]; t = e[2] if len(e) > 2 and isinstance(e[2], dict) else None
        if k == 'int':
            v = int(e[3]); return (v, v, NONE)
        if k == 'ref':
            if len(e) > 6 and isinstance(e[6], str):
                try: v = int(e[6]); return (v, v, NONE)
                except ValueError: pass
            if e[3] in ('var', 'param', 'slocal'):
                if e[4] in env: return env[e[4]]
                if cont(t): return (0, 0, frozenset([('L', s.f['id'], s.f.get('tu'), e[4])]))
            return top(t)
        if k == 'mem':
            s.ex(e[3], env)
            n = s.tn(e[6])
            if tracked(t) and n is not None and not (cont(t) and n in CONT): return (trange(t) if isint(t) else (0, 0)) + (frozenset([('F', n, e[4])]),)
            return top(t)
        if k == 'cast':
            v = s.ex(e[4], env); src = e[4][2]
            if e[3] == 'IntegralCast':
                if s.final and wide(src) and narrow(t):
                    for x in v[2]:
                        if x[0] == 'D' and x[1][0] == 'E':
                            if t['w'] < 32 and x[1][1]: s.smallcont.add(x[1][1])        # elsewhere treated as small
                            s.enarrow.setdefault((s.f['file'], e[1]), set()).add(s.f['id'])
                            s.widths.setdefault((s.f['file'], e[1]), set()).add(t['w'])     # the type is a template parameter
                if s.final and wide(src) and narrow(t) and t['w'] > 8:     # a position in 8 bits would not survive any use
                    s.n['conversions'] += 1
                    lo, hi = trange(t)
                    if t['w'] < 32: v = (v[0], v[1], frozenset(x for x in v[2] if x[0] != 'D'))
                    if v[2] and (v[1] > max(hi, (1 << t['w']) - 1)):
                        s.cut(e, v[2], 'cut', 'is converted to %d bits' % t['w'])
                if s.final and wide(t) and isint(src) and src['w'] == 32:
                    x = strip_paren(e[4])
                    if x[0] == 'bin' and x[3] == '<<':
                        s.n['shifts'] += 1
                        c = s.ex(x[5], env)
                        if c[1] > 31: s.cut(e, frozenset([('ALWAYS',)]), 'shift', 'is shifted in 32 bits by an unbounded count and used in 64 bits')
                if wide(t): return clip(v, t) if v[0] >= 0 or t.get('sg') else trange(t) + (v[2],)
                v = clip(v, t)
                return (v[0], v[1], NONE)
            if e[3] in ('IntegralToBoolean',): return (0, 1, NONE)
            if isint(t) and isint(src): return v
            return (0, 0, v[2]) if cont(t) and cont(src) else top(t)
        if k == 'bin':
            op = e[3]
            if op in ('&&', '||'):
                s.ex(e[4], env)
                e2 = dict(env); s.refine(e[4], op == '&&', e2)
                s.ex(e[5], e2); return (0, 1, NONE)
            a = s.ex(e[4], env); b = s.ex(e[5], env)
            if op == ',': return b
            if op in ('<', '>', '<=', '>=', '==', '!='): return (0, 1, NONE)
            if cont(t): return (0, 0, a[2] if cont(e[4][2]) else b[2])
            if op == '-' and a[2] and b[2]:
                v = s.arith(op, a, b)
                return clip((v[0], v[1], NONE if s.blockbase(e[5]) else weak(a[2])), t)
            return clip(small(s.arith(op, a, b)), t)
        if k == 'un':
            op = e[3]
            v = s.ex(e[4], env)
            if op in ('++', '--', 'p++', 'p--'):
                d = 1 if '++' in op else -1
                nv = clip((v[0] + d, v[1] + d, v[2]), t)
                s.assign(e[4], nv, env, e[1]); return v if op[0] == 'p' else nv
            if op == '!': return (0, 1, NONE)
            if op == '-' and v[0] > -(1 << 100): return clip((-v[1], -v[0], v[2]), t)
            if op == '~': return trange(t) + (NONE,) if isint(t) else top(t)
            if op == '+': return v
            if op == '*': return elem(v, t)
            return top(t)
        if k == 'asg':
            op = e[3]
            v = s.ex(e[5], env)
            if op != '=':
                a = s.ex(e[4], env)
                v = s.arith(op[:-1], a, v)
                lt = e[4][2]
                if s.final and narrow(lt) and len(e) > 6 and wide(e[6]) and v[2] and v[1] > (1 << lt['w']) - 1 and op in ('+=', '-=', '*='):
                    # the right operand alone decides: adding a position to a narrow variable
                    s.n['conversions'] += 1
                    s.cut(e, v[2], 'cut', 'is added to a variable of %d bits' % lt['w'])
                v = clip(v, lt)
                if not wide(lt): v = (v[0], v[1], NONE)
            else:
                if e[4][0] not in ('ref', 'mem'): s.ex(e[4], env)
            s.assign(e[4], v, env, e[1]); return v
        if k == 'cond':
            s.ex(e[3], env)
            e1 = dict(env); s.refine(e[3], True, e1); a = s.ex(e[4], e1)
            e2 = dict(env); s.refine(e[3], False, e2); b = s.ex(e[5], e2)
            for x in set(e1) | set(e2):
                if x in e1 and x in e2 and x in env: env[x] = join(e1[x], e2[x])
            c = constv(e[3], s, env)
            return a if c is True else b if c is False else join(a, b)
        if k == 'idx':
            v = s.ex(e[3], env); s.ex(e[4], env); return elem(v, t)
        if k == 'lambda':
            g = s.F.fn(e[3], s.f.get('tu'))
            if g is not None: s.summary_of(g)
            return top(t)
        if k in ('mcall', 'opcall', 'call', 'ctor'): return s.call(e, env)
        for c in children(e): s.ex(c, env)
        return top(t)
    def summary_of(s, g):
        save = s.final
        r = s.summary(g); s.final = save
        return r
    def arith(s, op, a, b):
        if op == '+': return (a[0] + b[0], a[1] + b[1], a[2] | b[2])
        if op == '-':
            # difference of two positions: a length that may be small; undecided
            return (a[0] - b[1], a[1] - b[0], a[2] if not b[2] else NONE)
        if op == '*':
            xs = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
            
            t = a[2] | b[2]
            if a[0] != a[1] and b[0] != b[1]: t = frozenset(x[1] if x[0] == 'D' else x for x in t)      # (i / block) * block
            return (min(xs), max(xs), NONE if (0, 0) in (a[:2], b[:2]) else t)
        if op == '/':
            if b[0] == b[1] and b[0] > 0: return (a[0] // b[0], a[1] // b[0], a[2] if b[0] <= 512 else NONE)
            return (min(0, a[0]), max(0, a[1]), weak(a[2]))
        if op == '%':
            if b[1] < (1 << 63) and b[0] >= 0: return (0 if a[0] >= 0 else -b[1], max(0, b[1] - 1), b[2])
            return (0 if a[0] >= 0 else a[0], a[1], b[2])
        if op == '&':
            lo = 0 if a[0] >= 0 or b[0] >= 0 else min(a[0], b[0])
            his = [x[1] for x in (a, b) if x[0] >= 0]
            hi = min(his) if his else max(a[1], b[1])
            # a mask that is not constant: undecided
            t = a[2] | b[2]
            if a[0] != a[1] and b[0] != b[1]: t = weak(t)
            return (lo, hi, t)
        if op == '>>':
            if b[0] == b[1] and 0 <= b[0] < 64: return (a[0] >> b[0], a[1] >> b[0], a[2] if b[0] <= 9 else NONE)
            return (min(0, a[0]), max(a[1], 0), weak(a[2]))
        if op == '<<':
            if b[0] == b[1] and 0 <= b[0] < 64: return (a[0] << b[0] if a[0] >= 0 else a[0], a[1] << b[0], a[2])
            return (0 if a[0] >= 0 else -(1 << 127), 1 << 127, a[2])
        if op in ('|', '^'):
            if a[0] >= 0 and b[0] >= 0: return (0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1, a[2] | b[2])
            return (-(1 << 127), 1 << 127, a[2] | b[2])
        return (-(1 << 127), 1 << 127, NONE)
    def assign(s, lv, v, env, line):
        x = lv
        while x is not None and x[0] == 'cast': x = x[4]
        if x[0] in ('idx', 'un', 'opcall', 'mcall'):
            s.store(x, v, env, line); return
        if x[0] == 'ref' and x[3] in ('var', 'param', 'slocal'):
            if cont(x[2]):
                if x[2]['k'] == 'ptr': env[x[4]] = (0, 0, v[2])
                return
            if isint(x[2]) or x[4] in env: env[x[4]] = v if wide(x[2]) else (v[0], v[1], NONE)
        elif x[0] == 'mem':
            s.ex(x[3], env)
            if tracked(x[2]): s.setfield(x[6], x[4], v, line)
    def tokens(s): return list(s.edges)
    def blockbase(s, e, depth=3):
        """x * constant or an element of a table: the difference is relative to a block"""
        x = strip(e)
        if x is None: return True
        if x[0] == 'bin' and x[3] in ('*', '<<', '&'): return True
        if x[0] == 'bin' and x[3] in ('+', '-'): return s.blockbase(x[4], depth) or s.blockbase(x[5], depth) if x[3] == '+' else s.blockbase(x[4], depth)
        if x[0] in ('idx', 'opcall') and (x[0] == 'idx' or x[3] in ('[]', '*')): return False
        if x[0] == 'un' and x[3] == '*': return True
        if x[0] == 'mcall' and x[4] in READ: return True
        if x[0] in ('mcall', 'call', 'opcall') and depth:
            u = x[4] if x[0] == 'opcall' else x[3]
            g = s.F.fn(u, s.f.get('tu')) if u else None
            if g is not None and g.get('cls') and s.answer(g): return False      # the answer of a query is not relative to a block
            if g is not None and g['body'] is not None:
                for n in walk(g['body']):
                    if n[0] == 'ret' and n[2] is not None:
                        save = s.f; s.f = g
                        try:
                            if s.blockbase(n[2], depth - 1): return True
                        finally: s.f = save
            return False
        if x[0] == 'ref' and x[3] == 'var' and depth:
            return any(s.blockbase(d, depth - 1) for d in s.defs(x[4]))
        return False
    def defs(s, v):
        c = s.defc.get((s.f['id'], s.f.get('tu')))
        if c is None:
            c = {}
            for n in walk(s.f['body']) if s.f['body'] is not None else ():
                if n[0] == 'decl':
                    for b in n[2]:
                        if b[3] is not None: c.setdefault(b[0], []).append(b[3])
                elif n[0] == 'asg':
                    l = strip(n[4])
                    if l is not None and l[0] == 'ref' and n[3] in ('=', '+=', '*='): c.setdefault(l[4], []).append(n[5])
            s.defc[(s.f['id'], s.f.get('tu'))] = c
        return c.get(v, [])
    def answer(s, g):
        """queries of a structure whose answers are positions"""
        R = s.F.records.get(g['cls'])
        if R is None or not any(m['n'] in ('serialize', 'load') for m in R['methods']): return NONE
        n = g['name']
        if n in ('rank', 'select', 'find_close', 'find_open', 'enclose', 'excess') or n == 'operator()' and ('rank' in R['tn'] or 'select' in R['tn']) or n == 'operator[]' and R['tn'] not in CONT:
            return frozenset([('Q', R['tn'], n)])
        return NONE
    def store(s, x, v, env, line):
        """an element of a container gets value v"""
        if not v[2]: return
        b = None
        if x[0] == 'idx': b = x[3]
        elif x[0] == 'un' and x[3] == '*': b = x[4]
        elif x[0] == 'opcall' and x[3] in ('[]', '*', '()'): b = x[6][0]
        elif x[0] == 'mcall' and x[4].rsplit('::', 1)[-1] in READ: b = x[5]
        if b is None: return
        save = s.final; s.final = False
        c = s.ex(b, dict(env)); s.final = save
        for t in c[2]: s.flow(v[2], t, s.f, line)
    def call(s, e, env):
        k = e[0]; t = e[2]
        if k == 'mcall': u, name, obj, args, vo = e[3], e[4], e[5], e[6], True
        elif k == 'opcall':
            u, name = e[4], e[5]
            obj, args = (e[6][0], e[6][1:]) if e[7] and e[6] else (None, e[6])
        elif k == 'call': u, name, obj, args = e[3], e[4], None, e[5]
        else: u, name, obj, args = e[3], '', None, e[4]
        ov = s.ex(obj, env) if obj is not None else (0, 0, NONE)
        if k == 'call' and len(e) > 6: s.ex(e[6], env)
        vals = [s.ex(a, env) for a in args]
        g = s.F.fn(u, s.f.get('tu')) if u else None
        sh = name.rsplit('::', 1)[-1]
        if obj is not None and cont(strip_ref(obj[2])):
            if sh in READ: 
                tt = strip_ref(t)
                v = elem(ov, tt)
                if sh in ('operator[]', 'front', 'back', 'at', 'top') and wide(tt) and isint(tt): s.eprod.setdefault((s.f['file'], e[1]), set()).add(s.f['id']); v = (v[0], v[1], v[2] | {('D', ('E', min((x for x in ov[2] if x[0] == 'F'), default=None, key=repr)))})
                return v
            if sh in ('push_back', 'set_int', 'emplace_back', 'push', 'resize', 'assign') and vals:
                w = vals[1] if sh == 'set_int' and len(vals) > 1 else vals[0]
                if sh in ('push_back', 'set_int', 'emplace_back', 'push'):
                    for tk in ov[2]: s.flow(w[2], tk, s.f, e[1])
            if k == 'opcall' and e[3] == '=' and vals:
                for tk in ov[2]: s.flow(vals[0][2], tk, s.f, e[1])
            if sh == 'swap' and vals:
                for tk in ov[2]: s.flow(vals[0][2], tk, s.f, e[1])
                for tk in vals[0][2]: s.flow(ov[2], tk, s.f, e[1])
            if k == 'opcall' and e[3] in ('+', '-') and cont(strip_ref(t)): return (0, 0, ov[2])
        if k == 'opcall' and e[3] == '=' and obj is not None and obj[0] == 'opcall' and obj[3] == '[]' and vals: s.store(obj, vals[0], env, e[1])
        if k == 'mcall' and obj is not None and sh == 'operator unsigned long':
            ot = strip_ref(obj[2])
            if ot.get('tn') in ('sdsl::int_vector_reference', 'sdsl::int_vector_buffer::reference') and ('<>' in ot.get('rn', '') or "'@'" in ot.get('rn', '')):
                if 'buffer' in ot['tn'] or any(x[0] in 'FP' for x in ov[2]):
                  s.eprod.setdefault((s.f['file'], e[1]), set()).add(s.f['id'])
                  return top(t)[:2] + (ov[2] | {('D', ('E', min((x for x in ov[2] if x[0] == 'F'), default=None, key=repr)))},)
        if k == 'ctor' and cont(t) and len(vals) == 1 and args[0] is not None and cont(strip_ref(args[0][2])): return (0, 0, vals[0][2])
        if name in BITS: return (0, 64, NONE)
        if name == 'std::min' and len(vals) == 2 and isint(strip_ref(t)):
            return (min(vals[0][0], vals[1][0]), min(vals[0][1], vals[1][1]), vals[0][2] & vals[1][2] if vals[0][2] and vals[1][2] else NONE) if not (vals[0][2] and vals[1][2]) else (min(vals[0][0], vals[1][0]), min(vals[0][1], vals[1][1]), vals[0][2] | vals[1][2])
        if name in PASS and vals:
            v = vals[0]
            for x in vals[1:]: v = join(v, x)
            return v
        r = None
        if g is not None and obj is not None and cont(strip_ref(obj[2])) and s.tn(g.get('cls')) in CONT: vals = [x if not cont(strip_ref(a[2] if a is not None else None)) else (0, 0, NONE) for a, x in zip(args, vals)]
        if g is not None:
            r = s.summary_of(g)
            for i, v in enumerate(vals):
                if i < len(g['params']) and v[2]:
                    pt = g['params'][i][2]
                    if pt['k'] in ('ref', 'rref'): pt = pt['pt']
                    if tracked(pt): s.flow(v[2], ('P', g['id'], i), s.f, e[1])
                    into = s.into.get((g['id'], i))
                    if cont(pt) and into and g['params'][i][2]['k'] in ('ref', 'ptr'):
                        out = set()
                        for tok in into:
                            if tok[0] == 'P' and tok[1] == g['id']:
                                if tok[2] < len(vals): out |= vals[tok[2]][2]
                            else: out.add(tok)
                        for tk in v[2]: s.flow(out, tk, s.f, e[1])
            for i, a in enumerate(args):
                x = strip(a)
                if i < len(g['params']) and x is not None and x[0] == 'ref' and x[3] in ('var', 'param', 'slocal') and isint(x[2]):
                    p = g['params'][i][2]
                    if p['k'] == 'ref' and not (p['pt'] or {}).get('c'): env[x[4]] = top(x[2])
        else:
            for a in args:
                x = strip(a)
                if x is not None and x[0] == 'un' and x[3] == '&':
                    y = strip(x[4])
                    if y[0] == 'ref' and y[3] in ('var', 'param', 'slocal') and isint(y[2]): env[y[4]] = top(y[2])
        tt = strip_ref(t)
        if not isint(tt) and not cont(tt): return top(tt)
        if r is not None:
            lo, hi, T = r
            out = set()
            for tok in T:
                if tok[0] == 'P' and tok[1] == g['id']:
                    if tok[2] < len(vals): out |= vals[tok[2]][2]
                elif tok[0] == 'D' and tok[1][0] == 'P' and tok[1][1] == g['id']:
                    if tok[1][2] < len(vals): out |= weak(vals[tok[1][2]][2])
                else: out.add(tok)
            if wide(tt) and g.get('cls'): out |= s.answer(g)
            if wide(tt) and name in ('sdsl::util::cnt_one_bits', 'sdsl::util::cnt_onezero_bits', 'sdsl::util::cnt_zeroone_bits', 'sdsl::util::next_bit', 'sdsl::util::prev_bit', 'sdsl::util::file_size'): out |= {('Q', 'sdsl::util', sh)}
            if len(out) > 12: 
                n = ('R', g['id'])
                s.flow(out, n, s.f, e[1]); out = {n}
            return clip((lo, hi, frozenset(out)), tt) if isint(tt) else (0, 0, frozenset(out))
        return top(tt)
    # ------------------------------------------------------------------ conditions
    def refine(s, c, val, env):
        c0 = strip(c)
        if c0 is None: return
        if c0[0] == 'un' and c0[3] == '!': return s.refine(c0[4], not val, env)
        if c0[0] == 'bin' and c0[3] in ('&&', '||'):
            if (c0[3] == '&&') == val: s.refine(c0[4], val, env); s.refine(c0[5], val, env)
            return
        if c0[0] != 'bin' or c0[3] not in ('<', '>', '<=', '>=', '==', '!='): return
        op = c0[3]
        if not val: op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
        save = s.final; s.final = False
        a = s.ex(c0[4], dict(env)); b = s.ex(c0[5], dict(env))
        s.final = save
        s.bound(c0[4], op, b, env)
        s.bound(c0[5], {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op], a, env)
    def bound(s, e, op, b, env):
        x = e
        off = 0
        while x is not None:
            if x[0] == 'cast': x = x[4]
            elif x[0] == 'bin' and x[3] == '+' and strip(x[5])[0] == 'int': off -= int(strip(x[5])[3]); x = x[4]
            elif x[0] == 'bin' and x[3] == '-' and strip(x[5])[0] == 'int': off += int(strip(x[5])[3]); x = x[4]
            elif x[0] == 'asg' and x[3] == '=': x = x[4]
            elif x[0] == 'un' and x[3] in ('++', '--'): x = x[4]
            elif x[0] == 'un' and x[3] == 'p++': off += 1; x = x[4]
            elif x[0] == 'un' and x[3] == 'p--': off -= 1; x = x[4]
            else: break
        if x is None or x[0] != 'ref' or x[3] not in ('var', 'param') or x[4] not in env: return
        v = env[x[4]]
        lo, hi, T = v
        if op in ('<', '<='):
            h = b[1] + off - (1 if op == '<' else 0)
            if h < hi: hi = h
            T = b[2] if wide(x[2]) else NONE
        elif op in ('>', '>='):
            l = b[0] + off + (1 if op == '>' else 0)
            if l > lo: lo = l
        elif op == '==':
            lo, hi = max(lo, b[0] + off), min(hi, b[1] + off); T = b[2] if wide(x[2]) else NONE
        if lo > hi: lo, hi = min(v[0], hi), max(v[1], lo)
        env[x[4]] = (lo, hi, T)
    # ------------------------------------------------------------------ statements; return False if the end is not reached
    def st(s, n, env):
        if n is None: return True
        k = n[0]
        if k == 'block':
            for c in n[2]:
                if not s.st(c, env): return False
            return True
        if k == 'decl':
            for b in n[2]:
                t = b[2]
                if b[3] is not None:
                    v = s.ex(b[3], env)
                    tt = strip_ref(t)
                    if isint(tt): env[b[0]] = v if wide(tt) else (clip(v, tt)[0], clip(v, tt)[1], NONE)
                    elif cont(tt):
                        if tt['k'] == 'ptr' or t['k'] in ('ref', 'rref'): env[b[0]] = (0, 0, v[2])
                        else: s.flow(v[2], ('L', s.f['id'], s.f.get('tu'), b[0]), s.f, n[1])
                elif isint(t): env[b[0]] = top(t)
            return True
        if k == 'if':
            s.ex(n[2], env)
            c = constv(n[2], s, env)
            e1 = dict(env); s.refine(n[2], True, e1)
            e2 = dict(env); s.refine(n[2], False, e2)
            r1 = s.st(n[3], e1) if c is not False else False
            r2 = s.st(n[4], e2) if c is not True else False
            return s.merge(env, [e for e, r in ((e1, r1), (e2, r2)) if r])
        if k in ('for', 'while', 'do', 'rfor'): return s.loop(n, env)
        if k == 'ret':
            if n[2] is not None:
                v = s.ex(n[2], env)
                if isint(strip_ref(s.f['ret'])) or cont(strip_ref(s.f['ret'])): s.ret = v if s.ret is None else join(s.ret, v)
            return False
        if k == 'switch':
            s.ex(n[2], env); e1 = dict(env)
            s.havoc(n[3], e1)
            s.st(n[3], e1)
            for x in list(env):
                if x in e1: env[x] = join(env[x], e1[x])
            return True
        if k == 'case': return s.st(n[3], env)
        if k == 'default': return s.st(n[2], env)
        if k == 'try':
            e0 = dict(env)
            r = s.st(n[2], env)
            for h in n[3]: s.st(h, dict(e0))
            return r
        if k == 'label':
            s.havoc(s.f['body'], env); return s.st(n[3], env)
        if k in ('break', 'cont', 'goto'):
            if s.loops and k != 'goto': s.loops[-1].append(dict(env))
            return False
        if k in ('nop', 'unkst'): return True
        e = n
        s.ex(e, env)
        return not any(x[0] == 'throw' for x in [n])
    def merge(s, env, envs):
        if not envs: return False
        for x in list(env):
            v = envs[0].get(x, env[x])
            for e in envs[1:]: v = join(v, e.get(x, env[x]))
            env[x] = v
        for e in envs:
            for x in e:
                if x not in env: env[x] = e[x]
        return True
    def assigned(s, n):
        out = set()
        for x in walk(n):
            l = None
            if x[0] == 'asg': l = strip(x[4])
            elif x[0] == 'un' and x[3] in ('++', '--', 'p++', 'p--'): l = strip(x[4])
            elif x[0] in ('call', 'mcall', 'opcall'):
                for a in (x[5] if x[0] == 'call' else x[6]):
                    y = strip(a)
                    if y is not None and y[0] == 'ref' and y[3] in ('var', 'param'): pass
            if l is not None and l[0] == 'ref' and l[3] in ('var', 'param', 'slocal'): out.add(l[4])
        return out
    def havoc(s, n, env, types=None):
        mono = {}
        for x in walk(n):
            if x[0] == 'un' and x[3] in ('++', 'p++'): l = strip(x[4]); m = 1
            elif x[0] == 'un' and x[3] in ('--', 'p--'): l = strip(x[4]); m = -1
            elif x[0] == 'asg': l = strip(x[4]); m = 1 if x[3] == '+=' and (strip(x[5])[0] == 'int' or not x[5][2].get('sg')) else 0
            else: continue
            if l[0] == 'ref' and l[3] in ('var', 'param', 'slocal') and isint(l[2]):
                o = mono.get(l[4]); mono[l[4]] = (m if o is None or o[0] == m else 0, l[2])
        for v, (m, t) in mono.items():
            if v in env:
                lo, hi = trange(t); o = env[v]
                env[v] = (o[0] if m == 1 else lo, o[1] if m == -1 else hi, o[2])
        return mono
    def loop(s, n, env):
        k = n[0]
        if k == 'rfor':
            s.ex(n[3], env)
            b = n[2]
            if b is not None and isint(strip_ref(b[2])): env[b[0]] = top(strip_ref(b[2]))
            cond, inc, body = None, None, n[4]
        elif k == 'for':
            if n[2] is not None: s.st(n[2], env)
            cond, inc, body = n[3], n[4], n[5]
        else: cond, inc, body = n[2], None, n[3]
        parts = [x for x in (cond, inc, body) if x is not None]
        save = s.final; start = dict(env)
        # tokens: two rounds without reporting
        s.final = False
        for _ in range(2):
            e1 = dict(env); s.loops.append([])
            if cond is not None and k != 'do': s.ex(cond, e1); s.refine(cond, True, e1)
            alive = s.st(body, e1)
            outs = s.loops.pop()
            for o in outs + ([e1] if alive else []):
                o = dict(o)
                if inc is not None: s.ex(inc, o)
                for x in env:
                    if x in o: env[x] = join(env[x], o[x])
        s.final = save
        mono = {}
        for p in parts: mono.update(s.havoc(p, env))
        # the real round
        e1 = dict(env); s.loops.append([])
        if cond is not None:
            if s.final: s.counter(n, cond, parts, e1, mono, start)
            if k != 'do': s.ex(cond, e1); s.refine(cond, True, e1)
        if s.final: s.n['loops'] += 1
        alive = s.st(body, e1)
        outs = s.loops.pop()
        if inc is not None:
            e2 = dict(env)
            s.merge(e2, outs + ([e1] if alive else [])) if outs or alive else None
            s.ex(inc, e2)
        if k == 'do' and cond is not None: s.ex(cond, env)
        for o in outs + ([e1] if alive else []):
            for x in env:
                if x in o: env[x] = join(env[x], o[x])
        if cond is not None: s.refine(cond, False, env)
        return True
    def counter(s, n, cond, parts, env, mono, start):
        """a narrow variable that is counted up to a position; a narrow variable counted once per position"""
        trip = NONE
        for x in walk(cond):
            if x[0] == 'bin' and x[3] in ('<', '<=', '!=', '>', '>='):
                for a, b in ((x[4], x[5]), (x[5], x[4])):
                    save = s.final; s.final = False
                    v = s.ex(b, dict(env)); s.final = save
                    v = (v[0], v[1], frozenset(x for x in v[2] if x[0] != 'D'))
                    l = strip(a)
                    while l is not None and l[0] == 'bin' and l[3] in ('+', '-', '*') : l = strip(l[4])
                    if l is None or l[0] != 'ref' or l[4] not in mono: continue
                    if v[2] and v[1] >= TWO32:
                        if narrow(l[2]) and not assigned_other(parts, l[4]) and ((x[3] in ('<', '<=') and a is x[4]) or (x[3] in ('>', '>=') and a is x[5]) or x[3] == '!='):
                            s.cut(x, v[2], 'counter', 'is the bound of the loop variable %s of %d bits' % (l[5], l[2]['w']))
                        elif wide(l[2]) and not start.get(l[4], (0, 0, NONE))[2]: trip = trip | v[2]
        if not trip: return
        body = parts[-1]
        decl = set()
        for x in walk(body):
            if x[0] == 'decl':
                for b in x[2]: decl.add(b[0])
        for x in walk(body):
            l = None
            if x[0] == 'un' and x[3] in ('++', 'p++'): l = strip(x[4])
            elif x[0] == 'asg' and x[3] == '+=': l = strip(x[4])
            if l is None or l[0] != 'ref' or l[3] != 'var' or not narrow(l[2]) or l[2]['w'] > 32: continue
            if l[4] in decl or assigned_other([body], l[4]): continue
            s.cut(x, trip, 'accumulator', 'bounds the number of times the %d bit variable %s is counted up' % (l[2]['w'], l[5]))

def assigned_other(parts, v):
    for p in parts:
        for x in walk(p):
            l = None
            if x[0] == 'asg' and x[3] != '+=': l = strip(x[4])
            elif x[0] == 'un' and x[3] in ('--', 'p--'): l = strip(x[4])
            elif x[0] == 'un' and x[3] == '&': l = strip(x[4])
            elif x[0] in ('break',): pass
            if l is not None and l[0] == 'ref' and l[4] == v: return True
    return False
def strip_ref(t):
    return t['pt'] if t is not None and t['k'] in ('ref', 'rref') else t
def elem(v, t):
    if cont(t): return (0, 0, v[2])
    return (trange(t) if isint(t) else (0, 0)) + (v[2] if wide(t) else NONE,)
def weak(T): return frozenset(t if t[0] == 'D' else ('D', t) for t in T)
def strip_paren(e): return e
def constv(c, s, env):
    c = strip(c)
    if c is None: return None
    if c[0] == 'int': return int(c[3]) != 0
    if c[0] == 'ref' and len(c) > 6 and isinstance(c[6], str):
        try: return int(c[6]) != 0
        except ValueError: return None
    if c[0] == 'un' and c[3] == '!':
        v = constv(c[4], s, env); return None if v is None else not v
    if c[0] == 'bin' and c[3] in ('<', '>', '<=', '>=', '==', '!='):
        save = s.final; s.final = False
        a = s.ex(c[4], dict(env)); b = s.ex(c[5], dict(env)); s.final = save
        op = c[3]
        if a[0] == a[1] and b[0] == b[1]:
            x, y = a[0], b[0]
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        if op == '<': return True if a[1] < b[0] else False if a[0] >= b[1] else None
        if op == '>': return True if a[0] > b[1] else False if a[1] <= b[0] else None
        if op == '<=': return True if a[1] <= b[0] else False if a[0] > b[1] else None
        if op == '>=': return True if a[0] >= b[1] else False if a[1] < b[0] else None
    if c[0] == 'bin' and c[3] in ('&&', '||'):
        a, b = constv(c[4], s, env), constv(c[5], s, env)
        if c[3] == '&&': return False if a is False or b is False else True if a and b else None
        return True if a is True or b is True else False if a is False and b is False else None
    return None
