"""Merged program facts: loads what tool/extract wrote for every translation unit."""
import json, os

class Facts:
    def __init__(self):
        self.functions = {}      # usr string -> function record
        self.tufun = {}          # (tu, usr) -> function record (lambdas)
        self.records = {}        # usr string -> record
        self.globals = {}
        self.patterns = set()
        self.units = []
        self.errors = {}
        self.recbyname = {}
        self.methods_of = {}

    def add_unit(self, name, path):
        with open(path) as f:
            d = json.load(f)
        usrs = d['usrs']
        types = d['types']
        for t in types:
            if t and 'rec' in t:
                t['rec'] = usrs[t['rec']]
        for t in types:
            if t is None: continue
            if 'pt' in t: t['pt'] = types[t['pt']] if t['pt'] >= 0 else None
            if 'ta' in t: t['ta'] = [types[i] for i in t['ta']]
        T = lambda i: types[i] if i is not None and i >= 0 else {'k': 'none', 's': '?'}
        self.units.append(name)
        self.errors[name] = d['errors']
        for p in d['patterns']:
            self.patterns.add((p[0], p[1], p[2]))
        conv = Conv(usrs, types)
        for r in d['records']:
            rid = usrs[r['id']]
            if rid in self.records: continue
            r['id'] = rid
            r['bases'] = [T(b) for b in r['bases']]
            for f in r['fields']:
                f['t'] = T(f['t'])
                if 'init' in f and f['init'] != 'uninst': f['init'] = conv.e(f['init'])
            for f in r['sfields']:
                f['t'] = T(f['t']); f['id'] = usrs[f['id']]
            for m in r['methods']:
                m['id'] = usrs[m['id']]; m['ret'] = T(m['ret']); m['p'] = [T(x) for x in m['p']]
            self.records[rid] = r
            self.recbyname.setdefault(r['name'], rid)
        for g in d['globals']:
            gid = usrs[g['id']]
            if gid in self.globals: continue
            g['id'] = gid; g['t'] = T(g['t']); g['init'] = conv.e(g['init'])
            self.globals[gid] = g
        for f in d['functions']:
            fid = usrs[f['id']]
            old = self.functions.get(fid)
            keep = old is None or (old['body'] is None and f['body'] is not None) or \
                (old['body'] is None and old.get('inits') is None)
            lam = f.get('lambda')
            if not keep and not lam: continue
            f['id'] = fid
            f['tu'] = name
            if 'cls' in f: f['cls'] = usrs[f['cls']]
            if 'over' in f: f['over'] = [usrs[x] for x in f['over']]
            f['ret'] = T(f['ret'])
            f['params'] = [[p[0], p[1], T(p[2])] for p in f['params']]
            if 'inits' in f:
                for i in f['inits']:
                    if 'b' in i: i['b'] = T(i['b'])
                    i['e'] = conv.e(i['e'])
            f['body'] = conv.s(f['body'])
            if lam: self.tufun[(name, fid)] = f
            if keep: self.functions[fid] = f
        return d

    def finish(self):
        for f in self.functions.values():
            if 'cls' in f: self.methods_of.setdefault(f['cls'], []).append(f)

    def fn(self, usr, tu=None):
        if tu is not None:
            r = self.tufun.get((tu, usr))
            if r is not None: return r
        return self.functions.get(usr)


class N(list):
    """expression / statement node: a list with named access helpers"""
    __slots__ = ()
    @property
    def k(self): return self[0]
    @property
    def l(self): return self[1]

STMT = {'block', 'if', 'for', 'while', 'do', 'rfor', 'ret', 'decl', 'break', 'cont', 'switch', 'case', 'default', 'try',
        'label', 'goto', 'nop', 'unkst'}

class Conv:
    """resolve usr/type indices in node arrays (in place)"""
    def __init__(s, usrs, types):
        s.u = usrs; s.t = types
    def ty(s, i): return s.t[i] if i is not None and i >= 0 else {'k': 'none', 's': '?'}
    def us(s, i): return s.u[i] if i is not None and i >= 0 else None
    def v(s, b):  # variable declarator
        b[2] = s.ty(b[2]); b[3] = s.e(b[3]); return b
    def s(s, n):
        if n is None: return None
        k = n[0]
        if k not in STMT: return s.e(n)
        if k == 'block': n[2] = [s.s(x) for x in n[2]]
        elif k == 'if': n[2] = s.e(n[2]); n[3] = s.s(n[3]); n[4] = s.s(n[4])
        elif k == 'for': n[2] = s.s(n[2]); n[3] = s.e(n[3]); n[4] = s.e(n[4]); n[5] = s.s(n[5])
        elif k in ('while', 'do'): n[2] = s.e(n[2]); n[3] = s.s(n[3])
        elif k == 'rfor':
            if n[2] is not None: s.v(n[2])
            n[3] = s.e(n[3]); n[4] = s.s(n[4])
        elif k == 'ret': n[2] = s.e(n[2])
        elif k == 'decl': n[2] = [s.v(b) for b in n[2]]
        elif k == 'switch': n[2] = s.e(n[2]); n[3] = s.s(n[3])
        elif k == 'case': n[2] = s.e(n[2]); n[3] = s.s(n[3])
        elif k == 'default': n[2] = s.s(n[2])
        elif k == 'try': n[2] = s.s(n[2]); n[3] = [s.s(x) for x in n[3]]
        elif k == 'label': n[3] = s.s(n[3])
        return n
    def e(s, n):
        if n is None: return None
        k = n[0]
        if k in STMT: return s.s(n)
        n[2] = s.ty(n[2])
        if k in ('int', 'float', 'str', 'null', 'this', 'zero', 'typeid'):
            if k == 'int' and len(n) > 4 and n[4] == 'sizeof' and len(n) > 5: n[5] = s.ty(n[5])
        elif k == 'ref':
            if n[3] in ('func', 'glob', 'other'): n[4] = s.us(n[4])
            if n[3] == 'func' and len(n) > 6: n[6] = s.e(n[6])
        elif k == 'mem': n[3] = s.e(n[3]); n[6] = s.us(n[6])
        elif k == 'mcall': n[3] = s.us(n[3]); n[5] = s.e(n[5]); n[6] = [s.e(x) for x in n[6]]; n[9] = s.us(n[9])
        elif k == 'opcall': n[4] = s.us(n[4]); n[6] = [s.e(x) for x in n[6]]; n[8] = s.us(n[8])
        elif k == 'call':
            n[3] = s.us(n[3]); n[5] = [s.e(x) for x in n[5]]
            if len(n) > 6: n[6] = s.e(n[6])
        elif k == 'ctor': n[3] = s.us(n[3]); n[4] = [s.e(x) for x in n[4]]; n[6] = s.us(n[6])
        elif k == 'cast': n[4] = s.e(n[4])
        elif k in ('bin', 'asg'):
            n[4] = s.e(n[4]); n[5] = s.e(n[5])
            if len(n) > 6: n[6] = s.ty(n[6])
        elif k == 'un': n[4] = s.e(n[4])
        elif k == 'cond': n[3] = s.e(n[3]); n[4] = s.e(n[4]); n[5] = s.e(n[5])
        elif k == 'idx': n[3] = s.e(n[3]); n[4] = s.e(n[4])
        elif k == 'init': n[3] = [s.e(x) for x in n[3]]
        elif k == 'new': n[3] = s.ty(n[3]); n[4] = s.e(n[4]); n[5] = s.e(n[5])
        elif k == 'del': n[4] = s.e(n[4])
        elif k == 'throw': n[3] = s.e(n[3])
        elif k == 'lambda': n[3] = s.us(n[3])
        elif k in ('defarg', 'definit'): n[3] = s.e(n[3])
        elif k == 'unk': n[4] = [s.e(x) for x in n[4]]
        return n


def children(n):
    """direct child nodes (expressions and statements) of a node"""
    k = n[0]
    def L(xs): return [x for x in xs if x is not None]
    if k == 'block': return L(n[2])
    if k == 'if': return L([n[2], n[3], n[4]])
    if k == 'for': return L([n[2], n[3], n[4], n[5]])
    if k in ('while', 'do'): return L([n[2], n[3]])
    if k == 'rfor': return L([n[2][3] if n[2] else None, n[3], n[4]])
    if k == 'ret': return L([n[2]])
    if k == 'decl': return L([b[3] for b in n[2]])
    if k in ('switch', 'case'): return L([n[2], n[3]])
    if k == 'default': return L([n[2]])
    if k == 'try': return L([n[2]] + n[3])
    if k == 'label': return L([n[3]])
    if k == 'ref': return L([n[6]]) if n[3] == 'func' and len(n) > 6 and isinstance(n[6], list) else []
    if k == 'mem': return L([n[3]])
    if k == 'mcall': return L([n[5]] + n[6])
    if k == 'opcall': return L(n[6])
    if k == 'call': return L(n[5] + ([n[6]] if len(n) > 6 else []))
    if k == 'ctor': return L(n[4])
    if k == 'cast': return L([n[4]])
    if k in ('bin', 'asg'): return L([n[4], n[5]])
    if k == 'un': return L([n[4]])
    if k == 'cond': return L([n[3], n[4], n[5]])
    if k == 'idx': return L([n[3], n[4]])
    if k == 'init': return L(n[3])
    if k == 'new': return L([n[4], n[5]])
    if k == 'del': return L([n[4]])
    if k in ('throw', 'defarg', 'definit'): return L([n[3]])
    if k == 'unk': return L(n[4])
    return []

def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        st.extend(reversed(children(x)))

def fn_nodes(f):
    for i in f.get('inits') or []:
        if i['e'] is not None: yield from walk(i['e'])
    if f['body'] is not None: yield from walk(f['body'])
