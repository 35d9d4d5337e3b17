"""Stream classes: every failed operation of the underlying buffer shows in the stream state or in the returned value."""
import re
from common import *
from typestate import Flow, St, strip, uniq
from facts import children, walk, fn_nodes

OPS = {'open', 'close', 'pubseekoff', 'pubseekpos', 'seekpos', 'seekoff'}

def derives(F, r, names, seen=None):
    """does record r derive from one of the std class templates?"""
    R = F.records.get(r)
    if R is None: return False
    for b in R['bases']:
        n = b.get('tn') or b.get('rn') or b.get('s') or ''
        if any(n == x or n.startswith(x + '<') for x in names): return True
        if b.get('rec') and derives(F, b['rec'], names): return True
    return False
BUF = ('std::basic_streambuf', 'std::streambuf', 'std::basic_filebuf', 'std::filebuf')
STR = ('std::basic_ostream', 'std::basic_istream', 'std::basic_iostream', 'std::basic_ios', 'std::ostream', 'std::istream', 'std::ios')

def peel(e):
    """through casts and copy / move / converting constructors of one argument"""
    while e is not None:
        if e[0] == 'cast': e = e[4]
        elif e[0] in ('defarg', 'definit'): e = e[3]
        elif e[0] == 'ctor' and len([a for a in e[4] if a is not None and a[0] != 'defarg']) == 1: e = [a for a in e[4] if a is not None and a[0] != 'defarg'][0]
        else: return e
    return e
def is_minus1(e):
    e = peel(e)
    if e is None: return False
    if e[0] == 'un' and e[3] == '-': x = peel(e[4]); return x is not None and x[0] == 'int' and str(x[3]) == '1'
    if e[0] == 'int': return str(e[3]) in ('-1', str(2**64 - 1), str(2**32 - 1))
    return e[0] == 'call' and e[4].endswith('::eof')
def is_null(e):
    e = peel(e)
    return e is not None and (e[0] == 'null' or e[0] == 'int' and str(e[3]) == '0' and False)
def fails(e):
    e = peel(e)
    return is_minus1(e) or e is not None and (e[0] == 'null' or e[0] == 'int' and e[2]['k'] == 'bool' and str(e[3]) == '0')

class Ops(Flow):
    def __init__(s, F, cls, kind): Flow.__init__(s, F); s.cls = cls; s.kind = kind; s.deref = []
    def isop(s, e):
        if e is None or e[0] != 'mcall' or e[4].rsplit('::', 1)[-1] not in OPS: return None
        if e[4].rsplit('::', 1)[-1] == 'open' and s.kind == 'buf': return None
        o = strip(e[5])
        if o is None: return None
        if o[0] == 'this' and s.kind != 'buf': return None
        t = e[5][2]
        while t.get('k') == 'ptr' and t.get('pt'): t = t['pt']
        n = t.get('tn') or t.get('rn') or ''
        if any(n == x or n.startswith(x + '<') for x in BUF) or t.get('rec') and derives(s.F, t['rec'], BUF): return (e[4].rsplit('::', 1)[-1], e[1])
        return None
    def valop(s, e, st):
        e = peel(e)
        if e is None: return None
        o = s.isop(e)
        if o: return o
        if e[0] in ('ref', 'mem'): return st.get(('res', s.G.key(e)))
        if e[0] == 'cond':     # the branch this path has taken
            v = [o for o in (s.valop(e[4], st), s.valop(e[5], st)) if o and ('op', o) in st.d]
            return v[0] if len(v) == 1 else None
        return None
    def set_op(s, o, st): return st.set(('op', o), 'unk')
    def split(s, o, st):
        v = st.get(('op', o), 'unk')
        r = []
        if v != 'bad': r.append((st.set(('op', o), 'ok') if v != 'maybe' else st, True))
        if v != 'ok': r.append((st.set(('op', o), 'bad') if v != 'maybe' else st, False))
        return r
    # nullness of member pointers
    def ptr(s, e):
        e = peel(e)
        if e is None: return None
        if e[0] == 'mem' and strip(e[6] if len(e) > 6 and isinstance(e[6], list) else None) is None:
            k = s.G.key(e)
            return k
        return s.G.key(e) if e[0] == 'mem' else None
    def nsplit(s, k, st):
        v = st.get(('ptr', k), 'unk')
        r = []
        if v not in ('null', 'tnull'): r.append((st.set(('ptr', k), 'ok'), True))
        if v != 'ok': r.append((st.set(('ptr', k), 'tnull' if v == 'unk' else v), False))
        return r
    def ismemptr(s, e):
        e = peel(e)
        return e is not None and e[0] == 'mem' and e[2].get('k') == 'ptr'
    def truth_of(s, e, st):
        """e denotes a pointer / position value: (state, success?)"""
        o = s.valop(e, st)
        if o: return s.split(o, st)
        if s.ismemptr(e): return s.nsplit(s.G.key(peel(e)), st)
        return None
    def atom(s, e, st):
        k = e[0]
        if k == 'cast' and 'ToBoolean' in str(e[3]):
            if s.isop(peel(e[4])):
                r = []
                for x in s.ev(e[4], [st]): r += s.truth_of(e[4], x)
                return r
            return s.truth_of(e[4], st)
        if k == 'bin' and e[3] in ('==', '!='):
            for a, b in ((e[4], e[5]), (e[5], e[4])):
                if is_null(b) or peel(b) is not None and (peel(b)[0] == 'null'):
                    r = s.truth_of(a, st)
                    if r is not None: return [(x, t == (e[3] == '!=')) for x, t in r]
                if is_minus1(b):
                    r = s.truth_of(a, st)
                    if r is not None: return [(x, t == (e[3] == '!=')) for x, t in r]
        if k == 'opcall' and e[3] in ('==', '!=') and len(e[6]) == 2:
            for a, b in ((e[6][0], e[6][1]), (e[6][1], e[6][0])):
                if is_minus1(b):
                    r = s.truth_of(a, st)
                    if r is not None: return [(x, t == (e[3] == '!=')) for x, t in r]
        if k == 'ref' and e[3] in ('var', 'param'):
            b = st.get(('bool', s.G.key(e)))
            if isinstance(b, bool): return [(st, b)]
        if k == 'mcall' and strip(e[5]) is not None and strip(e[5])[0] == 'this':
            g = s.F.fn(e[3], s.f.get('tu'))
            if g is not None and g['body'] is not None and g['body'][0] == 'block' and len(g['body'][2]) == 1 and g['body'][2][0][0] == 'ret' and g['ret']['k'] == 'bool' and not s.busy:
                s.busy = True
                r = s.cond(g['body'][2][0][2], st)
                s.busy = False
                return r
        # some other test of a result: the rule cannot follow it
        if k in ('bin', 'opcall', 'mcall'):
            for x in walk(e):
                if x is not e:
                    o = s.valop(x, st) if x[0] in ('ref', 'mem', 'mcall') else None
                    if o: st = st.set(('op', o), 'maybe')
        return None
    busy = False
    def value_split(s, e):
        for x in walk(e):
            if s.isop(x) or s.ismemptr(x): return True
            if x[0] == 'ref' and x[3] == 'var' and (x[2].get('k') in ('bool', 'ptr')): return True
            if x[0] == 'opcall' and x[3] in ('==', '!='): return True
        return False
    def bits(s, e, st):
        """does an iostate value contain failbit or badbit?  True / False / None"""
        e = peel(e)
        if e is None: return None
        if e[0] == 'ref':
            n = e[5] if e[3] == 'glob' and isinstance(e[5], str) else ''
            if n.endswith('failbit') or n.endswith('badbit'): return True
            if n.endswith('goodbit') or n.endswith('eofbit'): return False
            return st.get(('bits', s.G.key(e)))
        if e[0] == 'opcall' and e[3] == '|' :
            v = [s.bits(a, st) for a in e[6]]
            return True if True in v else False if v == [False, False] else None
        if e[0] == 'bin' and e[3] == '|':
            v = [s.bits(a, st) for a in (e[4], e[5])]
            return True if True in v else False if v == [False, False] else None
        if e[0] == 'int': return bool(int(e[3]) & 5) if str(e[3]).isdigit() else None
        if e[0] == 'cond':
            ts = {b for _, b in s.cond(e[3], st)}
            v = {s.bits(e[4] if b else e[5], st) for b in ts}
            return v.pop() if len(v) == 1 else None
        if e[0] == 'mcall' and e[4].endswith('::rdstate'):
            f = st.get('flag', 'old')
            return f if f != 'maybe' else None
        if e[0] in ('bin', 'opcall') and e[3] == '&':
            ar = [e[4], e[5]] if e[0] == 'bin' else e[6]
            for a, b in ((ar[0], ar[1]), (ar[1], ar[0])):
                x = peel(b)
                if x is not None and x[0] in ('un', 'opcall') and x[3] == '~':
                    y = peel(x[4] if x[0] == 'un' else x[6][0])
                    if y is not None and y[0] == 'ref' and s.bits(a, st) == 'old' and str(y[5] if len(y) > 5 else '').rsplit('::', 1)[-1] in ('badbit', 'eofbit', 'goodbit'): return 'old'
        return None
    def bind(s, key, e, t, st):
        st = st.drop(('res', key)).drop(('bits', key)).drop(('ptr', key)).drop(('bool', key))
        if t.get('k') == 'enum':
            b = s.bits(e, st)
            return [st.set(('bits', key), b)] if b is not None else [st]
        o = s.valop(e, st)
        if o: return [st.set(('res', key), o)]
        if t.get('k') == 'ptr':
            x = peel(e)
            if x is not None and x[0] == 'null': return [st.set(('ptr', key), 'null')]
            if x is not None and x[0] in ('ref', 'mem') and st.get(('ptr', s.G.key(x))): return [st.set(('ptr', key), st.get(('ptr', s.G.key(x))))]
            if x is not None and (x[0] == 'new' or x[0] == 'un' and x[3] == '&' or x[0] == 'this'): return [st.set(('ptr', key), 'ok')]
        if t.get('k') == 'bool':
            x = strip(e)
            if x is not None and x[0] == 'int': return [st.set(('bool', key), str(x[3]) != '0')]
            if s.value_split(e): return [y.set(('bool', key), b) for y, b in s.cond(e, st)]
        return [st]
    def on_decl(s, b, st): return s.bind(('v', b[0]), b[3], b[2], st) if b[3] is not None else [st]
    def bind_bool(s, b, t, st): return [st.set(('bool', ('v', b[0])), t)]
    def on_assign(s, lhs, rhs, st, node=None):
        k = s.G.key(lhs)
        return s.bind(k, rhs, lhs[2], st)
    def ev(s, e, sts):
        # an assignment of a truth value: split instead of evaluating the right side twice
        if e is not None and e[0] == 'asg' and e[3] == '=' and e[4][2].get('k') == 'bool' and s.value_split(e[5]):
            k = s.G.key(e[4])
            return s.each(sts, lambda st: [y.drop(('res', k)).set(('bool', k), b) for y, b in s.cond(e[5], s.kill(k, st))])
        return Flow.ev(s, e, sts)
    def on_node(s, e, st):
        k = e[0]
        o = s.isop(e)
        if o:
            if len(s.thrown) > 1: s.thrown[-1].append((e, st.set(('op', o), 'bad')))    # it may throw into an enclosing handler
            return [s.set_op(o, st)]
        if k == 'opcall' and e[3] == '|=' and e[6]:
            q = s.G.key(e[6][0]); b = s.bits(e[6][1], st); c = st.get(('bits', q))
            v = True if True in (b, c) else False if (b, c) == (False, False) else None
            return [st.set(('bits', q), v) if v is not None else st.drop(('bits', q))]
        if k == 'asg' and e[3] == '|=':
            q = s.G.key(e[4]); b = s.bits(e[5], st); c = st.get(('bits', q))
            v = True if True in (b, c) else False if (b, c) == (False, False) else None
            return [st.set(('bits', q), v) if v is not None else st.drop(('bits', q))]
        if k == 'mcall':
            n = e[4].rsplit('::', 1)[-1]; me = strip(e[5]) is not None and strip(e[5])[0] == 'this'
            if me and n in ('setstate', 'clear'):
                a = e[6][0] if e[6] else None
                b = s.bits(a, st) if a is not None and a[0] != 'defarg' else (False if n == 'clear' else None)
                if n == 'setstate' and b is False: return [st]
                if n == 'setstate' and st.get('flag') is True: return [st]
                return [st.set('flag', 'maybe' if b is None else b)]
            if me and n == 'rdbuf' and [a for a in e[6] if a is not None and a[0] != 'defarg']:
                x = peel(e[6][0]); v = st.get(('ptr', s.G.key(x)), 'unk') if x is not None and x[0] in ('ref', 'mem') else 'null' if is_null(e[6][0]) else 'unk'
                return [st.set('flag', True if v in ('null', 'tnull') else False if v == 'ok' else 'maybe')]
            if not me and s.kind == 'buf':
                x = peel(e[5])
                if s.ismemptr(e[5]) and e[5][0] != 'cast': s.need(s.G.key(x), st, e)
        if k == 'un' and e[3] == '*' and s.kind == 'buf' and s.ismemptr(e[4]): s.need(s.G.key(peel(e[4])), st, e)
        if k in ('call', 'mcall', 'ctor', 'opcall'):
            ar = e[5] if k == 'call' else e[6] if k in ('mcall', 'opcall') else e[4]
            if not (k == 'opcall' and e[3] in ('==', '!=')) and not (k == 'ctor'):
                for a in ar:
                    o = s.valop(a, st) if a is not None else None
                    if o: st = st.set(('op', o), 'maybe')
            if k in ('call', 'mcall') and e[4].startswith('sdsl::') and s.kind == 'str' and strip(e[5] if k == 'mcall' else None) is not None and strip(e[5])[0] == 'this':
                st = st.set('flag', 'maybe') if e[4].rsplit('::', 1)[-1] not in ('is_open',) and s.sets_state(e) else st
        return [st]
    def sets_state(s, e):
        g = s.F.fn(e[3], s.f.get('tu'))
        return g is not None and g['body'] is not None and any(x[0] == 'mcall' and x[4].rsplit('::', 1)[-1] in ('setstate', 'clear', 'rdbuf') for x in fn_nodes(g))
    def need(s, k, st, e):
        s.ders += 1
        if st.get(('ptr', k), 'unk') != 'ok': s.deref.append((e[1], k))
    def stm(s, n, sts):
        if n is not None and n[0] == 'ret' and n[2] is not None and strip(n[2]) is not None:
            from typestate import Out
            o = Out()
            def go(e, sts):
                x = peel(e)
                if x is not None and x[0] == 'cond':
                    for st in sts:
                        for y, b in s.cond(x[3], st): go(x[4] if b else x[5], [y])
                    return
                if s.f['ret']['k'] == 'bool' and s.value_split(e):
                    for st in sts:
                        for y, b in s.cond(e, st): o.ret.append((n, y.set('retk', 'ok' if b else 'fail')))
                    return
                for st in s.ev(e, sts):
                    v = s.valop(e, st)
                    if fails(e): q = 'fail'
                    elif v: q = v
                    elif x[0] == 'mem' or x[0] == 'ref' and x[3] in ('var', 'param'):
                        q = {'null': 'fail', 'tnull': 'fail', 'ok': 'ok'}.get(st.get(('ptr', s.G.key(x))), st.get(('bool', s.G.key(x)), 'maybe'))
                    elif x[0] == 'call' and x[4].endswith('::to_int_type') or x[0] == 'this' or x[0] == 'bin' or x[0] == 'int': q = 'ok'
                    else: q = 'maybe'
                    if q is True: q = 'ok'
                    if q is False: q = 'fail'
                    o.ret.append((n, st.set('retk', q)))
            go(n[2], sts)
            return o
        return Flow.stm(s, n, sts)
    def run(s, f, init=None): s.deref = []; s.ders = 0; return Flow.run(s, f, init)

def check_streams(rep, F):
    todo = []
    for u, f in F.functions.items():
        if f['body'] is None or not f.get('cls') or not f['qn'].startswith('sdsl::') or f.get('lambda'): continue
        kind = 'str' if derives(F, f['cls'], STR) else 'buf' if derives(F, f['cls'], BUF) else None
        if kind is None: continue
        n = f['name']
        if f.get('ctor') or f.get('dtor') or n.startswith('~') or n == f['qn'].split('::')[-2]: continue
        todo.append((f, kind))
    for f, kind in sorted(todo, key=lambda x: (x[0]['file'], x[0]['line'])):
        W = Ops(F, f['cls'], kind); o = W.run(f)
        rep.count('stream and buffer operations')
        if W.over: rep.incomplete.append('%s: too many states' % f['qn']); continue
        at = '%s:%d: %s' % (rel(f['file']), f['line'], f['qn'])
        bads = {}
        for line, k in W.deref: bads['uses the file although it may be closed'] = (line, 'uses the file although it may be closed')
        [rep.ob() for _ in range(W.ders)]
        for n, st in o.ret:
            rep.count('paths')
            line = n[1] if n is not None else f['line']
            why = None
            for k, v in st.d.items():
                if not isinstance(k, tuple): continue
                if k[0] == 'op' and v != 'maybe':
                    if kind == 'str':
                        fl = st.get('flag')
                        if v in ('bad', 'unk') and fl is not True and fl != 'maybe':
                            why = ('the result of %s is not tested' if v == 'unk' else 'a failed %s is not shown in the stream state') % k[1][0]
                        if v == 'ok' and k[1][0] == 'open' and f['name'] == 'open' and fl not in (False, 'maybe'):
                            why = 'the stream still shows an earlier failure after a successful open'
                        r = st.get('retk', 'maybe')
                        if f['name'] == 'open' and k[1][0] == 'open' and f['ret']['k'] == 'ptr':
                            if v == 'bad' and r == 'ok': why = 'a failed open is returned as success'
                            if v == 'ok' and r == 'fail': why = 'a successful open is returned as failure'
                    else:
                        r = st.get('retk', 'maybe')
                        if f['ret']['k'] == 'void' : continue
                        if v == 'bad' and r == 'ok': why = 'a failed %s is returned as success' % k[1][0]
                        if v == 'unk' and r == 'ok': why = 'the result of %s is not tested' % k[1][0]
                if k[0] == 'ptr' and v == 'tnull' and kind == 'str' and f['ret']['k'] == 'void' and f['name'] == 'close' and st.get('flag') not in (True, 'maybe'):
                    why = 'closing a stream without a file is not shown in the stream state'
                if k[0] == 'ptr' and v == 'tnull' and kind == 'buf' and st.get('retk') == 'ok' and f['ret']['k'] != 'void' and f['name'] != 'sync':
                    why = 'an operation on a closed file is returned as success'
            rep.ob(why is None)
            if why: bads[why] = (line, why)
        for line, why in bads.values():
            rep.violation('%s %s' % (f['qn'], why), '%s:%d: %s: %s' % (rel(f['file']), line, f['qn'], why))
