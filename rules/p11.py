"""Failures of file operations are reported."""
import re
from common import *
from typestate import Flow, St, strip, uniq
from streams import check_streams
from facts import children, walk, fn_nodes

IN = {'sdsl::isfstream', 'std::basic_ifstream'}
OUT = {'sdsl::osfstream', 'std::basic_ofstream', 'std::basic_fstream'}
STATE_TESTS = {'good': True, 'fail': False, 'bad': None}

def stream_type(t):
    if t['k'] != 'rec': return None
    n = t.get('tn') or ''
    return 'in' if n in IN else 'out' if n in OUT else None

def base(e):
    """variable a stream expression denotes"""
    while e is not None:
        k = e[0]
        if k == 'cast': e = e[4]
        elif k == 'opcall' and e[3] in ('>>', '<<') and e[6]: e = e[6][0]
        elif k == 'mcall' and e[4].rsplit('::', 1)[-1] in ('seekg', 'seekp', 'read', 'write', 'get', 'put', 'ignore', 'flush', 'getline'): e = e[5]
        elif k == 'call' and e[4] == 'std::getline' and e[5]: e = e[5][0]
        elif k == 'ref' and e[3] in ('var', 'slocal'): return ('v', e[4])
        else: return None
    return None
def reads_or_writes(e):
    e = strip(e)
    return e is not None and (e[0] == 'opcall' and e[3] in ('>>', '<<') or e[0] in ('mcall', 'call'))

def reports(n):
    return n is not None and any(x[0] == 'throw' or x[0] == 'ret' and x[2] is not None and strip(x[2])[0] == 'int' and str(strip(x[2])[3]) in ('0', 'false') for x in walk(n))
def reduce_count(vs, st):
    for v, (kind, _) in vs.items():
        x = st.get(v)
        if kind == 'in' and x is not None and x[1] in ('dirty', 'closed'): st = st.set(v, (x[0], 'ok'))
    return st
def counted(f, vs):
    """variables that depend on the number of bytes an input stream delivered"""
    ins = {v for v, (k, _) in vs.items() if k == 'in'}
    t = set()
    def tainted(e): return e is not None and any(x[0] == 'ref' and x[3] == 'var' and x[4] in t or x[0] == 'mcall' and x[4].endswith('::gcount') and base(x[5]) in ins for x in walk(e))
    def scan(n, ctl):
        if n is None: return
        k = n[0]
        if k == 'decl':
            for b in n[2]:
                if tainted(b[3]) or ctl and b[3] is not None: t.add(b[0])
            return
        if k == 'asg' or k == 'un' and n[3] in ('++', '--', 'p++', 'p--'):
            l = strip(n[4])
            if l is not None and l[0] == 'ref' and l[3] == 'var' and (ctl or k == 'asg' and tainted(n[5])): t.add(l[4])
        if k in ('if', 'while', 'do'): ctl = ctl or tainted(n[2])
        if k == 'for': ctl = ctl or tainted(n[3])
        for c in children(n): scan(c, ctl)
    m = -1
    while len(t) != m: m = len(t); scan(f['body'], False)
    return t

class Report11(Flow):
    """per stream variable: (kind, opened?, content state) with content state in fresh | dirty | ok | bad | end"""
    def __init__(s, F, reporters): Flow.__init__(s, F); s.rep = reporters; s.used = False
    def stream(s, e): 
        b = base(e)
        return b if b is not None and b in s.vars else None
    def run(s, f, init=None):
        s.vars = {}
        for n in fn_nodes(f):
            if n[0] == 'decl':
                for b in n[2]:
                    k = stream_type(b[2])
                    if k: s.vars[('v', b[0])] = (k, b[1])
        s.counted = counted(f, s.vars)
        return Flow.run(s, f, init)
    def stm(s, n, sts):
        # the number of bytes read is compared, and a branch reports the failure
        if n is not None and n[0] == 'if' and s.counted and any(x[0] == 'ref' and x[3] == 'var' and x[4] in s.counted for x in walk(n[2])) and (reports(n[3]) or reports(n[4])):
            sts = uniq([reduce_count(s.vars, st) for st in sts])
        return Flow.stm(s, n, sts)
    def on_decl(s, b, st):
        v = ('v', b[0])
        if v in s.vars:
            i = strip(b[3]) if b[3] is not None else None
            args = [a for a in (i[4] if i is not None and i[0] == 'ctor' else []) if a is not None and a[0] != 'defarg']
            return [st.set(v, ('unk', 'fresh') if args else ('closed', 'fresh'))]
        i = strip(b[3]) if b[3] is not None else None
        r = s.rep_call(i)
        if r: return [st.set(('bool', v), ('rep', r, False)).set(('rep', r), 'unk')]
        if i is not None and i[0] == 'int' and b[2].get('k') == 'bool': return [st.set(('bool', v), str(i[3]) not in ('0', 'false'))]
        return [st]
    def on_assign(s, lhs, rhs, st, node=None):
        p = s.G.key(lhs)
        if isinstance(p, tuple) and p[0] == 'v':
            r = s.rep_call(strip(rhs))
            if r: return [st.set(('bool', p), ('rep', r, False))]
            st = st.drop(('bool', p))
            e = strip(rhs)
            if e is not None and e[0] == 'int' and lhs[2].get('k') == 'bool': st = st.set(('bool', p), str(e[3]) != '0')
            elif lhs[2].get('k') == 'bool' and s.value_split(rhs): return [x.set(('bool', p), t) for x, t in s.cond(rhs, st)]
        return [st]
    def rep_call(s, e):
        if e is None or e[0] not in ('call', 'mcall'): return None
        u = e[3]
        return (e[4], e[1]) if u in s.rep else None
    def value_split(s, e):
        for x in walk(e):
            if x[0] in ('mcall', 'opcall', 'ref') and s.stream(x) is not None: return True
            if s.rep_call(x): return True
            if x[0] == 'ref' and x[3] in ('var',) and x[2].get('k') == 'bool': return True
        return False
    def test(s, st, v, mode):
        """-> [(state, truth)]; mode: 'state' (!fail) or 'open'"""
        o, c = st.get(v, ('unk', 'fresh'))
        if c == 'maybe': return [(st, True), (st, False)]
        if mode == 'open':
            r = []
            if o != 'bad': r.append((st.set(v, ('ok', c) if o != 'closed' else (o, c)), True))
            if o != 'ok': r.append((st.set(v, ('bad', c)), False))
            return r
        r = [] 
        good = (o if o == 'closed' else 'ok', 'ok' if c in ('dirty', 'ok') else 'closedok' if c in ('closed', 'closedok') else 'fresh')
        if c != 'bad' and o != 'bad': r.append((st.set(v, good), True))
        if c not in ('ok', 'closedok') and not (c == 'fresh' and o == 'ok'): r.append((st.set(v, ('bad', c) if o == 'unk' and c == 'fresh' else (o, 'bad')), False))
        return r
    def atom(s, e, st):
        k = e[0]
        if k == 'mcall':
            v = s.stream(e[5]); n = e[4].rsplit('::', 1)[-1]
            if v is not None:
                if n == 'is_open': return s.test(st, v, 'open')
                if n == 'good': return s.test(st, v, 'state')
                if n in ('fail', 'bad'): return [(x, not t) for x, t in s.test(st, v, 'state')]
                if n == 'eof': return [(st, False), (st.set(v, (st.get(v, ('unk', 'fresh'))[0], 'end')), True)]
                if 'operator' in n:
                    sts = [st]
                    if reads_or_writes(e[5]): sts = s.ev(e[5], sts)
                    mode = 'open' if 'sdsl::' in e[4] else 'state'
                    r = []
                    for x in sts: r += s.test(x, v, mode)
                    if reads_or_writes(e[5]) and s.vars[v][0] == 'in':
                        r = [(x if t else x.set(v, (x.get(v)[0], 'end')), t) for x, t in r]
                    return r
            r = s.rep_call(e)
            if r: return s.rep_test(st, r)
        if k == 'opcall' and e[3] == '!':
            v = s.stream(e[6][0])
            if v is not None: return [(x, not t) for x, t in s.test(st, v, 'state')]
        if k == 'ref' and stream_type(e[2]): 
            v = s.stream(e)
            if v is not None: return s.test(st, v, 'open' if (e[2].get('tn') or '').startswith('sdsl::') else 'state')
        if k == 'opcall' and e[3] in ('>>', '<<'):
            v = s.stream(e)
            if v is not None:
                r = []
                for x in s.ev(e, [st]): r += s.test(x, v, 'state')
                if s.vars[v][0] == 'in': r = [(x if t else x.set(v, (x.get(v)[0], 'end')), t) for x, t in r]
                return r
        if k == 'ref' and e[3] == 'var':
            b = st.get(('bool', ('v', e[4])))
            if isinstance(b, bool): return [(st, b)]
            if isinstance(b, tuple) and b[0] == 'rep': return [(x, t) for x, t in s.rep_test(st, b[1])]
        if k == 'call':
            r = s.rep_call(e)
            if r: return s.rep_test(st, r)
        return None
    def cond(s, e, st):
        # a reporter call used as a condition: evaluate its operands, then split
        if e is not None and e[0] in ('call', 'mcall') and s.rep_call(e):
            r = s.rep_call(e); out = []
            for x in s.ev(e, [st]): out += s.rep_test(x, r)
            return out
        if e is not None and e[0] == 'mcall' and s.stream(e[5]) is not None or e is not None and e[0] == 'opcall' and e[3] in ('>>', '<<', '!') and s.stream(e[6][0]) is not None:
            a = s.atom(e, st)
            if a is not None: return a
        return Flow.cond(s, e, st)
    def tester(s, e):
        """a bool helper that tests the stream it is given"""
        g = s.F.fn(e[3], s.f.get('tu'))
        if g is None or g['body'] is None or g['ret']['k'] != 'bool': return False
        ps = {p[1] for p in g['params']}
        for x in fn_nodes(g):
            if x[0] == 'mcall' and x[4].rsplit('::', 1)[-1] in ('is_open', 'good', 'fail', 'bad', 'eof', 'gcount', 'operator!', 'operator bool', 'rdstate') or x[0] == 'opcall' and x[3] == '!' or x[0] == 'mcall' and '::operator ' in x[4]:
                return True
        return False
    def rep_test(s, st, r): 
        v = st.get(('rep', r), 'unk')
        out = []
        if v != 'bad': out.append((st.set(('rep', r), 'ok'), True))
        if v != 'ok': out.append((st.set(('rep', r), 'bad'), False))
        return out
    def on_node(s, e, st):
        k = e[0]
        if k in ('call', 'mcall') and s.rep_call(e):
            st = st.set(('rep', s.rep_call(e)), 'unk')
        # operations on a stream
        tgt = None; n = ''
        if k == 'mcall': tgt = s.stream(e[5]); n = e[4].rsplit('::', 1)[-1]
        if k == 'opcall' and e[3] in ('>>', '<<') and e[6]: tgt = s.stream(e[6][0]); n = e[3]
        if tgt is not None:
            o, c = st.get(tgt, ('unk', 'fresh'))
            if n == 'open': return [st.set(tgt, ('unk', 'fresh'))]
            if n == 'close': return [st.set(tgt, (o, 'closed' if s.vars[tgt][0] == 'out' or c == 'dirty' else 'closedok' if c != 'bad' else 'bad'))]
            if n in ('is_open', 'good', 'fail', 'bad', 'eof', 'tellg', 'tellp', 'gcount', 'rdbuf', 'rdstate', 'operator!', 'exceptions', 'imbue', 'precision', 'width') or 'operator ' in n: return [st]
            if n == 'exceptions' and e[6]: return [st.set(tgt, ('maybe', 'maybe'))]
            if c == 'maybe': return [st]
            if n == 'clear': return [st.set(tgt, (o, 'cleared'))]
            return [st.set(tgt, (o, 'dirty'))]
        if k in ('call', 'mcall', 'ctor', 'opcall'):
            ar = e[5] if k == 'call' else e[6] if k in ('mcall', 'opcall') else e[4]
            for a in ar:
                if a is None: continue
                b = base(a) if strip(a) is not None and strip(a)[0] == 'ref' else None
                if b in s.vars and k in ('call', 'mcall') and s.tester(e):
                    st = st.set(b, ('maybe', 'maybe'))
                elif b in s.vars:
                    st = st.set(b, (st.get(b, ('unk', 'fresh'))[0], 'dirty'))
        return [st]

def worker_of(F, f):
    """does f move data through a stream of its own?"""
    vs = set()
    for n in fn_nodes(f):
        if n[0] == 'decl':
            for b in n[2]:
                if stream_type(b[2]): vs.add(('v', b[0]))
    return vs

def moves_data(f, vs):
    for n in fn_nodes(f):
        k = n[0]
        if k == 'mcall' and base(n[5]) in vs and n[4].rsplit('::', 1)[-1] in ('read', 'write', 'get', 'put', 'getline'): return True
        if k == 'opcall' and n[3] in ('>>', '<<') and n[6] and base(n[6][0]) in vs: return True
        if k in ('call', 'mcall', 'ctor'):
            ar = n[5] if k == 'call' else n[6] if k == 'mcall' else n[4]
            for a in ar:
                if a is not None and strip(a) is not None and strip(a)[0] == 'ref' and base(a) in vs: return True
    return False

def check_reporters(rep, F):
    cand = {}
    for u, f in F.functions.items():
        if f['ret']['k'] != 'bool' or f['body'] is None: continue
        vs = worker_of(F, f)
        if vs: cand[u] = (f, moves_data(f, vs))
    reporters = {u for u, (f, m) in cand.items() if m}
    ch = True
    while ch:
        ch = False
        for u, f in F.functions.items():
            if u in reporters or f['ret']['k'] != 'bool' or f['body'] is None or f.get('lambda'): continue
            if f['name'].startswith('operator') : continue
            if any(n[0] in ('call', 'mcall') and n[3] in reporters for n in fn_nodes(f)): reporters.add(u); cand[u] = (f, True); ch = True
    seen = {}
    for u, (f, m) in sorted(cand.items(), key=lambda x: (x[1][0]['file'], x[1][0]['line'], x[0])):
        W = Report11(F, reporters - {u}); o = W.run(f)
        key0 = '%s:%d' % (rel(f['file']), f['line'])
        rep.count('reporting functions')
        if W.over: rep.incomplete.append('%s: too many states' % f['qn']); continue
        for n, st in o.ret:
            if n is None: continue
            rep.count('paths')
            if st.get('ret') is False: rep.ob(); continue
            bad = None
            for v, (kind, name) in W.vars.items():
                x = st.get(v)
                if x is None: continue
                op, c = x
                if op in ('unk', 'bad'): bad = 'the stream %s may not have been opened' % name
                elif op == 'closed' and c == 'fresh': continue
                elif c == 'bad': bad = 'the stream %s has failed' % name
                elif c == 'dirty': bad = 'the state of the stream %s after the last operation has not been tested' % name
                elif c == 'closed': bad = 'the state of the stream %s after closing it has not been tested' % name
                elif c == 'ok' and kind == 'out' : bad = 'the stream %s is closed by its destructor, where a failed write is lost' % name
            for k, v in st.d.items():
                if isinstance(k, tuple) and k[0] == 'rep' and v == 'bad': bad = 'the call of %s at line %d has failed' % k[1]
                if isinstance(k, tuple) and k[0] == 'rep' and v == 'unk' and not s_is_ret(n, k[1]): bad = 'the result of %s at line %d is ignored' % k[1]
            rep.ob(bad is None)
            if bad: rep.violation('%s %s' % (f['qn'], re.sub(r' at line \d+', '', bad)), '%s:%d: %s may return true although %s (return at line %d)' % (rel(f['file']), f['line'], f['qn'], bad, n[1]))
def s_is_ret(n, r):
    for x in walk(n):
        if x[0] in ('call', 'mcall') and (x[4], x[1]) == r: return True
    return False

def run():
    rep = Report('P11')
    rep.rule = 'a function that stores or loads data and returns true has, on this path, seen that the file was opened, that the stream state after the last operation (for output: after closing) is good, and that every operation it delegates to succeeded'
    F = load_facts()
    check_reporters(rep, F)
    check_streams(rep, F)
    return rep.finish()
if __name__ == '__main__': main(run, 'P11')
