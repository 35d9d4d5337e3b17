"""Intermediate files: every file made under a generated or cache name is removed, registered or owned on every normal return."""
import re
from common import *
from typestate import Flow, St, strip, uniq
from facts import children, walk, fn_nodes
from guards import BAD

BUFFER = 'sdsl::int_vector_buffer'; MAPPER = 'sdsl::int_vector_mapper'
OSTREAMS = {'sdsl::osfstream', 'std::basic_ofstream'}
ISTREAMS = {'sdsl::isfstream', 'std::basic_ifstream'}
FSTREAM = 'std::basic_fstream'
STREAMS = OSTREAMS | ISTREAMS | {FSTREAM}
GENERATORS = {'sdsl::tmp_file', 'sdsl::util::id', 'sdsl::util::pid', 'mkstemps', 'mkstemp', 'tmpnam'}
READERS = {'sdsl::load_from_file', 'sdsl::load_vector_from_file', 'sdsl::load_from_checked_file'}
OWED = ('tmp', 'anon', 'cat', 'cache', 'elem')

def tn(t):
    while t is not None and t.get('k') in ('ptr', 'ref', 'rref') and t.get('pt'): t = t['pt']
    return (t or {}).get('tn') or ''
def peel(e):
    while e is not None:
        if e[0] == 'cast': e = e[4]
        elif e[0] in ('defarg', 'definit'): e = e[3]
        elif e[0] == 'ctor' and tn(e[2]) == 'std::basic_string' and e[4] and (len(e[4]) == 1 or all(a is None or a[0] == 'defarg' for a in e[4][1:])) and e[4][0] is not None and e[4][0][0] != 'defarg': e = e[4][0]
        elif e[0] == 'call' and e[4] in ('std::move', 'std::forward') and e[5]: e = e[5][0]
        elif e[0] == 'mcall' and e[4].rsplit('::', 1)[-1] in ('c_str', 'data') and tn(e[5][2]) == 'std::basic_string': e = e[5]
        elif e[0] == 'ctor' and e[5] in ('copy', 'move') and len(e[4]) == 1: e = e[4][0]
        else: return e
    return e
def args_of(e):
    k = e[0]
    a = e[5] if k == 'call' else e[6] if k == 'mcall' else e[4]
    return list(a)
def is_stringy(t): return tn(t) == 'std::basic_string' or t.get('k') == 'ptr' and (t.get('pt') or {}).get('w') == 8
def mode_of(e):
    """'r', 'w' (starts empty), 'rw' or None (not a constant)"""
    if e is None: return None
    names = [x[5].rsplit('::', 1)[-1] for x in walk(e) if x[0] == 'ref' and x[3] == 'glob' and 'ios_base::' in (x[5] or '')]
    if not names: return None
    if any(x[0] == 'ref' and x[3] in ('var', 'param') for x in walk(e)): return None
    if 'out' in names or 'app' in names: return 'rw' if 'in' in names and 'trunc' not in names or 'app' in names else 'w'
    return 'r'
def const_bool(e):
    e = strip(e)
    return str(e[3]) not in ('0', 'false') if e is not None and e[0] == 'int' else None

class Files(Flow):
    def __init__(s, F, eng): Flow.__init__(s, F); s.eng = eng
    def run(s, f, init=None):
        s.viol = {}; s.reads = set(); s.made = 0; s.pid = {p[0]: i for i, p in enumerate(f['params'])}
        return Flow.run(s, f, init)
    def count_keys(s, f):
        """only branches that touch files (or leave the function) need to stay correlated"""
        cnt = {}
        def cond(e):
            e = strip(e)
            if e is None: return
            if e[0] == 'un' and e[3] == '!': return cond(e[4])
            if e[0] == 'bin' and e[3] in ('&&', '||'): cond(e[4]); cond(e[5]); return
            k, _ = s.akey(e)
            if k != BAD: cnt[k] = cnt.get(k, 0) + 1
        for n in fn_nodes(f):
            if n[0] == 'if' and s.eng.touches(n, s): cond(n[2])
        return {k for k, c in cnt.items() if c > 1}
    # -------------------------------------------------------------- names and objects
    def obj(s, e, st):
        e = peel(e)
        if e is None: return None
        if e[0] == 'ref':
            if e[3] in ('var', 'slocal'):
                return st.get(('al', e[4]), ('v', e[4]))
            if e[3] == 'param': return ('p', e[4])
            return None
        if e[0] == 'opcall' and e[3] == '[]' or e[0] == 'mcall' and e[4].rsplit('::', 1)[-1] in ('at', 'back', 'front'):
            b = e[6][0] if e[0] == 'opcall' else e[5]
            b = peel(b)
            if b is not None and b[0] == 'ref' and b[3] == 'var' and tn(b[2]) in ('std::vector', 'std::deque', 'std::array', 'std::list'): return ('elem', b[4])
            return None
        if e[0] == 'mem':
            b = s.obj(e[3], st)
            if b is not None and b[0] == 'elem': return b
            if strip(e[3]) is not None and strip(e[3])[0] == 'this': return ('m', e[4])
            return ('f', b, e[4]) if b is not None else None
        if e[0] in ('opcall', 'un') and e[3] in ('*', '->'): return s.obj(e[6][0] if e[0] == 'opcall' else e[4], st)
        return None
    def name(s, e, st, d=0):
        e = peel(e)
        if e is None: return None
        k = e[0]
        if k == 'str': return ('lit', str(e[3]))
        if k == 'ref':
            if e[3] in ('var', 'slocal'):
                a = st.get(('al', e[4]))
                if a is not None: return a
                return st.get(('nm', e[4]), ('v', e[4]))
            if e[3] == 'param': return st.get(('nm', e[4]), ('p', e[4]))
            if e[3] == 'glob': return ('g', e[4])
            return None
        if k == 'mem': return s.obj(e, st)
        if k == 'opcall' and e[3] == '+':
            p = [s.name(a, st, d) for a in e[6]]
            if s.generated(e): return ('gen', e[1])
            if any(x is None for x in p): return None
            r = []
            for x in p: r += list(x[1]) if x[0] == 'cat' else [x]
            return ('cat', tuple(r))
        if k == 'call':
            if e[4] == 'sdsl::cache_file_name' and len(e[5]) >= 2:
                return ('cache', s.keyterm(e, st), s.obj(e[5][1], st))
            if s.generated(e): return ('gen', e[1])
            return None
        if k == 'mcall':
            if e[4].endswith('::filename'):
                o = s.obj(e[5], st)
                return st.get(('bt', o), ('file of', o)) if o is not None else None
            return None
        if k == 'opcall' and e[3] == '[]': return s.obj(e, st)
        if k == 'cond': return None
        return None
    def keyterm(s, e, st):
        k = s.name(e[5][0], st)
        m = re.search(r'cache_file_name<(.*?)>|register_cache_file<(.*?)>', e[3] or '')
        return (k, (m.group(1) or m.group(2)) if m else '')
    def generated(s, e, d=0):
        for x in walk(e):
            if x[0] == 'call' and (x[4] in GENERATORS or d < 2 and s.eng.generator(x[3])): return True
        return False
    # -------------------------------------------------------------- effects on files
    def create(s, t, st, line, how='created'):
        if t is None: return st
        if t[0] == 'cat' and t[1][0][0] in ('p', 'lit', 'm') and not any(x[0] in ('tmp', 'gen', 'anon') for x in t[1]): return st     # output next to a file of the caller
        if t[0] in OWED or t[0] in ('p', 'pb'):
            s.made += t[0] in OWED
            if t[0] == 'cache': st = st.drop_if(lambda k, v: k == ('del', t[2]))
            return st.set(('live', t), line)
        return st
    def remove(s, t, st, line):
        if t is None: return st
        for k, m in st.d.items():
            if k[0] == 'op' and st.get(('bt', k[1])) == t and m != 'r':
                s.viol[('open', t)] = 'line %d removes a file which is still open for writing' % line
        return st.drop(('live', t))
    def read(s, t, st, line, by=None):
        if t is None: return st
        s.reads.add(t)
        for k, m in st.d.items():
            if k[0] == 'op' and m == 'w' and k[1] != by and st.get(('bt', k[1])) == t:
                s.viol[('early', t)] = 'line %d reads a file whose writer has not been closed' % line
        return st
    def opened(s, o, t, mode, st, line):
        if o is not None and t is not None: st = st.set(('bt', o), t).set(('op', o), mode)
        return st
    def closed(s, o, st): return st.drop(('op', o))
    def unnamed(s, t, line, who): return ('anon', who) if t is not None and t[0] == 'gen' else t
    def opening(s, e, st):
        """(term, mode) of a constructor call of a file object; None: does not open a file"""
        c = tn(e[2]); a = [x for x in e[4]]
        real = [x for x in a if x is not None]
        if not real or real[0][0] == 'defarg' or not is_stringy(peel(real[0])[2] if peel(real[0]) is not None else {}) and s.name(real[0], st) is None: return None
        t = s.unnamed(s.name(real[0], st), e[1], e[1])
        if c == BUFFER: m = mode_of(real[1]) if len(real) > 1 else 'r'
        elif c in ISTREAMS: m = 'r'
        elif c in OSTREAMS: m = 'w' if len(real) < 2 or mode_of(real[1]) in ('w', None) else 'rw'
        elif c == FSTREAM: m = mode_of(real[1]) if len(real) > 1 else 'rw'
        else: return None
        return (t, m)
    def on_ctor(s, e, st):
        c = tn(e[2])
        if c == MAPPER:
            real = [x for x in e[4] if x is not None]
            strs = [x for x in real if is_stringy((peel(x) or [0, 0, {}])[2])]
            if strs and len(real) >= 3 and const_bool(real[2]):
                t = s.name(strs[0], st)
                if t is not None: return [st.drop(('live', t))]
            return [st]
        if c in STREAMS or c == BUFFER:
            if e[5] in ('copy', 'move'): return [s.passed(e, st)]
            o = s.opening(e, st)
            if o is None: return [st]
            t, m = o
            if m in ('w', 'rw') and t is not None and not (m == 'rw' and c == BUFFER): st = s.create(t, st, e[1])
            if m == 'r' or m == 'rw' and c == BUFFER: st = s.read(t, st, e[1])
            if t is None: return [st.drop(('pend',))]
            return [st.set(('pend',), (t, m or 'r'))]
        return [s.call_effects(e, e[3], e[4], st)]
    def bind(s, o, st):
        p = st.get(('pend',))
        if p is None: return st
        st = st.drop(('pend',))
        if o is None or o[0] in ('m', 'f'): return st.drop(('live', p[0])) if p[0][0] == 'anon' else st
        if o[0] == 'elem':
            if ('live', p[0]) in st.d and p[0][0] in ('anon', 'tmp', 'cat'): l = st.get(('live', p[0])); st = st.drop(('live', p[0])).set(('live', o), l)
            return st.set(('bt', o), o).set(('op', o), p[1])
        return s.opened(o, p[0], p[1], st, 0)
    def passed(s, e, st):
        """a buffer object moved or copied elsewhere is no longer followed"""
        for a in e[4]:
            o = s.obj(a, st)
            if o is not None and ('bt', o) in st.d:
                st = st.drop(('live', st.get(('bt', o)))).drop(('op', o)).drop(('bt', o))
        return st
    # -------------------------------------------------------------- hooks
    def on_decl(s, b, st):
        t = b[2]; i = b[3]; v = ('v', b[0])
        st = st.drop_if(lambda k, x: len(k) > 1 and k[1] in (v, b[0]) and k[0] in ('bt', 'op', 'nm', 'al', 'emp', 'cfg'))
        c = tn(t)
        if c in STREAMS or c == BUFFER:
            x = strip(i) if i is not None else None
            if st.get(('pend',)) is not None: return [s.bind(v, st)]
            o = s.obj(i, st) if x is not None and x[0] in ('ref', 'opcall', 'mem', 'mcall') else None
            if o is not None: return [st.set(('al', b[0]), o)]
            return [st]
        if i is None: return [st]
        if is_stringy(t):
            n = s.name(i, st)
            if n is not None and n[0] == 'gen' or n is None and s.generated(i): n = ('tmp', b[0], b[1])
            if n is None or n == v: return [st]
            return [st.set(('nm', b[0]), n)]
        if c == 'sdsl::cache_config':
            x = peel(i)
            if x is not None and x[0] == 'ctor' and x[5] not in ('copy', 'move'):
                fl = True
                if x[4] and x[4][0] is not None: fl = const_bool(x[4][0])
                return [st.set(('cfg', v), (fl is True, False))]
            return [st]
        x = peel(i)
        if x is not None and x[0] == 'ctor' and not [a for a in x[4] if a is not None and a[0] != 'defarg']: return [st.set(('emp', v), True)]
        if x is not None and x[0] in ('opcall', 'mcall', 'ref', 'mem') and t.get('k') in ('rec', 'ref', 'none', 'ptr'):
            o = s.obj(i, st)
            if o is not None and o[0] == 'elem': return [st.set(('al', b[0]), o)]
        return [st]
    def on_init(s, i, st): return [s.bind(('m', '?'), st)]
    def on_assign(s, lhs, rhs, st, node=None):
        l = peel(lhs); o = s.obj(lhs, st)
        t = lhs[2]; c = tn(t)
        if o is not None: st = st.drop(('emp', o))
        if c == BUFFER or c in STREAMS:
            if ('pend',) in st.d: return [s.bind(o, st)]
            return [st]
        if l is not None and l[0] == 'ref' and l[3] in ('var', 'param') and is_stringy(t):
            n = s.name(rhs, st)
            if n is not None and n[0] == 'gen': n = ('tmp', l[4], l[1])
            return [st.set(('nm', l[4]), n if n is not None else ('?', l[4], l[1]))]
        if l is not None and l[0] == 'mem' and is_stringy(t):      # kept by an object
            n = s.name(rhs, st)
            if n is not None and n[0] in ('tmp', 'cat'): return [st.drop(('live', n))]
            return [st]
        if l is not None and l[0] == 'opcall' and l[3] == '[]' and is_stringy(t):
            n = s.name(rhs, st); b = strip(l[6][0])
            if n is not None: st = st.drop(('live', n))
            return [st]
        # transfer of a file map
        for x in walk(rhs):
            if x[0] == 'mem' and x[4] == 'file_map' or x[0] == 'ref' and tn(x[2]) == 'sdsl::cache_config':
                v = s.obj(x[3] if x[0] == 'mem' else x, st)
                if v is not None and ('cfg', v) in st.d: st = st.set(('cfg', v), (st.get(('cfg', v))[0], False))
        return [st]
    def on_scope_end(s, b, st):
        v = ('v', b[0])
        if ('op', v) in st.d: st = s.closed(v, st)
        if tn(b[2]) in ('std::vector', 'std::deque', 'std::list'): st = st.drop(('op', ('elem', b[0]))).drop(('bt', ('elem', b[0])))
        st = st.drop(('bt', v)).drop(('nm', b[0])).drop(('al', b[0])).drop(('emp', v))
        c = st.get(('cfg', v))
        if c is not None and c[1]:
            s.viol[('cfg', b[1])] = 'the files registered in the local configuration %s (line %d) are neither deleted nor passed on' % (b[1], s.cfgline)
        return [st]
    cfgline = 0
    def on_ret(s, n, st):
        st = Flow.on_ret(s, n, st)
        if n[2] is not None:
            x = peel(n[2])
            t = s.name(x, st)
            if t is not None: st = st.drop(('live', t))
            o = s.obj(x, st)
            if o is not None and ('bt', o) in st.d: st = st.drop(('live', st.get(('bt', o))))
        p = st.get(('pend',))
        if p is not None and n[2] is not None and tn(n[2][2]) == BUFFER: st = st.drop(('live', p[0])).drop(('pend',))
        return st
    def atom(s, e, st):
        k = e[0]
        if k == 'mem' and e[4] == 'delete_files':
            o = s.obj(e[3], st)
            v = st.get(('df', o))
            if v is not None: return [(st, v)]
            return [(st.set(('df', o), True), True), (st.set(('df', o), False), False)]
        # a container that is still default-constructed is empty
        if k == 'mcall' and e[4].rsplit('::', 1)[-1] in ('empty', 'size'):
            o = s.obj(e[5], st)
            if o is not None and ('emp', o) in st.d: return [(st, e[4].endswith('empty'))]
        if k == 'bin' and e[3] in ('>', '!=', '==', '>=', '<', '<='):
            a, b = strip(e[4]), strip(e[5]); op = e[3]
            if a is not None and a[0] == 'int': a, b = b, a; op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
            if a is not None and b is not None and a[0] == 'mcall' and a[4].endswith('::size') and b[0] == 'int':
                o = s.obj(a[5], st)
                if o is not None and ('emp', o) in st.d:
                    z = int(str(b[3]))
                    return [(st, {'>': 0 > z, '!=': 0 != z, '==': 0 == z, '>=': 0 >= z, '<': 0 < z, '<=': 0 <= z}[op])]
        # a stream that could not be opened made no file
        o = None
        if k == 'opcall' and e[3] == '!': o = s.obj(e[6][0], st); neg = True
        elif k == 'mcall' and (e[4].rsplit('::', 1)[-1] in ('is_open', 'good') or '::operator bool' in e[4] or '::operator void' in e[4]): o = s.obj(e[5], st); neg = False
        elif k == 'mcall' and e[4].rsplit('::', 1)[-1] == 'fail': o = s.obj(e[5], st); neg = True
        if o is not None and ('bt', o) in st.d:
            t = st.get(('bt', o))
            if t is not None and t[0] in ('tmp', 'p', 'cache', 'cat'): return [(st, not neg), (st.drop(('live', t)), neg)]
        return None
    def cond(s, e, st):
        # a writer that reports failure made no file
        if e is not None and e[0] == 'mcall' or e is not None and e[0] == 'opcall' and e[3] == '!':
            a = s.atom(e, st)
            if a is not None: return a
        if e is not None and e[0] == 'call' and e[2].get('k') == 'bool':
            out = []
            for x in s.ev(e, [st]):
                out.append((x, True)); y = x
                for k in x.d:
                    if k[0] == 'live' and k not in st.d: y = y.drop(k)
                out.append((y, False))
            return uniq(out)
        return Flow.cond(s, e, st)
    def value_split(s, e):
        return any(x[0] == 'call' and x[2].get('k') == 'bool' and x[4] in ('sdsl::store_to_file',) for x in walk(e))
    def handed(s, e, st):
        """the file map of a local configuration is used elsewhere"""
        if not any(k[0] == 'cfg' for k in st.d): return st
        for x in walk(e):
            if x[0] == 'mem' and x[4] == 'file_map':
                v = s.obj(x[3], st)
                if v is not None and ('cfg', v) in st.d: st = st.set(('cfg', v), (st.get(('cfg', v))[0], False))
        return st
    def on_node(s, e, st):
        k = e[0]
        if k in ('call', 'mcall', 'opcall') and not (k == 'call' and e[4] in ('sdsl::cache_file_exists', 'sdsl::cache_file_name')): st = s.handed(e, st)
        if k == 'ctor': return s.on_ctor(e, st)
        if k == 'mcall':
            o = s.obj(e[5], st); n = e[4].rsplit('::', 1)[-1]; c = tn(e[5][2]); a = e[6]
            if o is not None and not n.startswith('operator') and n not in ('size', 'empty', 'width', 'begin', 'end', 'data', 'capacity'): st = st.drop(('emp', o))
            if c == BUFFER or c in STREAMS:
                if n == 'close' and o is not None:
                    st = s.closed(o, st)
                    if c == BUFFER and a and a[0] is not None and const_bool(a[0]) is True:
                        t = st.get(('bt', o)) or (('pb', o[1]) if o[0] == 'p' else o if o[0] == 'elem' else None)
                        st = s.remove(t, st, e[1])
                    return [st]
                if n == 'open' and o is not None and a and a[0] is not None:
                    t = s.unnamed(s.name(a[0], st), e[1], e[1])
                    if t is None: return [st]
                    m = mode_of(a[1]) if len(a) > 1 and a[1] is not None and a[1][0] != 'defarg' else ('w' if c in OSTREAMS else 'r')
                    if c in ISTREAMS: m = 'r'
                    if c in OSTREAMS and m != 'rw': m = 'w'
                    if m in ('w', 'rw'): st = s.create(t, st, e[1])
                    if m == 'r': st = s.read(t, st, e[1])
                    return [s.opened(o, t, m or 'r', st, e[1])]
                if n == 'swap' and a:
                    p = s.obj(a[0], st); r = st
                    for x, y in ((o, p), (p, o)):
                        for kk in ('bt', 'op'):
                            v = st.get((kk, y)) if y is not None else None
                            if x is None:
                                if kk == 'bt' and v is not None: r = r.drop(('live', v))
                                continue
                            r = r.set((kk, x), v) if v is not None else r.drop((kk, x))
                    return [r]
                return [st]
            if n in ('emplace_back', 'push_back', 'emplace', 'insert', 'push') and c.startswith('std::'):
                b = peel(e[5])
                to = ('elem', b[4]) if b is not None and b[0] == 'ref' and b[3] == 'var' else None
                for x in a:
                    if x is None: continue
                    for y in walk(x):
                        if y[0] in ('ref', 'call', 'mem') and is_stringy(y[2]):
                            t = s.name(y, st)
                            if t is not None and ('live', t) in st.d and t[0] in ('tmp', 'cat', 'anon'):
                                l = st.get(('live', t)); st = st.drop(('live', t))
                                if to: st = st.set(('live', to), l)
                if ('pend',) in st.d and to: st = s.bind(to, st)
                return [st.drop(('pend',))]
            if n == 'clear' and strip(e[5]) is not None and strip(e[5])[0] == 'mem' and strip(e[5])[4] == 'file_map': return [st]
            return [s.call_effects(e, e[3], e[6], st)]
        if k == 'call':
            n = e[4]; a = e[5]
            if n in ('sdsl::remove', 'std::remove', 'sdsl::ram_fs::remove') and len(a) == 1:
                return [s.remove(s.name(a[0], st), st, e[1])]
            if n in ('sdsl::rename', 'std::rename') and len(a) == 2:
                t, u = s.name(a[0], st), s.name(a[1], st)
                st = s.remove(t, st, e[1])
                return [s.create(u, st, e[1])]
            if n == 'sdsl::store_to_file' and len(a) >= 2:
                return [s.create(s.unnamed(s.name(a[1], st), e[1], e[1]), st, e[1])]
            if n == 'sdsl::register_cache_file' and len(a) >= 2:
                kt = s.keyterm(e, st); o = s.obj(a[1], st)
                for x in list(st.d):
                    if x[0] == 'live' and x[1][0] == 'cache' and x[1][2] == o and s.maybe_same(x[1][1], kt): st = st.drop(x)
                return [s.registers(o, st, e[1])]
            if n == 'sdsl::store_to_cache' and len(a) >= 3:
                return [s.registers(s.obj(a[2], st), st, e[1])]
            if n == 'sdsl::util::delete_all_files' and a and peel(a[0]) is not None:
                x = peel(a[0])
                o = s.obj(x[3], st) if x is not None and x[0] == 'mem' else None
                if o is not None:
                    st = st.set(('del', o), True)
                    st = st.drop_if(lambda k, v: k[0] == 'live' and k[1][0] == 'cache' and False)
                    if ('cfg', o) in st.d: st = st.set(('cfg', o), (st.get(('cfg', o))[0], False))
                return [st]
            if n in ('sdsl::cache_file_name', 'sdsl::tmp_file', 'sdsl::cache_file_exists'): return [st]
            if n in READERS and len(a) >= 2: st = s.read(s.name(a[1], st), st, e[1])
            if n == 'std::swap' or n.endswith('::clear') or n.endswith('::swap'):
                for x in a:
                    o = s.obj(x, st)
                    if o is not None: st = st.drop(('emp', o))
            return [s.call_effects(e, e[3], a, st)]
        return [st]
    def maybe_same(s, a, b):
        if a == b: return True
        ka, kb = a[0], b[0]
        if ka is None or kb is None: return True
        if ka[0] in ('g', 'lit') and kb[0] in ('g', 'lit') : return False
        return ka[0] not in ('g', 'lit', 'tmp') or kb[0] not in ('g', 'lit', 'tmp')
    def registers(s, o, st, line):
        if o is None: return st
        st = st.set(('reg', o), True).drop(('del', o))
        if ('cfg', o) in st.d: s.cfgline = line; st = st.set(('cfg', o), (st.get(('cfg', o))[0], True))
        return st
    def call_effects(s, e, usr, args, st):
        # non-const uses end the knowledge that a container is empty
        for x in args:
            if x is None: continue
            y = peel(x)
            if y is not None and y[0] == 'ref' and not y[2].get('c'):
                o = s.obj(y, st)
                if o is not None: st = st.drop(('emp', o))
        sm = s.eng.summary(usr, s.f.get('tu'))
        if sm is None: return st
        for i, x in enumerate(args):
            if x is None: continue
            if i in sm['read']: st = s.read(s.name(x, st), st, e[1])
            if i in sm['rm']:
                t = s.name(x, st); st = s.remove(t, st, e[1])
            if i in sm['rmbuf']:
                o = s.obj(x, st)
                if o is not None:
                    st = s.closed(o, st)
                    st = s.remove(st.get(('bt', o)) or (('pb', o[1]) if o[0] == 'p' else None), st, e[1])
            if i in sm['mk']: st = s.create(s.unnamed(s.name(x, st), e[1], e[1]), st, e[1])
            if i in sm['del']:
                o = s.obj(x, st)
                if o is not None and i not in sm['reg']:
                    st = st.set(('del', o), True)
                    if ('cfg', o) in st.d: st = st.set(('cfg', o), (st.get(('cfg', o))[0], False))
            if i in sm['reg']:
                o = s.obj(x, st)
                if i in sm['del'] and o is not None:
                    st = st.set(('reg', o), True).set(('del', o), True)
                    c = st.get(('cfg', o))
                    if c is not None: s.cfgline = e[1]; st = st.set(('cfg', o), (c[0], not c[0]))
                else: st = s.registers(o, st, e[1])
        return st
    def stm(s, n, sts):
        if n is None or n[0] not in ('for', 'while', 'rfor') or not sts: return Flow.stm(s, n, sts)
        if n[0] == 'rfor' and n[2] is not None:
            r = peel(n[3]) if n[3] is not None else None
            sts = uniq([s.handed(n[3], st) for st in sts]) if n[3] is not None else sts
            if r is not None and r[0] == 'ref' and r[3] == 'var':
                sts = uniq([st.set(('al', n[2][0]), ('elem', r[4])) for st in sts])
        o = Flow.stm(s, n, sts)
        live = {k for st in o.norm for k in st.d if k[0] == 'live' and k[1][0] == 'elem'}
        if live:
            # what one round always removes is removed by the loop (it runs once per element)
            body = n[{'for': 5, 'while': 3, 'rfor': 4}[n[0]]]
            keep = (dict(s.viol), set(s.reads), s.made)
            base = list(sts)
            if n[0] == 'for': base = Flow.stm(s, n[2], base).norm
            base = [st.set(k, st.get(k, n[1])) for st in base for k in live][:20]
            r = Flow.stm(s, body, uniq(base))
            s.viol, s.reads, s.made = keep[0], keep[1], keep[2]
            gone = {k for k in live if r.norm + r.cont and all(k not in x.d for x in r.norm + r.cont)}
            if gone: o.norm = uniq([st.drop_if(lambda k, v: k in gone) for st in o.norm])
        return o

class Engine:
    def __init__(s, F, rep):
        s.F = F; s.rep = rep; s.memo = {}; s.work = set(); s.genm = {}
        s.relevant()
    def generator(s, usr):
        if usr in s.genm: return s.genm[usr]
        s.genm[usr] = False
        f = s.F.functions.get(usr)
        r = False
        if f is not None and f['body'] is not None and tn(f['ret']) == 'std::basic_string' and f['qn'] != 'sdsl::cache_file_name':
            r = any(x[0] == 'call' and (x[4] in GENERATORS or s.generator(x[3])) for x in fn_nodes(f))
        s.genm[usr] = r
        return r
    def touches(s, n, w):
        for x in walk(n):
            if x[0] == 'ret': return True
            if x[0] == 'call' and (x[4] in s.DIRECT or x[3] in s.rel): return True
            if x[0] == 'mcall' and (x[4].rsplit('::', 1)[-1] in ('close', 'open') or x[3] in s.rel): return True
            if x[0] == 'ctor' and (tn(x[2]) in STREAMS or tn(x[2]) == BUFFER or x[3] in s.rel): return True
        return False
    DIRECT = {'sdsl::remove', 'std::remove', 'sdsl::ram_fs::remove', 'sdsl::rename', 'std::rename', 'sdsl::store_to_file', 'sdsl::register_cache_file', 'sdsl::store_to_cache', 'sdsl::util::delete_all_files'} | READERS
    def relevant(s):
        F = s.F; s.calls = {}; s.rel = set()
        for u, f in F.functions.items():
            if f['body'] is None and not f.get('inits'): continue
            cs = set(); hit = False
            for n in fn_nodes(f):
                if n[0] == 'call':
                    if n[4] in s.DIRECT: hit = True
                    elif n[3]: cs.add(n[3])
                elif n[0] == 'mcall':
                    if n[3]: cs.add(n[3])
                    if n[4].rsplit('::', 1)[-1] in ('close', 'open') and tn(n[5][2]) in STREAMS | {BUFFER}: hit = True
                elif n[0] == 'ctor':
                    if tn(n[2]) in STREAMS or tn(n[2]) == BUFFER: hit = hit or bool([a for a in n[4] if a is not None and a[0] != 'defarg']) and n[5] not in ('copy', 'move')
                    elif n[3]: cs.add(n[3])
            s.calls[u] = cs
            if hit: s.rel.add(u)
        s.direct = set(s.rel)
        ok = lambda f: any(is_stringy(p[2]) or tn(p[2]) in (BUFFER, 'sdsl::cache_config') for p in f['params'])
        ch = True
        while ch:
            ch = False
            for u, cs in s.calls.items():
                if u in s.rel: continue
                if any(c in s.rel and ok(F.functions[c]) for c in cs if c in F.functions): s.rel.add(u); ch = True
    def summary(s, usr, tu=None):
        if usr not in s.rel: return None
        if usr in s.memo: return s.memo[usr]
        f = s.F.functions.get(usr)
        empty = {'mk': set(), 'rm': set(), 'rmbuf': set(), 'reg': set(), 'read': set(), 'del': set()}
        if f is None or not any(is_stringy(p[2]) or tn(p[2]) in (BUFFER, 'sdsl::cache_config') for p in f['params']) or f['qn'].startswith('sdsl::' + 'ram_fs'):
            s.memo[usr] = None; return None
        if tn_cls(s.F, f) in (BUFFER, MAPPER) or (f.get('cls') and tn_cls(s.F, f) in STREAMS): s.memo[usr] = None; return None
        s.memo[usr] = empty
        for _ in range(2):
            r = s.compute(f)
            if r == s.memo[usr]: break
            s.memo[usr] = r
            if usr not in s.calls.get(usr, ()): break
        return s.memo[usr]
    def compute(s, f):
        W = Files(s.F, s); o = W.run(f)
        r = {'mk': set(), 'rm': set(), 'rmbuf': set(), 'reg': set(), 'read': set(), 'del': set()}
        rets = [st for _, st in o.ret if st.get('ret') is not False]
        ps = f['params']
        reads = W.reads
        for i, p in enumerate(ps):
            t = ('p', p[0])
            if any(('live', t) in st.d for st in rets): r['mk'].add(i)
            if any(('reg', t) in st.d for st in rets): r['reg'].add(i)
            if t in reads: r['read'].add(i)
            if rets and tn(p[2]) == 'sdsl::cache_config' and not W.over and all(('del', t) in st.d or st.get(('df', t)) is False for st in rets): r['del'].add(i)
        if W.over: return r
        init = St({('live', ('p', p[0])): 0 for p in ps} | {('live', ('pb', p[0])): 0 for p in ps})
        W = Files(s.F, s); o = W.run(f, init)
        rets = [st for _, st in o.ret if st.get('ret') is not False]
        if rets and not W.over:
            for i, p in enumerate(ps):
                if is_stringy(p[2]) and all(('live', ('p', p[0])) not in st.d for st in rets): r['rm'].add(i)
                if tn(p[2]) == BUFFER and all(('live', ('pb', p[0])) not in st.d for st in rets): r['rmbuf'].add(i)
        return r

def tn_cls(F, f):
    c = F.records.get(f.get('cls') or '')
    return (c['name'].split('<')[0] if c else '')

def say(t):
    k = t[0]
    if k == 'tmp': return 'named by %s' % t[2]
    if k == 'anon': return 'with the name generated in line %s' % t[1]
    if k == 'cache': return 'with the cache key %s' % (keysay(t[1][0]))
    if k == 'elem': return 'kept in a container of the function'
    if k == 'cat': return 'with the name derived by appending ' + ' '.join(repr(x[1]) for x in t[1] if x[0] == 'lit')
    return str(t)
def keysay(k):
    if k is None: return '?'
    if k[0] == 'g': return str(k[1]).rsplit('@', 1)[-1]
    return str(k[-1])

def check_functions(rep, F, eng):
    seen = set()
    for u in sorted(eng.rel):
        f = F.functions[u]
        if f['body'] is None and not f.get('inits'): continue
        c = tn_cls(F, f)
        if c in (BUFFER, MAPPER) or c in STREAMS or c.startswith('sdsl::ram_'): continue
        W = Files(F, eng); o = W.run(f)
        rep.count('functions')
        if W.over: rep.incomplete.append('%s: too many states' % f['qn']); continue
        loc = '%s:%d' % (rel(f['file']), f['line'])
        if W.made: seen.add((f['file'], f['line'])); rep.count('creations', W.made)
        for k, m in W.viol.items():
            rep.violation('%s %s %s' % (f['qn'], k[0], say(k[1]) if isinstance(k[1], tuple) else k[1]), '%s: %s: %s (file %s)' % (loc, f['qn'], m, say(k[1]) if isinstance(k[1], tuple) else k[1]))
        cfgs = [('p', p[0]) for p in f['params'] if tn(p[2]) == 'sdsl::cache_config' and not p[2].get('c')]
        tests = any(n[0] == 'mem' and n[4] == 'delete_files' for n in fn_nodes(f)) or f['qn'] == 'sdsl::construct'
        for n, st in o.ret:
            rep.count('paths')
            bad = [k[1] for k in st.d if k[0] == 'live' and k[1][0] in OWED]
            rep.ob(not bad)
            for t in bad:
                rep.violation('%s leaves the file %s' % (f['qn'], re.sub(r' in line \d+', '', say(t))),
                              '%s: %s returns (%s) while the file %s, made at line %s, is neither removed nor registered' % (loc, f['qn'], 'line %d' % n[1] if n is not None else 'end of the body', say(t), st.get(('live', t))))
            if tests:
                for p in cfgs:
                    if ('reg', p) in st.d and st.get(('df', p)) is not False:
                        ok = ('del', p) in st.d
                        rep.ob(ok)
                        if not ok: rep.violation('%s keeps the files of the configuration' % f['qn'], '%s: %s returns (%s) without deleting the registered files although delete_files may be set' % (loc, f['qn'], 'line %d' % n[1] if n is not None else 'end of the body'))
    rep.count('functions that make intermediate files', len(seen))

class Closing(Flow):
    """a member function that ends the life of a file: flag -> removed"""
    def on_node(s, e, st):
        if e[0] == 'mcall' and e[4].rsplit('::', 1)[-1] == 'close' or e[0] == 'call' and e[4].rsplit('::', 1)[-1].startswith('close_file'):
            return [st.set('closed', e[1]).drop('removed')]
        if e[0] == 'call' and e[4] in ('sdsl::remove', 'std::remove') and len(e[5]) == 1:
            x = peel(e[5][0])
            if x is not None and x[0] == 'mem' and strip(x[3]) is not None and strip(x[3])[0] == 'this': return [st.set('removed', e[1])]
        return [st]
    def flag(s, e):
        x = strip(e)
        if x is None or x[2].get('k') != 'bool': return None
        n = x[5] if x[0] == 'ref' and x[3] == 'param' else x[4] if x[0] == 'mem' else None
        return n if n and re.search('delete|remove', n) else None
    def atom(s, e, st):
        n = s.flag(e)
        if n is None: return None
        v = st.get(('flag',))
        if v is not None: return [(st, v)]
        return [(st.set(('flag',), True), True), (st.set(('flag',), False), False)]

def check_owners(rep, F):
    done = set()
    for u, f in sorted(F.functions.items(), key=lambda x: (x[1]['file'], x[1]['line'], x[0])):
        if f['body'] is None or not f.get('cls') or (f['file'], f['line']) in done: continue
        mine = [n for n in fn_nodes(f) if n[0] == 'call' and n[4] in ('sdsl::remove', 'std::remove') and len(n[5]) == 1]
        dtor = '::~' in f['qn']
        R = F.records.get(f['cls'])
        has_flag = [x['n'] if 'n' in x else x.get('name') for x in (R or {}).get('fields', []) if x['t'].get('k') == 'bool' and re.search('delete|remove', x.get('n') or x.get('name') or '')]
        own = owns(F, f['cls'])
        pflag = [p[1] for p in f['params'] if p[2].get('k') == 'bool' and re.search('delete|remove', p[1] or '')]
        if not (dtor and (has_flag or own) or pflag and tn_cls(F, f) in (BUFFER, MAPPER)): continue
        done.add((f['file'], f['line']))
        W = Closing(F); o = W.run(f)
        if W.over: rep.incomplete.append('%s: too many states' % f['qn']); continue
        rep.count('owners of a file')
        for n, st in o.ret:
            c, r, fl = st.get('closed'), st.get('removed'), st.get(('flag',))
            if c is None and r is None and not own: rep.ob(); continue
            want = True if own and not (has_flag or pflag) else fl
            ok = (want is None and r is None and not (has_flag or pflag)) or (want is not None and bool(r) == want)
            if has_flag or pflag: ok = fl is not None and bool(r) == fl
            rep.ob(ok)
            if not ok:
                rep.violation('%s does not keep its promise to remove the file' % f['qn'],
                              '%s:%d: %s %s (path that ends at %s)' % (rel(f['file']), f['line'], f['qn'], 'closes the file without removing it although it owns it' if not r else 'removes a file which is not to be removed', 'line %d' % n[1] if n is not None else 'the end of the body'))

def owns(F, cls):
    """the class makes a file under a name it generates itself and keeps in a member"""
    gen = set(); opened = False
    for f in F.methods_of.get(cls, []):
        if f['body'] is None: continue
        for n in fn_nodes(f):
            if n[0] == 'opcall' and n[3] == '=' and n[6]:
                l = peel(n[6][0])
                if l is not None and l[0] == 'mem' and is_stringy(l[2]) and any(x[0] == 'call' and x[4] in GENERATORS for x in walk(n[6][1])): gen.add(l[4])
    for f in F.methods_of.get(cls, []):
        if f['body'] is None: continue
        for n in fn_nodes(f):
            if n[0] == 'mcall' and n[4].rsplit('::', 1)[-1] == 'open' and n[6]:
                a = peel(n[6][0])
                if a is not None and a[0] == 'mem' and a[4] in gen: opened = True
    return opened

class Deleting(Flow):
    def on_node(s, e, st):
        if e[0] == 'call' and e[4] in ('sdsl::remove', 'std::remove') and len(e[5]) == 1:
            if any(x[0] == 'mem' and x[4] == 'second' or x[0] == 'ref' and x[3] == 'var' for x in walk(e[5][0])): return [st.set('rm', True)]
        if e[0] == 'mcall' and e[4].rsplit('::', 1)[-1] in ('clear', 'erase') : return [st.set('cleared', True)]
        return [st]
    def stm(s, n, sts):
        if n is not None and n[0] in ('for', 'while', 'rfor'):
            body = n[{'for': 5, 'while': 3, 'rfor': 4}[n[0]]]
            r = Flow.stm(s, body, [St()])
            if any(st.get('rm') for st in r.norm + r.cont):
                s.loops.append((n[1], all(st.get('rm') for st in r.norm + r.cont) and not r.brk and not r.ret, any(st.get('cleared') for st in sts)))
        return Flow.stm(s, n, sts)

def check_delete_all(rep, F):
    for u, f in F.functions.items():
        if f['qn'] != 'sdsl::util::delete_all_files' or f['body'] is None: continue
        W = Deleting(F); W.loops = []; W.run(f)
        rep.count('deletions of all registered files')
        if not W.loops: rep.incomplete.append('delete_all_files: no loop over the map'); continue
        for l, ok, cl in W.loops:
            ok = ok and not cl
            rep.ob(ok)
            if not ok: rep.violation('delete_all_files skips files', '%s:%d: delete_all_files does not remove every file of the map' % (rel(f['file']), l))

def run():
    rep = Report('P10')
    rep.rule = 'on every normal return each file the function has made under a generated name is removed, each file made under a cache name is removed or registered, nothing is removed or read back while its writer is open; objects that own a file remove it exactly when told to; construct deletes the registered files when delete_files is set'
    F = load_facts()
    eng = Engine(F, rep)
    check_functions(rep, F, eng)
    check_owners(rep, F)
    check_delete_all(rep, F)
    rep.floor('functions that make intermediate files', 5)
    return rep.finish()
if __name__ == '__main__': main(run, 'P10')
