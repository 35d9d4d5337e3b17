"""Copy / move / assignment / swap transfer every data member (transfer) and re-bind internal pointers (binding)."""
import os, collections
from common import *
from interp import *
import life
from life import LifeInterp, BindInterp, find_op, run_op, OPS
from facts import fn_nodes, walk

def is_proxy(F, R):
    """element-reference proxies: operator= writes through to the referenced element by design"""
    ms = F.methods_of.get(R['id'], [])
    conv = any(f['kind'] == 'conv' for f in ms) or any(m['n'].startswith('operator ') and m['n'] != 'operator bool' and not m['n'].startswith('operator new') for m in R['methods'])
    ser = any(m['n'] == 'serialize' for m in R['methods'])
    return conv and not ser and any(m['n'] == 'operator=' and m.get('sp') is None for m in R['methods'])

def owned_fields(F, R):
    """raw pointer members whose pointee the class itself allocates or releases"""
    if '_own' in R: return R['_own']
    own = set()
    for f in F.methods_of.get(R['id'], []):
        for n in fn_nodes(f):
            if n[0] == 'del':
                for m in walk(n[4]):
                    if m[0] == 'mem' and m[6] == R['id']: own.add(m[4])
            elif n[0] == 'asg' and n[3] == '=' and n[4][0] == 'mem' and n[4][6] == R['id']:
                if any(x[0] == 'new' for x in walk(n[5])): own.add(n[4][4])
            elif n[0] == 'call' and n[4] in ('free', 'realloc', 'std::free') :
                for m in walk(n):
                    if m[0] == 'mem' and m[6] == R['id']: own.add(m[4])
            elif n[0] == 'call' and n[4].startswith('sdsl::memory_manager::'):
                own.add('m_data')
    own &= {f['n'] for f in R['fields'] if f['t']['k'] == 'ptr'}
    R['_own'] = own
    return own

def const_bool(n):
    """value of a condition that is fixed by the instantiation"""
    while n is not None and n[0] in ('cast', 'defarg', 'definit'): n = n[4] if n[0] == 'cast' else n[3]
    if n is None: return None
    if n[0] == 'int': return int(n[3]) != 0
    if n[0] == 'ref' and len(n) > 6 and isinstance(n[6], str):
        try: return int(n[6]) != 0
        except ValueError: return None
    if n[0] == 'un' and n[3] == '!':
        v = const_bool(n[4]); return None if v is None else not v
    if n[0] == 'bin' and n[3] in ('&&', '||'):
        a, b = const_bool(n[4]), const_bool(n[5])
        if n[3] == '&&': return False if a is False or b is False else True if a and b else None
        return True if a is True or b is True else False if a is False and b is False else None
    if n[0] == 'bin' and n[3] in ('==', '!=', '<', '>', '<=', '>='):
        a, b = const_int(n[4]), const_int(n[5])
        if a is None or b is None: return None
        return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[n[3]]
    return None
def const_int(n):
    while n is not None and n[0] in ('cast', 'defarg', 'definit'): n = n[4] if n[0] == 'cast' else n[3]
    if n is None: return None
    if n[0] == 'int': return int(n[3])
    if n[0] == 'ref' and len(n) > 6 and isinstance(n[6], str):
        try: return int(n[6])
        except ValueError: return None
    return None

def live_nodes(f):
    """nodes of f without the branches its template arguments switch off"""
    from facts import children
    st = [i['e'] for i in f.get('inits') or [] if i['e'] is not None]
    if f['body'] is not None: st.append(f['body'])
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        if x[0] == 'if':
            b = const_bool(x[2])
            if b is True: st.append(x[3]); continue
            if b is False: st.append(x[4]); continue
        elif x[0] == 'cond':
            b = const_bool(x[3])
            if b is True: st.append(x[4]); continue
            if b is False: st.append(x[5]); continue
        st.extend(children(x))

def modifying(F):
    """ids of the non-const operations a user can call, and of the private helpers they call"""
    def cand(f): return not f.get('const') and f['kind'] not in ('ctor', 'dtor') and f['name'] not in ('operator=', 'swap', 'copy', 'load', 'move', 'set_vector', 'set_supported', 'init', 'close')
    live = set(); todo = [f for f in F.functions.values() if f.get('cls') and cand(f) and not f.get('acc')]
    while todo:
        f = todo.pop()
        if f['id'] in live: continue
        live.add(f['id'])
        for n in fn_nodes(f):
            if n[0] not in ('mcall', 'call'): continue
            for x in n:
                if isinstance(x, str) and x in F.functions:
                    g = F.functions[x]
                    if g.get('cls') == f['cls'] and cand(g): todo.append(g)
    return live

def observed_fields(F, R):
    """members some const member function (or any other class) reads: the observable part of the state"""
    if not hasattr(F, '_obs'):
        F._obs = {}
        live = modifying(F)
        for f in F.functions.values():
            # modifying operations observe what they read; constructors, destructors and the operations under test do not count
            mod = f['id'] in live
            tgt = set()
            if mod:
                for n in live_nodes(f):
                    if n[0] == 'asg' and n[3] == '=' and n[4][0] == 'mem': tgt.add(id(n[4]))
            for n in live_nodes(f):
                if n[0] == 'mem':
                    if f.get('cls') == n[6] and ((not f.get('const') and not mod) or f['kind'] in ('ctor', 'dtor') or id(n) in tgt): continue
                    F._obs.setdefault(n[6], set()).add(n[4])
    return F._obs.get(R['id'], set())

def used_pointers(F, rid):
    """pointer members whose value is read outside of constructors"""
    if not hasattr(F, '_usedptr'):
        F._usedptr = {}
        for f in F.functions.values():
            if f['kind'] == 'ctor': continue
            tgt = set()
            for n in fn_nodes(f):
                if n[0] == 'asg' and n[3] == '=' and n[4][0] == 'mem': tgt.add(id(n[4]))
            for n in fn_nodes(f):
                if n[0] == 'mem' and id(n) not in tgt: F._usedptr.setdefault(n[6], set()).add(n[4])
    return F._usedptr.get(rid, set())

def ptr_leaves(F, rid, depth=0, seen=()):
    """paths (within an object of class rid) of raw non-owning pointer members, through sub-objects of repo classes"""
    R = F.records.get(rid)
    if R is None or depth > 6 or rid in seen: return []
    own = owned_fields(F, R)
    out = []
    for b in R['bases']:
        if b['k'] == 'rec': out += ptr_leaves(F, b['rec'], depth + 1, seen + (rid,))
    for f in R['fields']:
        if f['t']['k'] == 'ptr' and f['n'] not in own: out.append(((f['n'],), rid, f))
        elif f['t']['k'] == 'rec':
            out += [((f['n'],) + p, r, x) for p, r, x in ptr_leaves(F, f['t']['rec'], depth + 1, seen + (rid,))]
    return out

def only_links(F, rid, depth=0):
    """record that consists of pointers/references only (proxy sub-object)"""
    R = F.records.get(rid)
    if R is None or not R['fields'] or depth > 4: return False
    return all(f['t']['k'] in ('ptr', 'ref', 'rref') or (f['t']['k'] == 'rec' and only_links(F, f['t']['rec'], depth + 1)) for f in R['fields'])

def is_ptr_path(F, R, path):
    """does member path end at a pointer / reference?"""
    cur = R
    for i, c in enumerate(path):
        if not isinstance(c, str): return True if False else None
        fl = None
        st = [cur]
        while st and fl is None:
            r = st.pop()
            for x in r['fields']:
                if x['n'] == c: fl = x
            for b in r['bases']:
                if b['k'] == 'rec' and b['rec'] in F.records: st.append(F.records[b['rec']])
        if fl is None: return None
        if fl['t']['k'] in ('ptr', 'ref', 'rref'): return True
        if fl['t']['k'] != 'rec' or fl['t']['rec'] not in F.records: return False
        cur = F.records[fl['t']['rec']]
    return False

def zero_conds(st):
    return {k[1] for k, b in st.conds.items() if k[0] == 'eq' and b}

def lin_equal(st, a, b):
    if a == b: return True
    d = ladd(as_lin(a), as_lin(b), -1)
    if is_const(d): return d[1] == 0
    if d[2][0][1] < 0: d = lscale(d, -1)
    return st.conds.get(('eq', d)) is True

def same_known(st, a, b):
    """is a == b known on this path?"""
    d = ladd(as_lin(a), lscale(as_lin(b), -1))
    return any(k[0] == 'eq' and t is True and k[1] in (d, lscale(d, -1)) or k[0] == 'ne' and t is False and k[1] in (d, lscale(d, -1)) for k, t in st.conds.items())

def null_known(st, path):
    x, y = sorted([('init', path), NULL], key=repr)
    return st.conds.get(('eqv', x, y)) is True

class Judge:
    """compares the final value of a member with the value it has to have"""
    def __init__(s, F, I): s.F = F; s.I = I
    def match(s, st, R, fl, V, src, dst, op, names=('this', 'P0')):
        """None if V is (a copy of) the initial value of `src`+member; else a reason"""
        F = s.F
        n = fl['n']; t = fl['t']; E = src + (n,)
        V = simp(V)
        if V == ('init', E): return None
        if V[0] == 'init' and t['k'] in ('int', 'bool', 'enum') and same_known(st, V, ('init', E)): return None
        if V[0] == 'moved': return 'left in the moved-from state'
        own = owned_fields(F, R)
        if t['k'] == 'ptr':
            if n in own:
                if op in ('cctor', 'casg'):
                    if V == NULL: return None if (null_known(st, E) or zero_conds(st)) else 'null although the source may own data'
                    if V[0] in ('ptr', 'aptr') and V[1] and isinstance(V[1][0], tuple) and V[1][0][0] == 'heap':
                        c = s.I.get(st, V[1])
                        if any(p[:len(E)] == E for p in deps(c)): return None
                        if zero_conds(st): return None
                        return 'freshly allocated, but the elements are not copied from the source (content %s)' % show(c)[:120]
                    if any(p[:len(E)] == E for p in deps(V)) and V[0] != 'init': return None
                    return 'not a copy of the source data: %s' % show(V)[:160]
                if V[0] == 'rec' and simp(V[1]) == ('init', E): return None
                if V == NULL and null_known(st, E): return None
                return 'is %s' % show(V)[:160]
            # non-owning pointer: value checked by the binding rule
            if V[0] in ('ptr', 'aptr') or V == NULL and null_known(st, E): return None
            if op == 'swap': return None
            return 'is %s' % show(V)[:160]
        if V[0] == 'rec':
            base = simp(V[1])
            if t['k'] == 'arr':
                ok = all(simp(x) == ('init', E + p) for p, x in V[2])
                if ok and (base == ('init', E) or len(V[2]) >= t.get('n', 1)): return None
                if base == ('init', E) and all(simp(x) == ('init', E + p) for p, x in V[2]): return None
                return 'array elements: %s' % show(V)[:160]
            if base != ('init', E):
                Rf = F.records.get(t.get('rec'))
                # memberwise reconstruction
                if Rf is not None:
                    have = {p[0] for p, x in V[2]}
                    if have and all(f['n'] in have or f['t']['k'] in ('ref', 'rref') or f['t'].get('c') or class_constant(F, Rf, f['n']) for f in Rf['fields']): base = ('init', E)
            if base == ('init', E):
                Rf = F.records.get(t.get('rec'))
                for p, x in V[2]:
                    x = simp(x)
                    if x == ('init', E + p): continue
                    if Rf is not None and is_ptr_path(F, Rf, p): continue
                    if any(isinstance(c, tuple) for c in p) and x[0] in ('opq', 'op') and any(q[:len(E)] == E for q in deps(x)): continue
                    if x[0] == 'ptr' or x[0] == 'aptr' or x == NULL: continue
                    return 'member %s is %s' % (pstr(p), show(x)[:120])
                return None
            if base[0] in ('opq', 'op') and any(q[:len(E)] == E for q in deps(base)): return None
            if base[0] == 'lin':
                return 'is %s' % show(V)[:160]
            return 'is %s' % show(V)[:200]
        if V[0] == 'lin':
            if lin_equal(st, V, ('init', E)): return None
            d = deps(V)
            if not is_const(V) and any(q[:len(E)] == E for q in d) and any(a[0] != 'init' for a, _ in V[2]): return None
            return 'is %s' % show(V)[:160]
        if t['k'] == 'rec' and V[0] in ('opq', 'op') and (t.get('tn') or '').endswith('fstream'):
            # a stream cannot be copied: it has to be re-opened on what the other object refers to
            if any(q[:len(src)] == src for q in deps(V)): return None
        if V[0] in ('opq', 'op'):
            if any(q[:len(E)] == E for q in deps(V)): return None
            return 'does not depend on the source member: %s' % show(V)[:160]
        if V[0] == 'default' or V == UNINIT:
            if only_links(F, t.get('rec')) : return None
            Rf = F.records.get(t.get('rec'))
            if Rf is not None and not Rf['fields']: return None
            return 'keeps its default/indeterminate value'
        if V[0] in ('zero', 'null'): return 'is reset'
        return 'is %s' % show(V)[:160]

def class_constant(F, R, name, cache={}):
    """member that has the same value, fixed by the type, in every object: all constructors give it a value that depends
    on no argument, and no other member function changes it"""
    key = (id(F), R['id'], name)
    if key in cache: return cache[key]
    cache[key] = False
    vals = set(); n = 0
    for f in F.methods_of.get(R['id'], []):
        if f['body'] is None and not f.get('inits'): continue
        if f['kind'] == 'dtor' or f.get('static') or f.get('const'): continue
        if f.get('sp') in ('cctor', 'mctor', 'casg', 'masg') or f['name'] == 'swap': continue
        mentions = f['kind'] == 'ctor' or any(x[0] == 'mem' and x[4] == name and x[6] == R['id'] for x in fn_nodes(f))
        if not mentions: continue
        I = LifeInterp(F, {}); I.cur_rid = R['id']; I.maxsteps = 60000; st = State()
        if f['kind'] == 'ctor': st.store[('this',)] = UNINIT
        try: rs = [o for o, k, v in I.run(f, st, ('this',)) if k == 'ret']
        except (Limit, RecursionError): return False
        for o in rs:
            v = simp(I.get(o, ('this', name)))
            if f['kind'] != 'ctor':
                if v == ('init', ('this', name)): continue
            if any(not (isinstance(q[0], tuple) and q[0][0] == 'G') for q in deps(v)):
                return False
            if v == UNINIT or v[0] == 'default': return False
            vals.add(v); n += 1
    cache[key] = n > 0 and len(vals) == 1
    return cache[key]

def op_label(op):
    return {'cctor': 'copy constructor', 'mctor': 'move constructor', 'casg': 'copy assignment', 'masg': 'move assignment', 'swap': 'swap'}[op]

def lifecycle_records(F):
    for rid, R in sorted(F.records.items(), key=lambda x: (x[1]['file'], x[1]['line'], x[1]['name'])):
        if R.get('lambda') or R.get('union') or not R['fields']: continue
        if is_proxy(F, R): continue
        yield rid, R

def short(F, R): return R['tn'].replace('sdsl::', '')

def run_states(F, f, summ, alias=False):
    try:
        return run_op(F, f, summ, alias), None
    except Limit as x: return [], 'limit ' + str(x)
    except RecursionError: return [], 'recursion'

def releasing_dtor(F, R):
    """does the destructor (with the member functions of the class it calls) release memory through a raw pointer member?"""
    work = [f for f in F.methods_of.get(R['id'], []) if f['kind'] == 'dtor' and f['body'] is not None]
    seen = set()
    own = owned_fields(F, R)
    while work:
        f = work.pop()
        if f['id'] in seen: continue
        seen.add(f['id'])
        for n in fn_nodes(f):
            if n[0] == 'del' or n[0] == 'call' and (n[4] in ('free', 'std::free') or n[4].startswith('sdsl::memory_manager::')):
                if n[0] == 'call' and n[4].startswith('sdsl::memory_manager::') or any(m[0] == 'mem' and m[6] == R['id'] and m[4] in own for m in walk(n)): return True
            c = n[3] if n[0] in ('call', 'mcall') else None
            g = F.functions.get(c) if c else None
            if g is not None and g.get('cls') == R['id'] and g['body'] is not None: work.append(g)
    return False

def check_transfer(rep, F):
    summ = {}
    seen = set()
    for rid, R in lifecycle_records(F):
        if owned_fields(F, R) and releasing_dtor(F, R):
            rep.count('owning classes')
            bad = [sp for sp, m in implicit_ops(R)]
            rep.ob(not bad)
            for sp in bad:
                rep.violation('owner/%s/%s' % (short(F, R), sp), '%s:%d: the destructor of %s releases the block behind `%s`, but the class has a compiler generated %s: two objects release the same block' % (rel(R['file']), R['line'], R['name'][:100], ', '.join(sorted(owned_fields(F, R))), SPECIAL[sp]))
        for op in OPS:
            f = find_op(F, rid, op)
            if f is None or f.get('deleted'): continue
            if f['body'] is None or f.get('defaulted'):
                continue
            rep.count('operations')
            rs, lim = run_states(F, f, summ)
            where = '%s:%d' % (rel(f['file']), f['line'])
            if lim or not rs:
                rep.incomplete.append('%s %s (%s): %s' % (short(F, R), op_label(op), where, lim or 'no path returns')); continue
            I = LifeInterp(F, summ); I.cur_rid = rid
            J = Judge(F, I)
            obs = observed_fields(F, R)
            rep.count('paths', len(rs))
            for fl in R['fields']:
                t = fl['t']
                if t['k'] in ('ref', 'rref') or fl.get('mut') : continue
                if t.get('c') and op in ('casg', 'masg', 'swap'): continue
                if t['k'] == 'rec' and only_links(F, t['rec']): continue
                if fl['n'] not in obs and fl['n'] not in owned_fields(F, R): continue
                rep.count('member transfers')
                bad = None
                for st in rs:
                    V = I.get(st, ('this', fl['n']))
                    r = J.match(st, R, fl, V, ('P0',), ('this',), op)
                    if r is None and op == 'swap':
                        V = I.get(st, ('P0', fl['n']))
                        r = J.match(st, R, fl, V, ('this',), ('P0',), op)
                        if r: r = 'in the other object ' + r
                    if r: bad = r; break
                if bad and t['k'] in ('int', 'bool', 'enum') and class_constant(F, R, fl['n']): bad = None
                rep.ob(bad is None)
                if bad:
                    key = 'transfer/%s/%s/%s' % (short(F, R), op, fl['n'])
                    rep.violation(key, '%s: %s of %s does not give member `%s` the value it has in the other object: %s' % (where, op_label(op), R['name'][:100], fl['n'], bad))
            # content of owned blocks on move: the source must not keep the pointer
            if op in ('mctor', 'masg'):
                for n in owned_fields(F, R):
                    rep.count('ownership hand-overs')
                    bad = None
                    for st in rs:
                        v = simp(I.get(st, ('P0', n))); w = simp(I.get(st, ('this', n)))
                        if v == w and v[0] in ('init', 'ptr', 'aptr') and not null_known(st, ('P0', n)) : bad = show(v)
                    rep.ob(bad is None)
                    if bad: rep.violation('ownership/%s/%s/%s' % (short(F, R), op, n), '%s: after %s of %s both objects own the same block through `%s` (%s): it is released twice' % (where, op_label(op), R['name'][:100], n, bad))
            # self application
            if op in ('casg', 'masg', 'swap'):
                rs2, lim = run_states(F, f, summ, True)
                if lim or not rs2: rep.incomplete.append('%s self %s: %s' % (short(F, R), op_label(op), lim)); continue
                rep.count('self-applications')
                for fl in R['fields']:
                    t = fl['t']
                    if t['k'] in ('ref', 'rref') or fl.get('mut') or t.get('c'): continue
                    if fl['n'] not in obs and fl['n'] not in owned_fields(F, R): continue
                    bad = None
                    for st in rs2:
                        V = I.get(st, ('this', fl['n']))
                        if V[0] == 'moved': V = V[1]
                        if t['k'] == 'ptr' and fl['n'] in owned_fields(F, R) and simp(V[1] if V[0] == 'rec' else V) != ('init', ('this', fl['n'])):
                            r = 'the owned block is replaced (%s)' % show(V)[:100]
                        elif t['k'] == 'ptr': r = None
                        else: r = J.match(st, R, fl, V, ('this',), ('this',), 'swap')
                        if r: bad = r; break
                    rep.ob(bad is None)
                    if bad:
                        rep.violation('self/%s/%s/%s' % (short(F, R), op, fl['n']), '%s: %s of an object of %s with itself changes member `%s`: %s' % (where, op_label(op), R['name'][:100], fl['n'], bad))

def implicit_states(F, rid, op, summ):
    """state after the compiler generated memberwise operation"""
    R = F.records[rid]
    I = LifeInterp(F, summ); st = State()
    if op in ('cctor', 'mctor'): st.store[('this',)] = UNINIT
    for fl in R['fields']:
        p = ('this', fl['n']); q = ('P0', fl['n'])
        if fl['t']['k'] in ('ref', 'rref'):
            if op in ('cctor', 'mctor'): I.set(st, p, I.get(st, q))
            continue
        I.set(st, p, I.get(st, q))
        if fl['t']['k'] == 'rec' and fl['t']['rec'] in F.records:
            I.rebind(st, p, q, {'cctor': 'copy', 'casg': 'acopy', 'mctor': 'move', 'masg': 'amove'}[op], fl['t']['rec'])
    return [st]


SPECIAL = {'cctor': 'copy constructor', 'mctor': 'move constructor', 'casg': 'copy assignment', 'masg': 'move assignment'}

def implicit_ops(R):
    """compiler generated (implicit or defaulted) special members that can be used"""
    return [(m['sp'], m) for m in R['methods'] if m.get('sp') in SPECIAL and (m.get('impl') or m.get('dft')) and not m.get('del')]

def norm_ptr(v):
    v = simp(v)
    if v[0] == 'rec': v = simp(v[1])
    if v[0] == 'aptr' and v[2] == ZERO: v = ('ptr', v[1])
    return v

def load_fns(F, R):
    """functions other than the special members that (re)build the whole object"""
    for f in F.methods_of.get(R['id'], []):
        if f.get('static') or f['body'] is None or f.get('deleted'): continue
        if f['kind'] == 'ctor' and f.get('sp') not in ('cctor', 'mctor'): yield f, 'constructor'
        elif f['name'] == 'load' and f['kind'] == 'method': yield f, 'load'

def leaf_owner(R, leaf, F):
    return leaf

def binding_states(F, R, f, kind, summ, limitsteps=400000):
    I = BindInterp(F, summ); I.cur_rid = R['id']; I.maxsteps = limitsteps
    st = State()
    if f['kind'] == 'ctor': st.store[('this',)] = UNINIT
    try: return [o for o, k, v in I.run(f, st, ('this',)) if k == 'ret'], None
    except Limit as x: return [], str(x)
    except RecursionError: return [], 'recursion'

def self_refs(rep, F, R, I, refs):
    """reference members bound to members of the same object"""
    for n in refs:
        q = I.ref_binding(R['id'], n)
        if q is None: continue
        rep.count('self-references')
        for sp, m in implicit_ops(R):
            if sp in ('cctor', 'mctor') and not m.get('del'):
                rep.ob(False)
                rep.violation('ref/%s/%s/%s' % (short(F, R), sp, n), '%s:%d: class %s has the reference member `%s` bound to its own member `%s`, but a compiler generated %s: the copy refers to the members of the original' % (rel(R['file']), R['line'], R['name'][:90], n, '.'.join(q), SPECIAL[sp]))
        for f in F.methods_of.get(R['id'], []):
            if f['kind'] != 'ctor' or f.get('defaulted') or f.get('sp') not in ('cctor', 'mctor'): continue
            for i in f.get('inits') or []:
                x = i['e']
                if i.get('f') != n or x is None: continue
                while x is not None and x[0] in ('definit', 'defarg'): x = x[3]
                par = {p[0] for p in f['params']}
                root = x
                while root is not None and root[0] in ('mem', 'cast', 'paren'): root = root[3] if root[0] == 'mem' else root[4]
                bad = root is not None and root[0] == 'ref' and root[3] == 'param' and root[4] in par
                rep.ob(not bad)
                if bad: rep.violation('ref/%s/%s/%s' % (short(F, R), f['sp'], n), '%s:%d: the %s of %s binds the reference member `%s`, which refers to the own member `%s` otherwise, to the other object' % (rel(f['file']), f['line'], SPECIAL[f['sp']], R['name'][:90], n, '.'.join(q)))
        rep.ob(True)

def check_binding(rep, F):
    summ = {}
    done = {rid for rid, R in lifecycle_records(F)}
    for rid, R in sorted(F.records.items()):
        # classes without a life cycle of their own (nodes, iterators, helpers)
        refs = [f['n'] for f in R['fields'] if f['t']['k'] in ('ref', 'rref') and f['n']]
        if rid in done or not refs or not (rel(R['file']).startswith('include') or rel(R['file']).startswith('lib')): continue
        I = BindInterp(F, summ); I.cur_rid = rid
        self_refs(rep, F, R, I, refs)
    for rid, R in lifecycle_records(F):
        leaves = [l for l in ptr_leaves(F, rid) if l[2]['n'] in used_pointers(F, l[1])]
        refs = [f['n'] for f in R['fields'] if f['t']['k'] in ('ref', 'rref')]
        I = BindInterp(F, summ); I.cur_rid = rid
        own = {f['n'] for f in R['fields']} | {f['n'] for f in I.all_fields(R)}
        self_refs(rep, F, R, I, refs)
        if not leaves: continue
        runs = []     # (label, f, states, kind)
        for op in OPS:
            f = find_op(F, rid, op)
            if f is None or f.get('deleted'): continue
            if f['body'] is None or f.get('defaulted'): continue
            rs, lim = run_states(F, f, summ)
            if lim: rep.incomplete.append('%s %s: %s' % (short(F, R), op_label(op), lim)); continue
            runs.append((op_label(op), f, rs, op))
        for sp, m in implicit_ops(R):
            f = {'file': R['file'], 'line': R['line'], 'name': R['tn'], 'id': m['id']}
            runs.append(('compiler generated ' + SPECIAL[sp], f, implicit_states(F, rid, sp, summ), sp))
        for f, kind in load_fns(F, R):
            if sum(1 for _ in fn_nodes(f)) > 6000: continue
            rs, lim = binding_states(F, R, f, kind, summ)
            if lim: rep.incomplete.append('%s %s at %s:%d: %s' % (short(F, R), kind, rel(f['file']), f['line'], lim)); continue
            runs.append((kind, f, rs, kind))
        for leaf, orid, fl in leaves:
            targets = collections.defaultdict(list)
            for label, f, rs, op in runs:
                for st in rs:
                    v = norm_ptr(I.get(st, ('this',) + leaf))
                    if v[0] == 'ptr' and v[1][0] == 'this' and len(v[1]) > 1 and v[1][1] in own:
                        targets[v[1]].append(label)
            # drop targets inside the holder of the leaf itself that every class re-binds (still internal)
            if not targets: continue
            rep.count('internal pointers')
            name = '.'.join(leaf)
            best = max(targets.items(), key=lambda x: len(x[1]))[0]
            for label, f, rs, op in runs:
                rep.count('binding obligations')
                bad = None
                for st in rs:
                    for who, src in ((('this',), 'P0'), (('P0',), 'this')) if op == 'swap' else ((('this',), 'P0'),):
                        v = norm_ptr(I.get(st, who + leaf))
                        good = {who + t[1:] for t in targets if len(targets[t]) * 4 >= len(targets[best])} | {who + best[1:]}
                        if v[0] == 'ptr' and v[1] in good: continue
                        if v[0] == 'phi' and op in ('constructor', 'load'):
                            parts = [norm_ptr(x) for x in v[1]]
                            rest = [x for x in parts if not (x[0] == 'ptr' and x[1] in good)]
                            if len(rest) < len(parts) and all(x == NULL or x == UNINIT or x[0] in ('default', 'zero') or x == ('init', who + leaf) and op == 'load' for x in rest): continue
                        tgt = I.get(st, who + best[1:])
                        if op in ('constructor', 'load'):
                            if op == 'constructor' and (v == NULL or v == UNINIT or v[0] in ('default', 'zero')) and unset(F, R, tgt, best): continue
                            if op == 'constructor' and v[0] == 'opq' and unset(F, R, tgt, best): continue
                            if op == 'load' and v == ('init', who + leaf) and tgt == ('init', who + best[1:]): continue
                        if op != 'swap' and v == NULL and null_known(st, ('P0',) + leaf): continue
                        bad = 'it is %s instead of the address of `%s`' % (show(v)[:120], '.'.join(map(str, best[1:])))
                        break
                    if bad: break
                rep.ob(bad is None)
                if bad:
                    rep.violation('bind/%s/%s/%s' % (short(F, R), op, name), '%s:%d: after %s of %s the internal pointer `%s` is not bound to this object: %s' % (rel(f['file']), f['line'], label, R['name'][:90], name, bad))

def unset(F, R, v, path):
    """the member the pointer should refer to has not been given a value either"""
    return v == UNINIT or v[0] in ('default', 'null', 'zero') or (v[0] == 'rec' and not any('#t' in p for p, x in v[2]) and unset(F, R, v[1], path))
