"""serialize / load in lockstep, and the byte accounting of serialize."""
from check_life import *
from facts import fn_nodes, walk

GHOST = (('ghost', 'bytes'),)

def is_stream(t):
    if t is None: return False
    s_ = (t.get('pt') or {}).get('s', '') + ' ' + t.get('s', '')
    return 'stream' in s_ and 'struct_tree' not in s_

class SerInterp(LifeInterp):
    """records what a serialize function writes"""
    FOREIGN = 10 ** 9
    MAXPATHS = 3000
    root = 'this'
    def reach_stream(s, f):
        return any(is_stream(p[2]) for p in f['params'])
    def inline_ok(s, st, env, f, this, vals):
        if env.depth >= s.MAXDEPTH or env.stack.count(f['id']) >= 1: return False
        if s.reach_stream(f): return True
        if f.get('cls') == s.cur_rid: return s.weight(f) <= 600
        return s.weight(f) <= 60
    def isroot(s, this): return this is not None and this == (s.root,)
    def tick(s, st, n):
        s.set(st, GHOST, ladd(as_lin(s.get(st, GHOST)), n))
    def hook(s, st, env, e, f, this, vals, name, want):
        sh = name.rsplit('::', 1)[-1]
        if name in ('sdsl::util::class_name', 'sdsl::util::demangle', 'sdsl::util::demangle2', 'sdsl::util::to_string'): return [(st, opq('name'))]
        if name == 'sdsl::structure_tree::add_child':
            st.ev.append(('mk', vals[0] if vals else NULL, e[1]))
            return [(st, op('child', vals[0] if vals else NULL, const(e[1])))]
        if name == 'sdsl::structure_tree::add_size':
            st.ev.append(('as', vals[0], as_lin(vals[1]), e[1])); return [(st, ('void',))]
        if sh in ('serialize',) and this is not None and not s.isroot(this) and vals and f is not None and s.reach_stream(f):
            v = s.get(st, this)
            sz = atomize(op('bytes', this_key(this, v)))
            st.ev.append(('sub', this, v, e[9] if e[0] == 'mcall' else None, vals[1] if len(vals) > 1 else NULL, e[1]))
            s.tick(st, sz)
            return [(st, sz)]
        if name == 'std::operator<<' or sh == 'put' and this is not None:
            st.ev.append(('other', name, e[1]))
            s.tick(st, atomize(op('text', const(e[1]))))
            return [(st, opq('stream'))]
        return LifeInterp.hook(s, st, env, e, f, this, vals, name, want)
    def stream_write(s, st, env, e, vals):
        p, o = s.base_off(vals[0]); n = as_lin(vals[1])
        st.ev.append(('w', (p, o), n, s.get(st, p), e[1]))
        s.tick(st, n)
        return [(st, ('void',))]
    # loops: conditions that distinguish the bodies are kept, ghost bytes and counters get the same symbolic increment
    ALT = True
    def size_of(s, st, path):
        v = s.get(st, path)
        while v[0] == 'rec': v = v[1]
        return atomize(op('size', v))

def this_key(this, v): return ('at', v) if v[0] != 'opq' else ('at', v, ('path',) + this)

def coalesce(evs):
    out = []
    for e in evs:
        if e[0] == 'loop':
            bodies = tuple((coalesce(b), c) for b, c in e[3])
            if len(bodies) == 1 and len(bodies[0][0]) == 1 and bodies[0][0][0][0] in ('w', 'r'):
                w = bodies[0][0][0]; it = ('iter', e[2]); p, o = w[1]
                k = dict(o[2]).get(it)
                if k is not None and is_const(w[2]) and w[2][1] == k and not mentions_iter(p, it):
                    o0 = ladd(o, lin(0, [(it, k)]), -1)
                    e = (w[0], (p, o0), lscale(e[1], k)) + w[3:]
                else: e = e[:3] + (bodies,) + e[4:]
            else: e = e[:3] + (bodies,) + e[4:]
        if out and e[0] in ('w', 'r') and out[-1][0] == e[0] and out[-1][1][0] == e[1][0] and ladd(ladd(out[-1][1][1], out[-1][2]), e[1][1], -1) == ZERO:
            out[-1] = (e[0], out[-1][1], ladd(out[-1][2], e[2])) + out[-1][3:]
            continue
        out.append(e)
    return tuple(out)
def mentions_iter(v, it):
    if v == it: return True
    return isinstance(v, tuple) and any(mentions_iter(x, it) for x in v)

# ------------------------------------------------------------------------------------------- load in lockstep
import random
MASK = (1 << 64) - 1
def num(v, seed):
    """value of a symbolic number under a pseudo random valuation of its uninterpreted parts"""
    if v[0] == 'lin':
        return (v[1] + sum(k * num(a, seed) for a, k in v[2]))
    if v in (('zero',), NULL): return 0
    if v[0] == 'op':
        a = v[2:]
        o = v[1]
        if o == 'div': return num(a[0], seed) // max(1, num(a[1], seed))
        if o == 'ceildiv': return -((-num(a[0], seed)) // max(1, num(a[1], seed)))
        if o == '*': return num(a[0], seed) * num(a[1], seed)
        if o in ('&', '|', '^') and len(a) == 2:
            x, y = num(a[0], seed), num(a[1], seed)
            return x & y if o == '&' else x | y if o == '|' else x ^ y
        if o == '%': return num(a[0], seed) % max(1, num(a[1], seed))
        if o == '/': return num(a[0], seed) // max(1, num(a[1], seed))
        if o == '<<': return num(a[0], seed) << (num(a[1], seed) & 63)
        if o == '>>': return num(a[0], seed) >> (num(a[1], seed) & 63)
        if o == 'min': return min(num(a[0], seed), num(a[1], seed))
        if o == 'max': return max(num(a[0], seed), num(a[1], seed))
    return random.Random(repr((seed, v))).choice((0, 1, 7, 64)) if seed % 3 == 0 else random.Random(repr((seed, v))).randrange(0, 100000)
def num_equal(a, b):
    a = as_lin(a); b = as_lin(b)
    if a == b: return True
    return all(num(a, i) == num(b, i) for i in range(24))

def derives(F, a, b, depth=0):
    R = F.records.get(a)
    return a == b or R is not None and depth < 5 and any(x['k'] == 'rec' and derives(F, x['rec'], b, depth + 1) for x in R['bases'])

def atoms(v):
    out = set()
    def rec(x):
        if not isinstance(x, tuple): return
        if x and x[0] == 'lin':
            for a, k in x[2]: rec(a)
        elif x and x[0] == 'op' and x[1] in ('*', 'div', 'ceildiv', '/', '%', '&', '<<', '>>', 'min', 'max'):
            for y in x[2:]: rec(y)
        else: out.add(x)
    rec(as_lin(v))
    return out

class LoadInterp(SerInterp):
    root = 'obj'
    def __init__(s, F, summ=None):
        SerInterp.__init__(s, F, summ)
        s.n = itertools.count(10 ** 6)
    def err(s, st, kind, text):
        if not st.x.get('err'): st.x['err'] = (kind, text)
    def nextev(s, st):
        tr = st.x.get('tr', ())
        return tr[st.pos] if st.pos < len(tr) else None
    def advance(s, st): st.pos += 1; st.x['used'] = ZERO
    def feed(s, st, p, o, n, line):
        """the bytes [o, o+n) of location p are filled from the stream"""
        if st.x.get('err'): s.set(st, p, OPQ); return
        ev = s.nextev(st)
        dst = p if o == ZERO else p + (('@', o),)
        if ev is None:
            s.err(st, 'order', 'line %d reads %s bytes after everything serialize wrote has been consumed' % (line, show(n))); s.set(st, dst, OPQ); return
        if ev[0] == 'sub':
            s.err(st, 'order', 'line %d reads %s raw bytes where serialize (line %d) stores the component %s' % (line, show(n), ev[-1], pstr(ev[1]))); s.set(st, dst, OPQ); return
        if ev[0] != 'w':
            s.err(st, 'unclear', 'line %d reads %s raw bytes where serialize (line %d) has a %s' % (line, show(n), ev[-1], ev[0])); s.set(st, dst, OPQ); return
        used = st.x.get('used', ZERO)
        rest = ladd(ev[2], used, -1)
        if num_equal(n, rest):
            sp, so = ev[1]
            v = ev[3]
            if used == ZERO and not num_equal(o, so) and (deps(o) or deps(so) or st.x.get('inloop')):
                s.err(st, 'order', 'line %d reads into offset %s of %s what serialize (line %d) takes from offset %s of %s' % (line, show(o)[:80], pstr(p), ev[-1], show(so)[:80], pstr(sp)))
            if used == ZERO: s.set(st, dst, v)
            else: s.set(st, p, v)
            s.advance(st); return
        if is_const(n) and is_const(rest) and n[1] < rest[1] or not is_const(rest) and not is_const(n) and s.may_be_part(n, rest) :
            st.x['used'] = ladd(used, n)
            s.set(st, dst, OPQ); return
        s.err(st, 'size', 'line %d reads %s bytes where serialize (line %d) writes %s bytes' % (line, show(n), ev[-1], show(rest))); s.set(st, dst, OPQ)
    def may_be_part(s, n, rest):
        return any(a[0] == 'op' and a[1] in ('ceildiv', 'count') for a, k in n[2])
    def stream_read(s, st, env, e, vals):
        p, o = s.base_off(vals[0]); n = as_lin(vals[1])
        if st.x.get('collect'):
            st.ev.append(('r', (p, o), n, None, e[1])); s.set(st, p, OPQ)
            return [(st, ('void',))]
        s.feed(st, p, o, n, e[1])
        return [(st, ('void',))]
    def stream_write(s, st, env, e, vals): return [(st, ('void',))]
    def builtin_method(s, st, env, e, f, p, vals, name, want):
        if name == 'std::vector::resize' and vals:
            s.set(st, p, ('vec', as_lin(s.through(st, vals[0])))); return [(st, ('void',))]
        if name == 'std::vector::clear':
            s.set(st, p, ('vec', ZERO)); return [(st, ('void',))]
        return SerInterp.builtin_method(s, st, env, e, f, p, vals, name, want)
    def std_ctor(s, st, e, vals):
        if (e[2].get('tn') or '') == 'std::vector' and vals and e[4] and e[4][0] is not None and e[4][0][2]['k'] == 'int':
            return ('vec', as_lin(s.through(st, vals[0])))
        return SerInterp.std_ctor(s, st, e, vals)
    def size_of(s, st, path):
        v = s.get(st, path)
        while v[0] == 'rec': v = v[1]
        if v[0] == 'vec': return v[1]
        return atomize(op('size', v))
    def hook(s, st, env, e, f, this, vals, name, want):
        sh = name.rsplit('::', 1)[-1]
        if sh == 'load' and this is not None and not s.isroot(this) and vals and f is not None and s.reach_stream(f):
            if st.x.get('err'): s.set(st, this, OPQ); return [(st, ('void',))]
            ev = s.nextev(st)
            if st.x.get('collect'): s.err(st, 'unclear', 'component loaded in a loop that serialize does not have'); return [(st, ('void',))]
            rid = e[9] if e[0] == 'mcall' else None
            if ev is None: s.err(st, 'order', 'line %d loads the component %s after everything serialize wrote has been consumed' % (e[1], pstr(this)))
            elif ev[0] == 'w': s.err(st, 'order', 'line %d loads the component %s where serialize (line %d) writes %s raw bytes of %s' % (e[1], pstr(this), ev[-1], show(ev[2]), pstr(ev[1][0])))
            elif ev[0] != 'sub': s.err(st, 'unclear', 'line %d loads a component where serialize (line %d) has a %s' % (e[1], ev[-1], ev[0]))
            elif rid is not None and ev[3] is not None and rid != ev[3] and not derives(s.F, rid, ev[3]) and not derives(s.F, ev[3], rid):
                a, b = s.F.records.get(rid), s.F.records.get(ev[3])
                s.err(st, 'unclear' if a is None or b is None or 'wrapper' in a['name'] + b['name'] else 'order', 'line %d loads %s (%s) where serialize (line %d) stores %s (%s)' % (e[1], pstr(this), a and a['name'][:60], ev[-1], pstr(ev[1]), b and b['name'][:60]))
            if st.x.get('err'): s.set(st, this, OPQ); return [(st, ('void',))]
            s.set(st, this, ev[2]); s.advance(st)
            return [(st, ('void',))]
        if sh == 'operator>>' and any('stream' in (x[2].get('s') or '') for x in (e[6] if e[0] == 'opcall' else [])):
            s.err(st, 'unclear', 'formatted read')
            return [(st, opq('stream'))]
        return LifeInterp.hook(s, st, env, e, f, this, vals, name, want)
    def reads(s, n):
        return any('istream' in (x[2].get('s') or '') or 'istream' in ((x[2].get('pt') or {}).get('s') or '') for x in walk(n) if x[0] in ('ref', 'mem', 'cast') and isinstance(x[2], dict))
    def st(s, st, env, n):
        fk = st.x.get('fork')
        if fk is not None and n is fk[0]:
            st.x['fork'] = None
            res = []
            for evs, cs in fk[1]:
                o = st.clone(); ok = True
                for k, b in cs:
                    if o.conds.get(k, b) != b: ok = False
                    o.conds[k] = b
                if not ok: continue
                o.x['tr'] = evs; o.pos = 0; o.x['used'] = ZERO
                for o2, k, v in LifeInterp.st(s, o, env, n):
                    if k in ('next', 'cont', 'break') and o2.pos < len(o2.x['tr']) and not o2.x.get('err'):
                        s.err(o2, 'order', 'an iteration of the loop at line %d leaves unread what serialize writes per iteration (line %d)' % (n[1], o2.x['tr'][o2.pos][-1]))
                    res.append((o2, k, v))
            return s.limit(res)
        return LifeInterp.st(s, st, env, n)
    def loop(s, st, env, cond, inc, body, post, node, rng=None):
        if not s.reads(node) or st.x.get('collect') or st.x.get('err'):
            return LifeInterp.loop(s, st, env, cond, inc, body, post, node, rng)
        ev = s.nextev(st)
        tr, pos = st.x['tr'], st.pos
        if ev is not None and ev[0] == 'loop':
            lid = ('loop', env.fn['id'] if env.fn else '?', node[1])
            a, b = ('iter', ev[2]), ('iter', lid)
            alts = [(substv(evs, a, b), substv(cs, a, b)) for evs, cs in ev[3]]
            st.x['fork'] = (body, alts); st.x['inloop'] = 1
            res = LifeInterp.loop(s, st, env, cond, inc, body, post, node, rng)
            cnt = s.last_cnt
            for o, k, v in res:
                o.x['fork'] = None
                o.x['tr'] = tr; o.pos = pos + 1; o.x['used'] = ZERO; o.x['inloop'] = 0
                if k != 'next' and not o.x.get('err'): s.err(o, 'unclear', 'line %d: left out of the middle of a loop' % node[1])
                if not o.x.get('err') and not num_equal(cnt, ev[1]):
                    if any(a_[0] == 'op' and a_[1] == 'count' for a_, _ in as_lin(cnt)[2] + as_lin(ev[1])[2]): s.err(o, 'unclear', 'line %d: number of iterations %s, serialize (line %d) %s' % (node[1], show(cnt)[:100], ev[-1], show(ev[1])[:100]))
                    elif old_content(o, cnt): s.err(o, 'former', 'the loop at line %d reads %s elements, a number that depends on the former content of the object; serialize (line %d) writes %s' % (node[1], show(cnt)[:100], ev[-1], show(ev[1])[:100]))
                    elif not is_const(cnt) and atoms(cnt) != atoms(ev[1]): o.x['assumed'] = o.x.get('assumed', ()) + ('line %d: number of iterations %s, serialize (line %d) %s' % (node[1], show(cnt)[:100], ev[-1], show(ev[1])[:100]),)
                    else: s.err(o, 'size', 'the loop at line %d reads %s elements, serialize (line %d) writes %s' % (node[1], show(cnt)[:100], ev[-1], show(ev[1])[:100]))
            return res
        if ev is not None and ev[0] == 'w':
            st.x['collect'] = True
            res = LifeInterp.loop(s, st, env, cond, inc, body, post, node, rng)
            for o, k, v in res:
                o.x['collect'] = False
                if o.ev and o.ev[-1][0] == 'loop':
                    c = coalesce([o.ev.pop()])
                    if len(c) == 1 and c[0][0] == 'r': s.feed(o, c[0][1][0], c[0][1][1], c[0][2], c[0][-1])
                    elif len(c) == 1 and c[0][0] == 'loop' and len(c[0][3]) == 1 and len(c[0][3][0][0]) == 1 and c[0][3][0][0][0][0] == 'r' and is_const(c[0][3][0][0][0][2]):
                        r = c[0][3][0][0][0]
                        s.err(o, 'order', 'the loop at line %d reads %s bytes per iteration into %s at offset %s: the destination does not advance by the same amount, serialize (line %d) writes consecutive bytes' % (node[1], show(r[2]), pstr(r[1][0]), show(r[1][1])[:80], ev[-1]))
                    else: s.err(o, 'unclear', 'line %d: a loop reads what serialize (line %d) writes as one block' % (node[1], ev[-1]))
            return res
        res = LifeInterp.loop(s, st, env, cond, inc, body, post, node, rng)
        for o, k, v in res:
            if o.x.get('err') and zero_conds(o): o.x['err'] = ('unclear', o.x['err'][1])
        return res
    def whole(s, st, post_st, cont, src):
        if cont[0] == 'obj' and len(cont) == 2 and s.get(st, cont) == ('init', cont): post_st.x = dict(post_st.x, kept=post_st.x.get('kept', ()) + (cont[1],))
    def loop_extra(s, st, post, allst):
        for o in allst:
            if o.x.get('err') and not post.x.get('err'): post.x['err'] = o.x['err']
        if post.x.get('fork'): post.x['fork'] = None

def old_content(st, v):
    """does v depend on what the loading object held before (and no equality with a restored value is known)?"""
    d = {p for p in deps(v) if p[0] == 'obj'}
    for k, b in st.conds.items():
        if k[0] == 'eq' and b is True and d & deps(k[1]): return False
    return bool(d)

def filt(evs):
    out = []
    for e in evs:
        if e[0] in ('as', 'mk', 'memcpy'): continue
        if e[0] == 'loop':
            b = tuple(dict.fromkeys((filt(x), c) for x, c in e[3]))
            if not any(x for x, _ in b): continue
            out.append(e[:3] + (b,) + e[4:])
        else: out.append(e)
    return tuple(out)

def no_params(key): return not any(isinstance(p[0], str) and p[0][:1] == 'P' and p[0][1:].isdigit() for p in deps(key[1]) | (deps(key[2]) if len(key) > 2 and isinstance(key[2], tuple) else frozenset()))

def sargs(f, pre):
    a = [('ptr', (pre + '%d' % i,)) if p[2]['k'] in ('ref', 'rref') else ('init', (pre + '%d' % i,)) for i, p in enumerate(f['params'])]
    for i, p in enumerate(f['params']):
        if i >= 3 and p[2]['k'] == 'bool': a[i] = ZERO
    return a

def ser_paths(F, f, summ, args=None):
    I = SerInterp(F, summ); I.cur_rid = f.get('cls'); I.maxsteps = 3000000
    st = State(); st.store[GHOST] = ZERO
    return I, [(o, v) for o, k, v in I.call(st, f, ('this',), args or sargs(f, 'P'), 0) if k == 'ret']

def load_paths(F, f, summ, tr, conds, args=None):
    I = LoadInterp(F, summ); I.cur_rid = f.get('cls'); I.maxsteps = 3000000
    st = State(); st.conds = dict(conds); st.x = {'tr': tr, 'used': ZERO}
    rs = [o for o, k, v in I.call(st, f, ('obj',), args or sargs(f, 'LP'), 0) if k == 'ret']
    return I, rs

def load_args(F, f, R):
    """a support is loaded together with a pointer to the object it supports: the same object the written one referred to"""
    args = sargs(f, 'LP')
    ptrs = [i for i, p in enumerate(f['params']) if p[2]['k'] == 'ptr']
    if not ptrs: return args
    try: I, rs = load_paths(F, f, {}, (), {}, args)
    except (Limit, RecursionError): return args
    fields = []
    st_ = [R]
    while st_:
        r = st_.pop()
        fields += [fl['n'] for fl in r['fields'] if fl['t']['k'] == 'ptr']
        st_ += [F.records[b['rec']] for b in r['bases'] if b['k'] == 'rec' and b['rec'] in F.records]
    for i in ptrs:
        for o in rs[:1]:
            for n in fields:
                if I.get(o, ('obj', n)) == ('init', ('LP%d' % i,)): args[i] = ('init', ('this', n)); break
    return args

def method_in(F, rid, name, depth=0):
    """the function an object of class rid uses for `name` (own or inherited), taking a stream"""
    for f in F.methods_of.get(rid, []):
        if f['name'] == name and f['body'] is not None and f['params'] and is_stream(f['params'][0][2]): return f
    R = F.records.get(rid)
    if R is None or depth > 4: return None
    if any(m['n'] == name for m in R['methods']): return None
    for b in R['bases']:
        if b['k'] == 'rec':
            r = method_in(F, b['rec'], name, depth + 1)
            if r is not None: return r
    return None

def pairs(F):
    for rid, R in sorted(F.records.items(), key=lambda x: (x[1]['file'], x[1]['line'], x[1]['name'])):
        a = method_in(F, rid, 'serialize'); b = method_in(F, rid, 'load')
        if a is None and b is None: continue
        if (a is None or a.get('cls') != rid) and (b is None or b.get('cls') != rid): continue
        yield rid, R, a, b

# ------------------------------------------------------------------------------------------- the checks
def no_opq(v):
    if not isinstance(v, tuple): return True
    if v and v[0] == 'opq': return False
    if v and v[0] == 'op' and v[1] == 'bytes': return True
    return all(no_opq(x) for x in v if isinstance(x, tuple))

def written_members(tr):
    out = set()
    for e in tr:
        if e[0] == 'loop':
            for b, _ in e[3]: out |= written_members(b)
        elif e[0] in ('w', 'sub'):
            p = e[1][0] if e[0] == 'w' else e[1]
            if p and p[0] == 'this' and len(p) > 1: out.add(p[1])
            v = e[3] if e[0] == 'w' else e[2]
            if v[0] == 'init' and v[1][0] == 'this' and len(v[1]) > 1: out.add(v[1][1])
    return out

def all_fields_of(F, R, d=0):
    out = []
    for b in R['bases']:
        if b['k'] == 'rec' and b['rec'] in F.records and d < 5: out += all_fields_of(F, F.records[b['rec']], d + 1)
    return out + [(R, fl) for fl in R['fields']]

def describe(f): return '%s:%d' % (rel(f['file']), f['line'])

def check_roundtrip(rep, F):
    PAIRS = list(pairs(F))
    for rid, R, a, b in PAIRS:
        if a is None or b is None: continue
        variants = [(R, a, b, sargs(a, 'P'), '')]
        if len(a['params']) > 3 and a['params'][3][2]['k'] == 'bool' and R.get('tn') == 'sdsl::int_vector' and R['name'] != 'sdsl::int_vector<>':
            # fixed width vectors can be written in the format of the variable width vector
            z = [(r2, x, y) for r2, R2, x, y in PAIRS if R2['name'] == 'sdsl::int_vector<>' and r2 != rid]
            sa = sargs(a, 'P'); sa[3] = const(1)
            for r2, x, y in z: variants.append((F.records[r2], a, y, sa, ' read from a fixed width vector written as variable: ' + R['tn']))
        for R, a, b, sa, tag in variants:
            name = short(F, R) + tag
            rep.count('serialize/load pairs')
            try:
                I, ps = ser_paths(F, a, {}, sa)
                la = load_args(F, b, R)
            except (Limit, RecursionError) as x:
                rep.incomplete.append('%s serialize (%s): %s' % (name, describe(a), x)); continue
            traces = {}
            for st, v in ps:
                tr = coalesce(filt(st.ev))
                cs = {k: x for k, x in st.conds.items() if no_params(k)}
                traces.setdefault((tr, frozenset(cs.items())), (st, cs))
            rep.count('serialize paths', len(traces))
            stale = {}; restored = set(); anywritten = set()
            fields = all_fields_of(F, R)
            for (tr, _), (st0, cs) in traces.items(): anywritten |= written_members(tr)
            for (tr, _), (st0, cs) in traces.items():
                rep.count('stream items matched', len(tr))
                if any(e[0] == 'other' or e[0] == 'partial-loop' for e in tr):
                    rep.incomplete.append('%s: %s writes formatted output' % (name, describe(a))); continue
                try: J, rs = load_paths(F, b, {}, tr, cs, la)
                except (Limit, RecursionError) as x:
                    rep.incomplete.append('%s load (%s): %s' % (name, describe(b), x)); continue
                rep.count('lockstep runs', len(rs))
                written = written_members(tr)
                verdicts = []
                for o in rs:
                    for x in o.x.get('assumed', ()):
                        t_ = '%s (%s): equal iteration counts assumed: %s' % (name, describe(b), x)
                        if t_ not in rep.incomplete: rep.incomplete.append(t_)
                    e = o.x.get('err')
                    if not e and o.pos < len(tr):
                        ev = tr[o.pos]
                        e = ('order', 'serialize (line %d) writes %s, which load never reads' % (ev[-1], ev[0] == 'sub' and 'the component ' + pstr(ev[1]) or ev[0] == 'w' and pstr(ev[1][0]) or 'a sequence of elements'))
                    if not e and o.x.get('used', ZERO) != ZERO: e = ('size', 'load reads only a part of a block')
                    verdicts.append((o, e))
                good = [o for o, e in verdicts if not e]
                bad = [(o, e) for o, e in verdicts if e and e[0] != 'unclear']
                und = [(o, e) for o, e in verdicts if e and e[0] == 'unclear']
                for o, e in und[:1]: rep.incomplete.append('%s (%s): %s' % (name, describe(b), e[1]))
                # a disagreement counts when it happens whatever conditions load tests on its own
                real = [(o, e) for o, e in bad if all(known_cond(k, ('this', 'obj') if e[0] == 'former' else ('this',)) for k in o.conds if k not in cs)] if good or und else bad
                rep.ob(not real)
                for o, e in real[:1]:
                    rep.violation('lockstep/%s' % name, '%s: load of %s does not mirror serialize (%s): %s' % (describe(b), R['name'][:90], describe(a), e[1]))
                if not rs and ps: rep.incomplete.append('%s load has no returning path' % name)
                for o in good:
                    jd = Judge(F, J)
                    for RR, fl in fields:
                        t = fl['t']; n = fl['n']
                        if t['k'] in ('ref', 'rref') or fl.get('mut'): continue
                        own = owned_fields(F, RR)
                        if t['k'] == 'ptr' and n not in own: continue
                        if t['k'] == 'rec' and only_links(F, t['rec']): continue
                        if n not in observed_fields(F, RR) and n not in own: continue
                        rep.count('member restorations')
                        V = simp(J.get(o, ('obj', n)))
                        why = jd.match(o, RR, fl, V, ('this',), ('obj',), 'cctor')
                        if n in o.x.get('kept', ()) and t.get('tn') == 'std::vector' and not any(k[0] == 'eq' and bb is True and any(p[:2] == ('obj', n) for p in deps(k[1])) for k, bb in o.conds.items()):
                            rep.ob(False)
                            rep.violation('member/%s/%s' % (name, n), '%s: on a path through load of %s the vector `%s` keeps the number of elements it had before; only as many elements as serialize (%s) wrote are replaced' % (describe(b), R['name'][:90], n, describe(a))); continue
                        if why is None: restored.add(n); rep.ob(); continue
                        base = V
                        while base[0] == 'rec': base = simp(base[1])
                        if base[0] == 'vec':
                            z = ('eq', base[1]) if base[1][2] else None
                            if base[1] == ZERO or o.conds.get(z) is True or any(zc == base[1] or zc == lscale(base[1], -1) for zc in zero_conds(o)): restored.add(n); rep.ob(); continue
                            if n not in written: rep.ob(); restored.add(n); continue
                        if class_constant(F, RR, n): rep.ob(); restored.add(n); continue
                        if base[0] == 'lin' and base != ('init', ('obj', n)) and (len(base[2]) > 1 or base[1]) and t['k'] in ('int', 'bool') and n not in written and old_content(o, base):
                            rep.ob(False)
                            rep.violation('member/%s/%s' % (name, n), '%s: load of %s computes member `%s` from the former content of the object: %s' % (describe(b), R['name'][:90], n, show(base)[:160])); continue
                        old = base == ('init', ('obj', n)) or base == UNINIT or base[0] == 'default' or base == NULL and n not in written
                        if old and n not in written: stale.setdefault(n, (o, why)); continue
                        if n in written:
                            if base[0] == 'opq' and any(q[:2] == ('this', n) for q in deps(base)): rep.ob(); continue
                            rep.ob(False)
                            rep.violation('member/%s/%s' % (name, n), '%s: after load of %s member `%s` does not have the value serialize (%s) wrote for it: %s' % (describe(b), R['name'][:90], n, describe(a), why))
                        else:
                            restored.add(n); rep.ob(); rep.count('members recomputed on load')
            for n, (o, why) in stale.items():
                ok = n in restored
                rep.ob(ok)
                if not ok: rep.violation('member/%s/%s' % (name, n), '%s: load of %s leaves member `%s`, which const member functions read, as it was: serialize (%s) does not write it and load does not compute it' % (describe(b), R['name'][:90], n, describe(a)))

def known_cond(k, roots=('this',)):
    """a condition over restored data only (not over stream states, allocation results or the old content)"""
    d = deps(k[1]) | (deps(k[2]) if len(k) > 2 and isinstance(k[2], tuple) else frozenset())
    return bool(d) and all(p[0] in roots for p in d)

def check_bytes(rep, F):
    for rid, R in sorted(F.records.items(), key=lambda x: (x[1]['file'], x[1]['line'], x[1]['name'])):
        a = None
        for f in F.methods_of.get(rid, []):
            if f['name'] == 'serialize' and f['body'] is not None and f['params'] and is_stream(f['params'][0][2]): a = f
        if a is None: continue
        account(rep, F, R, a, short(F, R), ('init', ('P1',)))
    for fid, f in sorted(F.functions.items()):
        if f.get('cls') or f['body'] is None or not f['params']: continue
        ix = [i for i, p in enumerate(f['params']) if 'ostream' in ((p[2].get('pt') or {}).get('s') or '')]
        if not ix or f['ret']['k'] != 'int' or f['name'] == 'operator<<': continue
        if not (rel(f['file']).startswith('include') or rel(f['file']).startswith('lib')): continue
        pn = [i for i, p in enumerate(f['params']) if 'structure_tree_node' in ((p[2].get('pt') or {}).get('s') or '')]
        account(rep, F, None, f, '%s@%s' % (f['q'] if 'q' in f else f['name'], rel(f['file'])), ('init', ('P%d' % pn[0],)) if pn else None)

def account(rep, F, R, a, name, parent):
    rep.count('serializing functions')
    try: I, ps = ser_paths(F, a, {})
    except (Limit, RecursionError) as x:
        rep.incomplete.append('%s (%s): %s' % (name, describe(a), x)); return
    if not ps: rep.incomplete.append('%s (%s): no returning path' % (name, describe(a)))
    for st, v in ps:
        rep.count('paths')
        g = I.get(st, GHOST)
        if not no_opq(as_lin(v)) or not no_opq(as_lin(g)):
            rep.incomplete.append('%s (%s): byte count not a closed form: %s / %s' % (name, describe(a), show(v)[:80], show(g)[:80])); continue
        ok = num_equal(v, g)
        rep.ob(ok)
        if not ok:
            rep.violation('bytes/%s' % name, '%s: %s returns %s but writes %s bytes' % (describe(a), (R['name'] if R else a['name'])[:90], show(as_lin(v))[:200], show(as_lin(g))[:200]))
        if parent is None: continue
        evs = flat(st.ev)
        own = [e for e in evs if e[0] == 'as' and e[1][0] == 'op' and e[1][1] == 'child' and e[1][2] == parent]
        nodes = {e[1] for e in own}
        mk = [e for e in evs if e[0] == 'mk' and e[1] == parent]
        up = [e for e in evs if e[0] == 'sub' and e[4] == parent]
        rep.count('size annotations', len(own))
        for e in own:
            if not no_opq(e[2]): continue
            want = g if len(nodes) == 1 else None
            if want is None: continue
            ok = num_equal(e[2], want)
            rep.ob(ok)
            if not ok: rep.violation('node/%s' % name, '%s: %s records %s bytes for its node in the structure tree but writes %s' % (describe(a), (R['name'] if R else a['name'])[:90], show(e[2])[:200], show(as_lin(g))[:200]))
        if len(own) > 1 and len(nodes) == 1:
            rep.ob(False); rep.violation('node2/%s' % name, '%s: %s adds its size to the same node of the structure tree %d times' % (describe(a), (R['name'] if R else a['name'])[:90], len(own)))
        if mk and not own and not num_equal(g, ZERO):
            rep.ob(False); rep.violation('nonode/%s' % name, '%s: %s creates a node in the structure tree but does not record its size' % (describe(a), (R['name'] if R else a['name'])[:90]))
        # a method makes one node below the one it was given; everything else belongs below that
        lines = sorted({e[2] for e in mk})
        if R is not None and own:
            rep.ob(len(lines) <= 1)
            if len(lines) > 1: rep.violation('beside/%s' % name, '%s: %s creates nodes next to its own node in the structure tree (lines %s) instead of below it' % (describe(a), R['name'][:90], ', '.join(map(str, lines))))
        # nodes made for parts of the object
        inner = {('op', 'child', e[1], const(e[2])): e for e in evs if e[0] == 'mk' and e[1] != parent and not is_null(e[1])} if R is not None else {}
        for nd, e in inner.items():
            k = sum(1 for x in evs if x[0] == 'as' and x[1] == nd); m = sum(1 for x in evs if x[0] == 'mk' and x[1:] == e[1:])
            got = k or any(x[0] == 'sub' and x[4] == nd for x in evs) or any(x[0] == 'mk' and x[1] == nd for x in evs)
            rep.count('inner nodes'); rep.ob(bool(got) and k <= m)
            if not got: rep.violation('inner/%s' % name, '%s: %s creates a node in the structure tree (line %d) that never gets a size' % (describe(a), R['name'][:90], e[2]))
            elif k > m: rep.violation('inner2/%s' % name, '%s: %s adds a size %d times to the node of the structure tree it creates at line %d' % (describe(a), R['name'][:90], k, e[2]))
        if own and up:
            rep.ob(False); rep.violation('parent/%s' % name, '%s: %s (line %d) puts the node of its component %s next to its own node instead of below it' % (describe(a), (R['name'] if R else a['name'])[:90], up[0][-1], pstr(up[0][1])))

def is_null(v): return v == NULL or v == ZERO

def flat(evs):
    out = []
    for e in evs:
        if e[0] == 'loop':
            for b, _ in e[3]: out += flat(b)
        else: out.append(e)
    return out
