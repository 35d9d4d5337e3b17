from check_life import *
from guards import Guards, BAD
from effects import Effects
from facts import fn_nodes, walk, children
RAII = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
CONFIG = {'sdsl::util::verbose': 'verbosity switch', 'sdsl::construct_config::byte_algo_sa': 'construction switch', 'nifty_counter': 'static initialisation counter'}
CONFIG_FIELDS = {('sdsl::memory_manager', 'hugepages'): 'set once by use_hugepages'}
# hands out one file of the RAM file system: its content belongs to whoever has the file open
HANDOUT = {('sdsl::ram_fs::content', 'm_map'), ('sdsl::memory_monitor::the_monitor', None)}

STARTUP = {'sdsl::ram_fs_initializer'}      # runs while the process starts and ends

def lock_type(F, t):
    if t['k'] != 'rec': return None
    n = t.get('tn', '')
    if n.startswith('std::') and n.endswith('mutex'): return n
    r = F.records.get(t.get('rec'))
    if r is not None:
        ms = {m['n'] for m in r['methods']}
        if {'lock', 'unlock'} <= ms and not r['tn'].startswith('std::'): return n
    return None

class Locks:
    """locks held at every expression: RAII guards by scope, explicit lock()/unlock() by path"""
    def __init__(s, F):
        s.lviews = {}; s.F = F; s.G = Guards(F); s.locks = {}; s.data = {}; s.static = {}
        for r in F.records.values():
            for f in r['fields']:
                if lock_type(F, f['t']): s.locks.setdefault(r['tn'], []).append((f['n'], lock_type(F, f['t']), False))
            for f in r['sfields']:
                if lock_type(F, f['t']): s.locks.setdefault(r['tn'], []).append((f['n'], lock_type(F, f['t']), True))
        for r in F.records.values():
            if r['tn'] not in s.locks: continue
            for f in r['fields']:
                if not lock_type(F, f['t']) and not f['t'].get('tn', '').startswith('std::atomic'): s.data[(r['id'], f['n'])] = r['tn']
            for f in r['sfields']:
                if not lock_type(F, f['t']) and not f['t'].get('tn', '').startswith('std::atomic') and not f['t'].get('c'): s.static[f['id']] = (r['tn'], f['n'])
        s.lockglob = {f['id']: (r['tn'], f['n']) for r in F.records.values() for f in r['sfields'] if lock_type(F, f['t'])}
        s.lockfield = {(r['id'], f['n']): r['tn'] for r in F.records.values() for f in r['fields'] if lock_type(F, f['t'])}
    def lock_of(s, e):
        """(class, lock, base path) of a lock expression"""
        while e is not None and (e[0] == 'cast' or e[0] == 'un' and e[3] in '&*'): e = e[4]
        if e is None: return None
        if e[0] == 'mem' and (e[6], e[4]) in s.lockfield: return (s.lockfield[(e[6], e[4])], e[4], s.base(e[3]))
        if e[0] == 'ref' and e[3] == 'glob' and e[4] in s.lockglob: return s.lockglob[e[4]] + (None,)
        if e[0] == 'ref' and e[3] == 'var': return s.lviews.get(e[4])
        return None
    def base(s, e):
        k = s.G.key(e, None)
        return k
    def access(s, e):
        if e[0] == 'mem' and (e[6], e[4]) in s.data: return (s.data[(e[6], e[4])], e[4], s.base(e[3]))
        if e[0] == 'ref' and e[3] == 'glob' and e[4] in s.static: return s.static[e[4]] + (None,)
        return None
    def root(s, e):
        """the protected member an lvalue expression lies in"""
        while e is not None:
            a = s.access(e) if e[0] in ('mem', 'ref') else None
            if a: return a
            if e[0] == 'ref' and e[3] in ('var', 'param') and e[4] in s.views: return s.views[e[4]]
            if e[0] == 'mem': e = e[3]
            elif e[0] == 'cast' or e[0] == 'un' and e[3] in ('*', '&', '++', '--'): e = e[4]
            elif e[0] == 'idx': e = e[3]
            elif e[0] == 'mcall': e = e[5]
            elif e[0] == 'opcall' and e[3] in ('[]', '*', '->', '++', '--', '='): e = e[6][0] if e[6] else None
            elif e[0] in ('defarg', 'definit'): e = e[3]
            elif e[0] == 'call' and e[4] in ('std::move', 'std::forward', 'std::begin', 'std::end', 'std::addressof'): e = e[5][0]
            else: return None
        return None
    def function(s, f):
        """events of f: ('acc', access, node, held), ('call', usr, node, held), ('acq', lock, node, held), ('leak', node)"""
        s.ev = []; s.f = f; s.views = {}; s.lviews = {}
        for i in f.get('inits') or []:
            if i['e'] is not None: s.ex(i['e'], frozenset())
        if f['body'] is not None:
            out = s.st(f['body'], frozenset())
            s.leave(out, f['body'])
        return s.ev
    def leave(s, held, n):
        for l in held or ():
            if l[3] == 'explicit': s.ev.append(('leak', l, n, held))
    def acquire(s, l, n, held, how):
        s.ev.append(('acq', l, n, held))
        return held | {l + (how,)}
    def ex(s, e, held):
        if e is None: return held
        k = e[0]
        if k in ('mem', 'ref'):
            a = s.access(e)
            if a: s.ev.append(('acc', a, e, held))
            elif k == 'ref' and e[3] in ('var', 'param') and e[4] in s.views: s.ev.append(('acc', s.views[e[4]], e, held))
        l = None
        if k == 'mcall':
            nm = e[4].rsplit('::', 1)[-1]
            if nm in ('lock', 'unlock', 'try_lock'): l = s.lock_of(e[5])
        if l is None:
            for c in children(e): held = s.ex(c, held)
        if k in ('mcall', 'call', 'ctor', 'opcall'):
            u = e[4] if k == 'opcall' else e[3]
            if l is not None:
                if nm == 'lock': held = s.acquire(l, e, held, 'explicit')
                elif nm == 'unlock': held = frozenset(h for h in held if h[:3] != l)
            elif u: s.ev.append(('call', u, e, held))
            t = e[2] if isinstance(e[2], dict) else None      # a result object is destroyed
            if t is not None and t['k'] == 'rec' and k != 'ctor': s.dtor(t, e, held)
        return held
    def dtor(s, t, n, held):
        for f in s.F.methods_of.get(t.get('rec'), []):
            if f['kind'] == 'dtor': s.ev.append(('call', f['id'], n, held))
    def st(s, n, held):
        if n is None or held is None: return held
        k = n[0]
        if k == 'block':
            scoped = held
            for x in n[2]:
                held = s.st(x, held)
                if held is None: return None
            return frozenset(h for h in held if h in scoped or h[3] == 'explicit')
        if k == 'decl':
            for b in n[2]:
                t = b[2]
                if t['k'] == 'rec' and (t.get('tn') or '') in RAII and b[3] is not None:
                    for x in walk(b[3]):
                        l = s.lock_of(x) if x[0] in ('mem', 'ref') else None
                        if l: held = s.acquire(l, x, held, 'scope'); break
                    continue
                if b[3] is not None:
                    held = s.ex(b[3], held)
                    v = t['k'] in ('ref', 'rref', 'ptr') or t['k'] == 'rec' and 'iterator' in (t.get('tn') or '')
                    if v and t['k'] != 'rec':
                        l = s.lock_of(b[3])
                        if l: s.lviews[b[0]] = l
                    if v:
                        r = s.root(b[3])
                        if r: s.views[b[0]] = r
                if t['k'] == 'rec': s.dtor(t, ['decl', n[1]], held)
            return held
        if k == 'if':
            held = s.ex(n[2], held); a = s.st(n[3], held); b = s.st(n[4], held) if n[4] is not None else held
            return b if a is None else a if b is None else a & b
        if k in ('for', 'while', 'do', 'rfor'):
            ent = held
            if k == 'for': ent = s.st(n[2], ent); ent = s.ex(n[3], ent); s.st(n[5], ent); s.ex(n[4], ent)
            elif k == 'rfor':
                ent = s.ex(n[3], ent)
                if n[2] is not None:
                    r = s.root(n[3])
                    if r and n[2][2]['k'] in ('ref', 'ptr'): s.views[n[2][0]] = r
                s.st(n[4], ent)
            elif k == 'while': ent = s.ex(n[2], ent); s.st(n[3], ent)
            else: s.st(n[3], ent); s.ex(n[2], ent)
            return held
        if k == 'ret':
            if n[2] is not None:
                held = s.ex(n[2], held)
                rt = s.f['ret']
                if rt['k'] in ('ref', 'rref', 'ptr'):
                    r = s.root(n[2])
                    if r: s.ev.append(('esc', r, n, held))
            s.leave(held, n); return None
        if k in ('switch', 'case'): held = s.ex(n[2], held); s.st(n[3], held); return held
        if k == 'default': s.st(n[2], held); return held
        if k == 'try':
            s.st(n[2], held)
            for h in n[3]: s.st(h, held)
            return held
        if k == 'label': return s.st(n[3], held)
        if k in ('break', 'cont', 'goto'): return None if False else held
        if k in ('nop', 'unkst'): return held
        return s.ex(n, held)

def run():
    rep = Report('P09')
    rep.rule = 'every access to data of a class with a lock happens while that lock is held, no lock is taken twice or in opposite orders, and every other variable shared by the process is atomic or constant after initialisation'
    F = load_facts(); L = Locks(F); EV = {}
    W = lambda f, n: '%s:%d' % (rel(f['file']), n[1])
    fs = [f for f in F.functions.values() if f['body'] is not None or f.get('inits')]
    for f in fs: EV[f['id']] = L.function(f)
    calls = {}          # callee -> [(caller, held, node)]
    for f in fs:
        for ev in EV[f['id']]:
            if ev[0] == 'call': calls.setdefault(ev[1], []).append((f, ev[3], ev[2]))
    kindof = {(c, n): t for c, ls in L.locks.items() for n, t, _ in ls}
    rep.counts['locks'] = sum(len(x) for x in L.locks.values()); rep.counts['members with a lock'] = len(L.data) + len(L.static); rep.counts['functions'] = len(fs)
    # locks held whenever a function is entered
    ALL = frozenset(kindof)
    acc = {}
    for r in F.records.values():
        for m in r['methods']: acc[m['id']] = m.get('acc')
    entry = {f['id']: ALL for f in fs}
    def external(f):
        if f.get('lambda'): return False
        if f.get('cls') is None: return not f.get('static') and not calls.get(f['id'])
        a = f.get('acc', acc.get(f['id']))
        return not (a in (1, 2)) or f['kind'] == 'dtor'
    ch = True
    for f in fs:
        if external(f): entry[f['id']] = frozenset()
    while ch:
        ch = False
        for f in fs:
            if not entry[f['id']]: continue
            e = entry[f['id']]
            for g, held, n in calls.get(f['id'], []): e = e & (frozenset(h[:2] for h in held) | entry[g['id']])
            if e != entry[f['id']]: entry[f['id']] = e; ch = True
    def inits(f, cls):
        """construction and destruction of the object itself: nobody else has it"""
        c = F.records.get(f.get('cls'))
        return c is not None and (c['tn'] == cls or c['tn'] in STARTUP) and f['kind'] in ('ctor', 'dtor')
    written = set()
    for f in fs:
        for x in fn_nodes(f):
            t = None
            if x[0] == 'asg': t = x[4]
            elif x[0] == 'un' and x[3] in ('++', '--', 'p++', 'p--', '&'): t = x[4]
            elif x[0] == 'mcall' and not x[10]: t = x[5]
            elif x[0] == 'opcall' and x[6]: t = x[6][0]
            L.views = {}
            r = L.root(t) if t is not None else None
            if r and not inits(f, r[0]): written.add(r[:2])
    for f in fs:
        seen = set()
        for ev in EV[f['id']]:
            if ev[0] == 'acc':
                cls, name, base = ev[1]
                if inits(f, cls) and (base is None or base[:1] == ('this',)): continue
                if (f['qn'], name) in HANDOUT and ev[2][0] == 'ref' and ev[2][3] in ('var', 'param'): continue
                if (cls, name) not in written: 
                    rep.count('accesses to data never written after construction'); continue
                rep.count('accesses to shared data')
                ok = any(h[0] == cls and (h[2] is None or base is None or h[2] == base or BAD in (h[2], base)) for h in ev[3]) or any(l[0] == cls for l in entry[f['id']])
                rep.ob(ok)
                if not ok: rep.violation('%s %s.%s' % (W(f, ev[2]), cls, name), '%s: %s uses %s::%s without holding %s' % (W(f, ev[2]), f['qn'], cls, name, ' or '.join(n for n, _, _ in L.locks[cls])))
            elif ev[0] == 'leak': rep.violation('%s leak %s' % (W(f, ev[2]), ev[1][1]), '%s: %s ends while it still holds %s::%s' % (W(f, ev[2]), f['qn'], ev[1][0], ev[1][1]))
            elif ev[0] == 'esc':
                cls, name, _ = ev[1]
                rep.count('references handed out')
                if (f['qn'], name) in HANDOUT or f['kind'] != 'func' and f.get('acc', acc.get(f['id'])) in (1, 2): continue
                if (cls, name) not in written: continue
                rep.violation('%s escape %s' % (W(f, ev[2]), name), '%s: %s hands out a reference into %s::%s, which is then used without its lock' % (W(f, ev[2]), f['qn'], cls, name))
    # locks a function may take, directly or through calls
    takes = {f['id']: {ev[1][:2]: (f, ev[2]) for ev in EV[f['id']] if ev[0] == 'acq'} for f in fs}
    ch = True
    while ch:
        ch = False
        for u, cs in calls.items():
            if u not in takes or not takes[u]: continue
            for g, _, n in cs:
                t = takes[g['id']]
                for l in takes[u]:
                    if l not in t: t[l] = (g, n); ch = True
    order = {}
    for f in fs:
        for ev in EV[f['id']]:
            if ev[0] == 'acq': new = {ev[1][:2]}
            elif ev[0] == 'call' and ev[1] in takes: new = set(takes[ev[1]])
            else: continue
            held = {h[:2] for h in ev[3]} | set(entry[f['id']] if entry[f['id']] != ALL else ())
            for l in new:
                if ev[0] == 'acq': rep.count('acquisitions'); rep.ob()
                for h in held:
                    if h == l:
                        if 'recursive' not in kindof[l]: rep.violation('%s twice %s' % (W(f, ev[2]), l[1]), '%s: %s takes %s::%s while it is already held' % (W(f, ev[2]), f['qn'], l[0], l[1]))
                    else: order.setdefault(h, {}).setdefault(l, (f, ev[2]))
    def reach(a, b, seen):
        if a == b: return True
        seen.add(a)
        return any(x not in seen and reach(x, b, seen) for x in order.get(a, ()))
    for a in order:
        for b, (f, n) in order[a].items():
            rep.count('ordered pairs of locks')
            if reach(b, a, set()): rep.violation('order %s %s' % (a[0], b[0]), '%s: %s takes %s::%s while it holds %s::%s, elsewhere the order is the opposite' % (W(f, n), f['qn'], b[0], b[1], a[0], a[1]))
    spin(rep, F)
    # every other variable shared by the process
    E = Effects(F); E.run([f for f in fs if f['body'] is not None and not f.get('lambda')])
    lockcls = set(L.locks)
    shared = {}
    for f in fs:
        if f['body'] is None or f.get('lambda'): continue
        for r, w in E.get(f)['W'].items():
            if r[0] == 'G':
                g = F.globals.get(r[1]); n = r[2]
                if n.startswith('std::') or n in ('stderr', 'stdout', 'stdin'): continue
                if g is not None and g['t'].get('tn', '').startswith('std::atomic'): continue
                if r[1] in L.static or n in CONFIG: continue
                shared.setdefault(n, (w, f))
            elif r[0] == 'S':
                lf = E.leaf(w); shared.setdefault('static %s in %s' % (r[2], r[1]), (w, f))
    rep.counts['shared variables written at run time'] = len(shared)
    for n, (w, f) in sorted(shared.items()):
        if n.startswith('static '):
            # a singleton: its members are decided one by one
            name, fn = n[7:].split(' in ')
            g = next((x for x in fs if x['qn'] == fn), None)
            t = None
            for x in (fn_nodes(g) if g else ()):
                if x[0] == 'decl':
                    for b in x[2]:
                        if b[0] == name or b[1] == name: t = b[2]
                elif x[0] == 'ref' and x[3] == 'slocal' and (x[5] == name or x[4] == name): t = t or x[2]
            R = F.records.get(t.get('rec')) if t is not None and t['k'] == 'rec' else None
            if R is not None and R['tn'] in lockcls: continue
            if R is not None:
                bad = None
                for h in fs:
                    if inits(h, R['tn']): continue
                    for x in fn_nodes(h):
                        tgt = x[4] if x[0] == 'asg' or x[0] == 'un' and x[3] in ('++', '--', 'p++', 'p--') else x[5] if x[0] == 'mcall' and not x[10] else None
                        if tgt is not None and tgt[0] == 'mem' and tgt[6] == R['id'] and (R['tn'], tgt[4]) not in CONFIG_FIELDS and not tgt[2].get('tn', '').startswith('std::atomic'): bad = (h, x, tgt[4])
                rep.ob(not bad)
                if bad: rep.violation('%s shared %s' % (W(bad[0], bad[1]), bad[2]), '%s: %s writes %s of the only %s object without synchronisation' % (W(bad[0], bad[1]), bad[0]['qn'], bad[2], R['tn']))
                continue
        lf = E.leaf(w)
        rep.ob(False)
        rep.violation('%s:%d shared %s' % (rel(lf[0]), lf[1], n), '%s:%d: %s, shared by all threads, is written without synchronisation (reached from %s: %s)' % (rel(lf[0]), lf[1], n, f['qn'], E.chain(w)))
    rep.floor('accesses to shared data', 40); rep.floor('locks', 3); rep.floor('acquisitions', 10)
    return rep.finish()
def spin(rep, F):
    """user defined locks: lock() waits until an acquiring exchange succeeded, unlock() releases"""
    ORD = {'memory_order_relaxed', 'memory_order_consume'}
    for r in F.records.values():
        if lock_type(F, dict(k='rec', tn=r['tn'], rec=r['id'])) is None or r['tn'].startswith('std::'): continue
        rep.count('user defined locks')
        for f in F.methods_of.get(r['id'], []):
            if f['name'] not in ('lock', 'unlock') or f['body'] is None: continue
            good = False; weak = None
            loops = [x for x in walk(f['body']) if x[0] in ('while', 'do', 'for')]
            for x in walk(f['body']):
                if x[0] != 'mcall': continue
                nm = x[4].rsplit('::', 1)[-1]
                if nm not in ('test_and_set', 'exchange', 'compare_exchange_weak', 'compare_exchange_strong', 'clear', 'store', 'lock', 'unlock'): continue
                o = [str(y[4]) for a in x[6] if a is not None for y in walk(a) if y[0] == 'int' and len(y) > 4 and 'memory_order' in str(y[4])][:1]
                if o and o[0].split('::')[-1] in ORD: weak = (x, 'relaxed')
                if o and f['name'] == 'lock' and o[0].endswith('memory_order_release'): weak = (x, 'releasing only')
                if o and f['name'] == 'unlock' and o[0].endswith('memory_order_acquire'): weak = (x, 'acquiring only')
                if f['name'] == 'lock' and nm in ('test_and_set', 'exchange', 'compare_exchange_weak', 'compare_exchange_strong', 'lock'): good = good or any(any(z is x for z in walk(l)) for l in loops) or nm == 'lock'
                if f['name'] == 'unlock' and nm in ('clear', 'store', 'unlock'): good = True
            rep.ob(good and not weak)
            if weak: rep.violation('%s order' % f['qn'], '%s:%d: %s uses a %s operation: the protected data is not ordered by the lock' % (rel(f['file']), weak[0][1], f['qn'], weak[1]))
            elif not good: rep.violation('%s' % f['qn'], '%s:%d: %s does not %s' % (rel(f['file']), f['line'], f['qn'], 'wait until it has the lock' if f['name'] == 'lock' else 'release the lock'))
if __name__ == '__main__': main(run, 'P09')
