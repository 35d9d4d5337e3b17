from check_life import *
from effects import Effects
def structures(F):
    ids = set()
    for r in F.records.values():
        if any(m['n'] == 'serialize' for m in r['methods']): ids.add(r['id'])
    return ids
def mutable_by_design(F, f):
    # a buffer over a file and its element proxies; stream buffers
    c = F.records.get(f['cls'])
    n = c['tn'] if c else ''
    return n.startswith('sdsl::int_vector_buffer') or n.startswith('sdsl::ram_filebuf')
def exempt_state(F, r):
    n = r[1] if r[0] == 'S' else r[2]
    # standard streams; memory accounting and the in-memory file system: shared by design, their discipline is P09
    if n.startswith('std::') or n in ('stderr', 'stdout', 'stdin'): return True
    g = F.globals.get(r[1]) if r[0] == 'G' else None
    if g is not None and g['t'].get('tn', '').startswith('std::atomic'): return True
    return any(n.startswith('sdsl::' + x) for x in ('memory_monitor::', 'memory_manager::', 'hugepage_allocator::', 'ram_fs'))
def run():
    rep = Report('P05')
    F = load_facts()
    E = Effects(F)
    S = structures(F)
    Q = [f for f in F.functions.values() if f.get('cls') and f.get('const') and f['body'] is not None and f['kind'] in ('method', 'conv') and not f.get('lambda')]
    fr = []
    for f in F.functions.values():
        if f['kind'] != 'func' or f['body'] is None or not f['qn'].startswith('sdsl::'): continue
        if any(p[2]['k'] == 'ref' and p[2]['pt'] and p[2]['pt'].get('c') and p[2]['pt'].get('rec') in S for p in f['params']): fr.append(f)
    E.run(Q + fr)
    rep.rule = 'no const operation of a structure and no function that takes a structure by constant reference writes, on any call path, to the structure, to memory its pointers lead to, or to static state'
    for f in Q: rep.count('const member functions')
    for f in fr: rep.count('functions with constant structure parameters')
    rep.counts['function summaries computed'] = len(E.sum); rep.counts['structures'] = len(S)
    def state(r): return r[1] if r[0] == 'S' else r[2]
    for f in Q + fr:
        sm = E.get(f); bad = []
        for r, w in sm['W'].items():
            if r[0] == 'T':
                if mutable_by_design(F, f): rep.count('exempt: views with write access by design'); continue
                bad.append((r, w, 'the object itself' if r[1] == 0 else 'memory reached through a pointer of the object'))
            elif r[0] == 'P':
                p = f['params'][r[1]][2]
                if p['k'] == 'ref' and p['pt'] and p['pt'].get('c') and p['pt'].get('rec') in S: bad.append((r, w, 'the constant argument ' + f['params'][r[1]][1]))
            elif r[0] in 'GS':
                if exempt_state(F, r): continue
                bad.append((r, w, 'static state ' + state(r)))
        rep.ob(not bad)
        for r, w, what in bad:
            lf = E.leaf(w)
            rep.violation('%s:%d -> %s' % (rel(lf[0]), lf[1], r[0] if r[0] in 'TP' else state(r)), '%s can write %s: %s' % (f['qn'], what, E.chain(w)))
    rep.floor('const member functions', 1500); rep.floor('functions with constant structure parameters', 500)
    return rep.finish()
if __name__ == '__main__': main(run, 'P05')
