from check_life import *
from width import *
def roots(F):
    """tokens that can be as large as the input: sizes, positions and symbols handed to a structure, stored sizes"""
    R = {}
    for r in F.records.values():
        ser = any(m['n'] in ('serialize', 'load') for m in r['methods'])
        for f in r['fields']:
            if f['n'] == 'm_size' and wide(f['t']): R[('F', r['tn'], 'm_size')] = 'member m_size of ' + r['tn']
        if not ser and r['tn'] not in ('sdsl::int_vector_buffer', 'sdsl::int_vector_mapper'): continue
        for f in F.methods_of.get(r['id'], []):
            if f.get('acc') not in (0, None): continue
            if f['kind'] not in ('method', 'ctor'): continue
            for i, p in enumerate(f['params']):
                t = strip_ref(p[2])
                if wide(t): R[('P', f['id'], i)] = 'argument %s of %s' % (p[1], f['qn'])
    return R
def run():
    rep = Report('P07')
    rep.rule = 'no value whose magnitude can come from a size, position or symbol of the input is converted to, counted in, or shifted in fewer than 64 bits unless it has been reduced or compared before'
    F = load_facts(); W = Width(F)
    for f in list(F.functions.values()):
        if f['body'] is not None or f.get('inits'): W.summary(f)
    R = roots(F); par = {}
    for t in W.tokens():
        if t[0] == 'Q': R[t] = 'an answer of %s::%s' % (t[1], t[2])
    todo = list(R); seen = set(R)
    while todo:
        t = todo.pop()
        for u, loc in W.edges.get(t, {}).items():
            if u not in seen: seen.add(u); par[u] = (t, loc); todo.append(u)
    def chain(t):
        if t[0] == 'E': return 'an element of a container of 64 bit values'
        if t[0] == 'Q': return 'an answer of %s::%s' % (t[1], t[2])
        out = []
        while t in par and len(out) < 8: 
            u, loc = par[t]; out.append('%s:%d' % (rel(loc[0]), loc[1])); t = u
        return R.get(t, str(t)) + ''.join(' -> ' + x for x in reversed(out))
    for (file, line, kind), (toks, text, qn) in sorted(W.cuts.items()):
        bad = [t for t in (x[1] if x[0] == 'D' else x for x in sorted(toks, key=repr)) if t in seen or t[0] == 'Q' or t == ('ALWAYS',) or t[0] == 'E' and t[1] not in W.smallcont and len(W.widths.get((file, line), ())) < 2 and not W.eprod.get((file, line), set()) - W.enarrow.get((file, line), set())]
        if bad: rep.violation('%s:%d %s' % (rel(file), line, kind), '%s:%d: in %s a value that can be as large as %s %s' % (rel(file), line, qn, chain(bad[0]) if bad[0] != ('ALWAYS',) else 'any 64 bit value', text))
    for k, v in W.n.items(): rep.count(k, v)
    rep.count('size and position roots', len(R)); rep.count('position like values', len(seen))
    rep.obligations = W.n['conversions'] + W.n['loops'] + W.n['shifts']; rep.discharged = rep.obligations - len(rep.viol)
    rep.floor('functions', 3000); rep.floor('conversions', 100)
    return rep.finish()
if __name__ == '__main__': main(run, 'P07')
