from check_life import *
import p18
from definit import DefInit, ALL
def in_scope(F, R):
    ser = any(m['n'] in ('serialize', 'load') for m in R['methods'])
    nested = any(o['tn'] == R['tn'].rsplit('::', 1)[0] for o in F.records.values()) if R['tn'].count('::') > 1 else False
    if ser or 'iterator' in R['tn']: return True
    return not nested and not R['sp'].get('nouctor')
def run():
    rep = Report('P06')
    rep.rule = 'every constructor of every class, explicit or generated, gives every scalar and pointer member a value on every path to its end; no function reads a local variable before it has a value'
    F = load_facts()
    D = DefInit(F)
    for R in sorted(F.records.values(), key=lambda r: r['name']):
        if R.get('lambda') or R.get('union') or not R['tn'].startswith('sdsl::'): continue
        sc = [f for f in D.scalars(R) if 'init' not in f]
        if not sc: continue
        if not in_scope(F, R): continue
        rep.count('classes with scalar members')
        ctors = [f for f in F.methods_of.get(R['id'], []) if f['kind'] == 'ctor' and not f.get('deleted')]
        ms = [m for m in R['methods'] if m.get('sp') == 'dctor' and not m.get('del')]
        user = [c for c in ctors if not c.get('defaulted') and (c['body'] is not None or c.get('inits') is not None)]
        for c in user:
            d = D.effect(c)
            rep.count('constructors')
            for f in sc:
                ok = d is ALL or f['n'] in d
                rep.ob(ok)
                if not ok: rep.violation('%s %s@%d' % (R['tn'], f['n'], c['line']), '%s:%d: constructor %s of %s does not initialise member %s (%s:%d) on every path' % (rel(c['file']), c['line'], c['name'] + '(' + ', '.join(p[2]['s'] for p in c['params'])[:80] + ')', R['tn'], f['n'], rel(R['file']), f['l']))
        gen = [m for m in ms if m.get('impl') or m.get('dft')]
        if gen:
            rep.count('generated default constructors')
            for f in sc:
                rep.ob(False)
                rep.violation('%s %s@gen' % (R['tn'], f['n']), '%s:%d: the generated default constructor of %s leaves member %s indeterminate' % (rel(R['file']), f['l'], R['tn'], f['n']))
    # local variables: flow analysis of the compiler on every instantiated function
    p18.check_programs(rep, ['-Werror=uninitialized', '-Werror=sometimes-uninitialized', '-Wno-uninitialized-const-reference'], '', only='uninitialized', lib=True)
    rep.floor('constructors', 150); rep.floor('structures', 50)
    return rep.finish()
if __name__ == '__main__': main(run, 'P06')
