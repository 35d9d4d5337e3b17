"""Constant tables: every entry equals its definition.  The entries are what the compiler folds the initialisers to."""
from common import *
M64 = (1 << 64) - 1
def hi(i): return max(0, i.bit_length() - 1)
def lo(i): return (i & -i).bit_length() - 1 if i else 0
def sel(k):
    j, i = divmod(k, 256)
    p = [b for b in range(8) if i >> b & 1]
    return p[j] if j < len(p) else 0
def fib(n):
    a, b = 1, 2; out = []
    while len(out) < n: out.append(a); a, b = b, a + b
    return out
def bytes8(v): return sum((v & 255) << (8 * k) for k in range(8))
# (qualified name, number of entries, definition of an entry, words)
TABLES = [
 ('lt_cnt', 256, lambda i: bin(i).count('1'), 'number of set bits of byte %d'),
 ('lt_hi', 256, hi, 'position of the highest set bit of byte %d'),
 ('lt_lo', 256, lo, 'position of the lowest set bit of byte %d'),
 ('lt_sel', 2048, sel, 'entry %d: position of the (j+1)-th set bit of byte i, index 256*j+i'),
 ('lo_set', 65, lambda i: (1 << i) - 1, 'word with the %d lowest bits set'),
 ('lo_unset', 65, lambda i: M64 ^ ((1 << i) - 1), 'word with all but the %d lowest bits set'),
 ('ps_overflow', 65, lambda i: bytes8(128 - i), 'eight bytes 128-%d'),
 ('lt_fib', 92, None, 'Fibonacci number %d'),
]
KEYVAR = {'KEY_BWT', 'KEY_BWT_INT', 'KEY_SA', 'KEY_CSA', 'KEY_CST', 'KEY_ISA', 'KEY_TEXT', 'KEY_TEXT_INT', 'KEY_PSI', 'KEY_LCP', 'KEY_SAMPLE_CHAR'}

def glob_of(e):
    while isinstance(e, (list, tuple)) and e and e[0] in ('cast', 'paren', 'icast'): e = e[4]
    if isinstance(e, (list, tuple)) and e and e[0] == 'ref' and e[3] == 'glob': return e[4]
    return None

def run():
    rep = Report('P16')
    rep.rule = 'every entry of every constant table that is written out in the source has the value of its definition; the names of stored intermediate results are distinct and belong to the kind of alphabet they are used for'
    F = load_facts(units=['u_csa'])
    by = {}
    for g in F.globals.values(): by.setdefault(g['qn'], []).append(g)
    def one(name):
        c = by.get('sdsl::bits::' + name, [])
        c = [g for g in c if g.get('vals')]
        return c[0] if c else None
    for name, n, fn, words in TABLES:
        g = one(name)
        if g is None: rep.incomplete.append('bits::%s: not a constant the compiler can fold' % name); continue
        v = [int(x) for x in g['vals']]
        rep.count('tables')
        want = fib(n) if fn is None else [fn(i) for i in range(n)]
        if len(v) < n:
            rep.ob(False); rep.violation('bits::%s size' % name, '%s:%d: bits::%s has %d entries, %d are defined' % (rel(g['file']), g['line'], name, len(v), n))
        for i in range(min(n, len(v))):
            if fn is None and want[i] > M64: rep.incomplete.append('lt_fib[%d]' % i); continue
            rep.count('table entries'); ok = v[i] == want[i]; rep.ob(ok)
            if not ok: rep.violation('bits::%s[%d]' % (name, i), '%s:%d: bits::%s[%d] is %d (0x%x), but %s is %d (0x%x)' % (rel(g['file']), g['line'], name, i, v[i], v[i], words % i, want[i], want[i]))
    # de Bruijn sequence and its inverse
    d, t = one('deBruijn64'), one('lt_deBruijn_to_idx')
    if d and t:
        D = int(d['vals'][0]) & M64; v = [int(x) for x in t['vals']]
        rep.count('tables')
        seen = {}
        for k in range(64):
            s = ((D << k) & M64) >> 58
            rep.count('table entries'); ok = s not in seen; rep.ob(ok)
            if not ok: rep.violation('bits::deBruijn64 %d' % k, '%s:%d: the 6 bit windows of bits::deBruijn64 at %d and %d are equal, so it is no de Bruijn sequence' % (rel(d['file']), d['line'], seen[s], k)); continue
            seen[s] = k
            rep.count('table entries'); ok = s < len(v) and v[s] == k; rep.ob(ok)
            if not ok: rep.violation('bits::lt_deBruijn_to_idx[%d]' % s, '%s:%d: bits::lt_deBruijn_to_idx[%d] is %s, but the window with value %d starts at position %d of the sequence' % (rel(t['file']), t['line'], s, v[s] if s < len(v) else 'missing', s, k))
    else: rep.incomplete.append('bits::deBruijn64 / lt_deBruijn_to_idx not foldable')
    a = one('all_set')
    if a:
        rep.count('tables'); rep.count('table entries'); ok = int(a['vals'][0]) & M64 == M64; rep.ob(ok)
        if not ok: rep.violation('bits::all_set', '%s:%d: bits::all_set is not the word with all bits set' % (rel(a['file']), a['line']))
    # names of cached files
    keys = {}
    for g in F.globals.values():
        n = g['qn'].rsplit('::', 1)[-1]
        if g['qn'].startswith('sdsl::conf::KEY_') and g.get('vals'):
            s = ''.join(chr(int(c) & 255) for c in g['vals']).rstrip('\0')
            keys[g['id']] = (n, s, g)
    inv = {}
    for i, (n, s, g) in sorted(keys.items()):
        rep.count('file keys'); ok = s not in inv and s != ''; rep.ob(ok)
        if not ok: rep.violation('key ' + n, '%s:%d: %s and %s both name "%s": one intermediate result overwrites the other' % (rel(g['file']), g['line'], n, inv.get(s, 'an empty key'), s))
        inv.setdefault(s, n)
    for g in F.globals.values():
        q = g['qn']
        if '_trait' not in q or not q.rsplit('::', 1)[-1].startswith('KEY_'): continue
        k = keys.get(glob_of(g['init']))
        if k is None: rep.incomplete.append('%s: not initialised with a key' % q); continue
        base = q.rsplit('::', 1)[-1]; width = 8 if 'Vc8' in g['id'] else 0 if 'Vc0' in g['id'] else None
        if width is None: continue
        want = base + ('' if width == 8 else '_INT')
        rep.count('alphabet keys'); ok = k[0] == want; rep.ob(ok)
        if not ok: rep.violation('trait %s %d' % (q, width), '%s:%d: %s of %s alphabets is %s instead of %s' % (rel(g['file']), g['line'], base, 'byte' if width == 8 else 'integer', k[0], want))
    rep.floor('table entries', 300)
    return rep.finish()
if __name__ == '__main__': main(run, 'P16')
