from common import *
from witness import W
import concurrent.futures as cf
def run():
    rep = Report('P22')
    rep.rule = 'every witness program that breaks a compile time contract is rejected by the compiler, its valid twin is accepted'
    d = tempfile.mkdtemp(prefix='sdsl-wit-')
    try:
        make_all_hpp(d)
        base = ['clang++'] + FLAGS + include_flags(d)
        open(d + '/pre.hpp', 'w').write('#include "all.hpp"\nusing namespace sdsl;\n')
        r = subprocess.run(base + ['-x', 'c++-header', d + '/pre.hpp', '-o', d + '/pre.pch'], capture_output=True, text=True)
        if r.returncode: raise Broken('headers do not compile: ' + r.stderr[-1500:])
        jobs = []
        for key, header, what, bad, good in W:
            for i, c in enumerate(good): jobs.append((key, header, what, True, i, c))
            for i, c in enumerate(bad): jobs.append((key, header, what, False, i, c))
        def one(j):
            n = jobs.index(j)
            p = '%s/w%d.cpp' % (d, n)
            open(p, 'w').write(j[5] + '\n')
            # code generation is needed: a member function of a template is only checked when it is instantiated
            r = subprocess.run(base + ['-fsyntax-only', '-include-pch', d + '/pre.pch', p], capture_output=True, text=True)
            return j, r.returncode, r.stderr
        with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
        goodok = {}
        for (key, header, what, good, i, code), rc, err in res:
            if good: goodok[key] = goodok.get(key, True) and rc == 0
        for (key, header, what, good, i, code), rc, err in res:
            rep.count('valid programs' if good else 'invalid programs')
            if good:
                rep.ob(rc == 0)
                if rc: rep.violation('valid/' + key + '/%d' % i, 'include/sdsl/%s: valid use `%s` is rejected: %s' % (header, code, first_error(err)))
            else:
                rep.ob(rc != 0)
                if rc == 0: rep.violation('invalid/' + key, 'include/sdsl/%s: %s is accepted by the compiler: `%s`' % (header, what, code))
    finally: shutil.rmtree(d, ignore_errors=True)
    rep.count('contracts', len(W))
    rep.samples = ['%s: %s' % (x[0], x[2]) for x in W[:40]]
    rep.floor('contracts', 60)
    return rep.finish()
def first_error(err):
    l = [x for x in err.splitlines() if ' error: ' in x]
    return (l[0] if l else err[-200:]).replace(REPO + '/', '')[:300]
if __name__ == '__main__': main(run, 'P22')
