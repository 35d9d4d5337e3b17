"""Shared driver: extraction of /repo's current sources, reporting, evidence, known findings."""
import os, sys, json, time, subprocess, tempfile, shutil, glob, hashlib, fcntl
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SDSL_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)
import facts as facts_mod

FLAGS = ['-std=c++11', '-DNDEBUG', '-DMODE_TI', '-DHAVE_CXA_DEMANGLE', '-w', '-ferror-limit=0']
EXTRACT = os.path.join(HERE, 'build', 'extract')

class Broken(Exception):
    """the analysis itself cannot give an answer (exit 2)"""

def build_extractor():
    src = os.path.join(HERE, 'tool', 'extract.cpp')
    os.makedirs(os.path.dirname(EXTRACT), exist_ok=True)
    stamp = EXTRACT + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    with open(EXTRACT + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h: return
        cfg = shutil.which('llvm-config-18') or shutil.which('llvm-config') or '/usr/lib/llvm-18/bin/llvm-config'
        cxx = subprocess.check_output([cfg, '--cxxflags'], text=True).split()
        cxx = [f for f in cxx if not f.startswith('-std=')]
        libdir = subprocess.check_output([cfg, '--libdir'], text=True).strip()
        libs = sorted(glob.glob(libdir + '/libclang-cpp.so*')) + sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*'))
        if not libs: raise Broken('no libclang-cpp')
        tmp = EXTRACT + '.tmp%d' % os.getpid()
        cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-w'] + cxx + [src, '-o', tmp, '-L' + libdir, libs[0], '-lLLVM-18', '-Wl,-rpath,' + libdir]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Broken('extractor build failed: ' + r.stderr[-2000:])
        os.rename(tmp, EXTRACT)
        open(stamp, 'w').write(h)

def headers():
    return sorted(os.path.basename(p) for p in glob.glob(REPO + '/include/sdsl/*.hpp'))

def make_all_hpp(d):
    with open(os.path.join(d, 'all.hpp'), 'w') as f:
        for h in headers(): f.write('#include <sdsl/%s>\n' % h)

def resource_dir():
    return subprocess.check_output(['clang++', '-print-resource-dir'], text=True).strip()

def include_flags(d):
    # the generated config/headers of the build are not needed: the library is header + lib only
    return ['-I' + REPO + '/include', '-I' + d, '-I' + os.path.join(HERE, 'units')]

def load_facts(units=None, libs=True, extra_flags=()):
    """extract and merge; units: list of names in /verif/units (None = all)"""
    dev = os.environ.get('SDSL_FACTS_DIR')     # development only: reuse a directory of extracted facts
    F = facts_mod.Facts()
    if dev:
        for p in sorted(glob.glob(dev + '/*.json')): F.add_unit(os.path.basename(p)[:-5], p)
        F.finish(); return F
    build_extractor()
    d = tempfile.mkdtemp(prefix='sdsl-facts-')
    try:
        make_all_hpp(d)
        src = []
        for u in sorted(glob.glob(os.path.join(HERE, 'units', 'u_*.cpp'))):
            if units is None or os.path.basename(u)[:-4] in units: src.append(u)
        if libs: src += sorted(glob.glob(REPO + '/lib/*.cpp'))
        rd = resource_dir()
        procs = []
        pend = list(src); run = []
        outs = []
        def reap(block):
            for i, (p, n, o, e) in enumerate(list(run)):
                if p.poll() is None: continue
                run.remove((p, n, o, e)); outs.append((n, o, p.returncode, e))
        while pend or run:
            while pend and len(run) < 8:
                s_ = pend.pop(0); n = os.path.basename(s_)[:-4]
                o = os.path.join(d, n + '.json'); e = os.path.join(d, n + '.err')
                cmd = [EXTRACT, s_, '-root', REPO + '/', '-o', o, '--'] + FLAGS + list(extra_flags) + include_flags(d) + ['-resource-dir', rd]
                run.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(e, 'w')), n, o, e))
            reap(True); time.sleep(0.02)
        errs = {}
        for n, o, rc, e in sorted(outs):
            if rc not in (0, 3) or not os.path.exists(o): raise Broken('extraction of unit %s failed (rc %s): %s' % (n, rc, open(e).read()[-1500:]))
            F.add_unit(n, o)
            if rc == 3: errs[n] = [l for l in open(e).read().splitlines() if ': error:' in l or 'fatal error' in l]
        F.unit_errors = errs
        F.finish()
        return F
    finally:
        if os.environ.get('SDSL_FACTS_KEEP'):     # development only
            shutil.copytree(d, os.environ['SDSL_FACTS_KEEP'], dirs_exist_ok=True)
        shutil.rmtree(d, ignore_errors=True)

def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path

# --------------------------------------------------------------------------------------------- reporting
class Report:
    def __init__(s, pid, title=''):
        s.pid = pid; s.t0 = time.time()
        s.viol = []      # (key, text)
        s.counts = {}
        s.samples = []
        s.notes = []
        s.assumptions = []
        s.incomplete = []
        s.obligations = 0
        s.discharged = 0
        s.min = {}
        s.rule = ''
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def floor(s, k, n): s.min[k] = n
    def ob(s, ok=True):
        s.obligations += 1
        if ok: s.discharged += 1
    def violation(s, key, text):
        """key: stable identity of the failing construct (used by the known-findings file)"""
        if not any(k == key for k, _ in s.viol): s.viol.append((key, text))
    def known(s):
        res = {}
        p = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('finding: property=' + s.pid + ' '):
                    rest = l[len('finding: property=' + s.pid + ' '):]
                    key, _, desc = rest.partition(' :: ')
                    res[key.strip()] = desc
        return res
    def finish(s, level='other', explanation=''):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        known = s.known()
        new = [(k, t) for k, t in s.viol if k not in known]
        old = [(k, t) for k, t in s.viol if k in known]
        broken = []
        for k, n in s.min.items():
            if s.counts.get(k, 0) < n: broken.append('%s: %d analysed, at least %d expected' % (k, s.counts.get(k, 0), n))
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        cov = {'explanation': explanation or s.rule, 'obligations': s.obligations, 'discharged': s.discharged}
        cov.update(s.counts)
        if s.samples: cov['samples'] = s.samples[:40]
        if s.incomplete: cov['not_decided'] = s.incomplete[:60]
        ev = {'property': s.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
              'coverage': cov, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new), 'assumptions': s.assumptions}
        json.dump(ev, open(os.path.join(HERE, 'evidence', s.pid + '.json'), 'w'), indent=1, sort_keys=True)
        print('property %s: %s' % (s.pid, s.rule))
        for k in sorted(s.counts): print('  analysed %-46s %d' % (k, s.counts[k]))
        print('  obligations %d, discharged %d' % (s.obligations, s.discharged))
        for x in s.incomplete[:10]: print('  not decided: ' + x)
        for k, t in old: print('KNOWN-FINDING: property=%s %s [%s]' % (s.pid, known[k], k))
        if new:
            path = os.path.join(HERE, 'evidence', s.pid + '.violations.txt')
            with open(path, 'w') as f:
                for k, t in new: f.write('[%s]\n%s\n\n' % (k, t))
            for k, t in new[:25]: print('  [%s] %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (s.pid, path))
            return 1
        if broken:
            for b in broken: print('ANALYSIS-BROKEN: ' + b)
            return 2
        return 0

def main(fn, pid):
    try:
        rc = fn()
    except Broken as e:
        print('ANALYSIS-BROKEN: %s' % e); rc = 2
    sys.exit(rc)
