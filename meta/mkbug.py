"""Development helper: python3 meta/mkbug.py spec.py  - spec defines BUGS = [dict(id, property, needs, breaks, edits={file:[(old,new)]}, demo=cpp source, flags='')]
Writes seeded/<id>/ and confirms that the demonstration passes without and fails with the change."""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    d = os.path.join(HERE, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='bug-')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.check_call('git -C /repo archive HEAD include lib | tar -x -C ' + t, shell=True)
        for f, eds in b['edits'].items():
            p = os.path.join(t, f); s = open(p).read()
            for o, n in eds:
                assert s.count(o) >= 1, (b['id'], f, o)
                if s.count(o) > 1: print('  note: %s: %d matches, first used' % (b['id'], s.count(o)))
                s = s.replace(o, n, 1)
            open(p, 'w').write(s)
        patch = ''
        for f in b['edits']:
            r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f, os.path.join(t, f)], capture_output=True, text=True)
            patch += 'diff --git a/%s b/%s\n' % (f, f) + r.stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if r.returncode: print(b['id'], 'patch does not apply', r.stderr); continue
        if 'bad' in b:
            for k in ('bad', 'good'): open(os.path.join(d, k + '.cpp'), 'w').write(b[k] + '\n')
            open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd = the repository root: the legal program has to compile, the illegal one must not
D=$(cd "$(dirname "$0")" && pwd)
C="g++ -std=c++11 -w -fsyntax-only -I $PWD/include"
$C "$D/good.cpp" || exit 3
if $C "$D/bad.cpp" 2> /dev/null; then echo "the illegal program compiles"; exit 1; fi
exit 0
''')
        else:
          open(os.path.join(d, 'demo.cpp'), 'w').write(b['demo'])
          open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd = the repository root; builds the demonstration against its sources in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -g -w %s -I "$PWD/include" "$D/demo.cpp" lib/*.cpp -ldivsufsort -ldivsufsort64 -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo "$T"
''' % b.get('flags', ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = subprocess.run([os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        c = subprocess.run([os.path.join(d, 'demo.sh')], cwd=t, capture_output=True, text=True)
        print('%-28s clean rc=%d  patched rc=%d  %s' % (b['id'], a.returncode, c.returncode, 'OK' if a.returncode == 0 and c.returncode not in (0, 3) else 'BAD'))
        if a.returncode: print(a.stdout[-800:], a.stderr[-1500:])
        if c.returncode == 3: print(c.stderr[-1500:])
    finally: shutil.rmtree(t)
