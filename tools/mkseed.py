"""mkseed.py SPEC.py...: create /verif/seeded/<id>/ from a small spec file defining id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ text),
flags; then confirm: applies, builds, stable tests pass, demo passes unpatched and fails patched.  Restores /repo."""
import sys, os, json, subprocess
R, V = '/repo', '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
def demo(d): 
    p = sh('bash %s/demo.sh' % d, cwd=R, timeout=300); return p.returncode, (p.stdout + p.stderr)[-300:]
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g)
    d = '%s/seeded/%s' % (V, g['id']); os.makedirs(d, exist_ok=True)
    assert not sh('git status --porcelain', cwd=R).stdout.strip(), 'repo dirty'
    try:
        for fn, old, new in g['edits']:
            s = open(R + '/' + fn).read(); assert s.count(old) == 1, (fn, s.count(old), old); open(R + '/' + fn, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
    finally: sh('git checkout -- .', cwd=R)
    open(d + '/demo.cpp', 'w').write(g['demo'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository, after the build; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -w %s -I. "$here/demo.cpp" %s -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
''' % (g.get('flags', '-O1'), ' '.join(g.get('srcs', []))))
    json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
    sh('bash /opt/vp/build.sh')
    a = demo(d)
    sh('git apply %s/patch.diff' % d, cwd=R)
    try:
        b = sh('bash /opt/vp/build.sh').returncode
        sh('bash /opt/vp/test.sh /tmp/w/out.json')
        o = json.load(open('/tmp/w/out.json')); ok = set(base.get('passed') or base.get('stable') or base) <= set(o['passed'])
        c = demo(d)
    finally: sh('git checkout -- .', cwd=R); sh('bash /opt/vp/build.sh')
    print(g['id'], 'demo clean', a[0], 'build', b, 'tests', 'pass' if ok else 'FAIL', 'demo patched', c[0], a[1] if a[0] else '', '| patched says:', c[1].strip()[:150])
    keep = a[0] == 0 and b == 0 and ok and c[0] != 0
    if not keep: print('   NOT KEPT'); sh('rm -rf %s' % d)
