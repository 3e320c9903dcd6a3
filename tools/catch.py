"""catch.py [id...]: apply each planted bug to /repo, run its property's check, undo; print caught / missed"""
import sys, os, json, subprocess, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i; m = json.load(open(d + '/meta.json'))
    assert not subprocess.run('git status --porcelain', shell=True, cwd='/repo', capture_output=True, text=True).stdout.strip()
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd='/repo', check=True)
    t = time.time()
    try: p = subprocess.run(['python3-vt', '/verif/check.py', m['property']], cwd='/verif', capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally: subprocess.run('git checkout -- .', shell=True, cwd='/repo')
    v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
    f = [l for l in p.stdout.split('\n') if l.startswith('FAIL') or 'FAILED obl' in l]
    print(i, 'rc', p.returncode, 'caught' if v else 'MISSED', v[0][-30:] if v else p.stdout[-300:], '%.0fs' % (time.time() - t), f[:2]); sys.stdout.flush()
