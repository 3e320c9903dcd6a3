import sys, time
sys.path.insert(0, '/verif')
from engine import run, vc
import importlib
def main():
    mod = importlib.import_module('contracts.' + sys.argv[1])
    pats = sys.argv[2:]
    intr, pop = 1, 0
    tmo = int(__import__("os").environ.get("TMO", 60)) * 1000
    if '-n' in pats: pats.remove('-n'); intr = 0
    if '-p' in pats: pats.remove('-p'); pop = 1
    show = '-v' in pats
    if show: pats.remove('-v')
    env = run.Env(intr, pop)
    try:
        from contracts import all_contracts
        by = all_contracts()
    except ImportError:
        by = {c.name: c for c in mod.CONTRACTS}
    cons = [(c, env) for c in mod.CONTRACTS if not pats or any(p == c.name or (p.endswith('*') and c.name.startswith(p[:-1])) for p in pats)]
    t0 = time.time()
    res = run.verify(cons, None, by, tmo=tmo)
    tot = bad = 0
    for r in res:
        i = r['info']
        n = len(r['obls']); 
        fails = [o for o in r['obls'] if (o['result'] != 'unsat') != (o['kind'] in ('vacuity', 'cover'))]
        if show:
            fails_ = r['obls']
        st = sum(o['time'] for o in r['obls'])
        print('%-28s %-9s obls=%d fail=%d gen=%.1fs solve=%.1fs loops=%s/%s paths=%s %s' % (r['contract'].name, i['status'], n, len(fails), i['gen_s'], st, i.get('spec_loops'), i.get('loops'), i.get('npaths'), i.get('why', '')))
        if i['status'] != 'ok': print(i.get('tb', '')[-1200:])
        if i.get('loops', 0) != i.get('spec_loops', 0): print('   loops:', i.get('fingerprint'))
        seen = {}
        for o in fails:
            k = (o['name'], o['loc'])
            seen.setdefault(k, []).append(o)
        for k, os_ in seen.items():
            print('    FAIL %s @%s  x%d %s %s path=%s %.1fs' % (k[0], k[1], len(os_), os_[0]['result'], os_[0]['solver'], os_[0]['path'], os_[0]['time']))
            if show and os_[0]['model']: print('        ', {a: b for a, b in os_[0]['model'].items()})
        slow = sorted(r['obls'], key=lambda o: -o['time'])[:2]
        if slow and slow[0]['time'] > 5: print('    slow:', [(o['name'], o['loc'], round(o['time'], 1)) for o in slow])
        tot += n; bad += len(fails)
        import os as _os
        if _os.environ.get('DUMP'):
            for n_, o in enumerate(fails + [o for o in slow if o not in fails and o['time'] > 10]):
                open('/tmp/w/f_%s_%d.smt2' % (r['contract'].name, n_), 'w').write(o['text'])
    print('total', tot, 'failed', bad, 'wall %.1f' % (time.time() - t0))
main()
