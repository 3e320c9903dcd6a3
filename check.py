#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current working tree.

1. mechanically extract the functions under contract (clang -> LLVM IR of the real source, per root function),
2. generate the proof obligations of every contract of the property (and of the contracts they rely on),
3. discharge each with z3 (cvc5 as fallback, and as a second opinion in the thorough tier),
4. run the native counterexample search (replay driver over the real code) that supplies failing inputs for broken
   obligations and stands in, labelled bounded, for functions without a discharged contract.
Exit 0: held on everything explored.  Exit 1: VIOLATION line."""
import sys, os, json, time, subprocess, shutil, hashlib, re, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from engine import run, prepare, smt
import contracts
from contracts import theory, meta

def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for L in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', L.strip())
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

class Driver:
    """one compiled replay driver in one configuration, run as a background process group"""
    def __init__(s, pid, env, mode, seed, budget):
        s.pid, s.env, s.mode, s.seed, s.budget = pid, env, mode, seed, budget
        s.tag = '%s.%s.i%dp%d.%d' % (pid, mode, env.intr, env.popcnt, seed)
        s.dir = env.dir
        src = os.path.join(VERIF, 'replay', pid + '.cpp')
        s.exe = os.path.join(s.dir, s.tag)
        d = os.path.join(s.dir, 'succinct')
        cpps = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]
        fl = ['-std=gnu++17', '-w', '-I' + s.dir, '-I' + d, '-I' + os.path.join(VERIF, 'replay')]
        if env.popcnt: fl += ['-msse4.2', '-mpopcnt']
        if mode == 'san': fl += ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all']
        else: fl += ['-O2', '-DNDEBUG']
        extra = meta.DRIVER.get(pid, {})
        s.build = ['g++'] + fl + [src] + cpps + ['-o', s.exe, '-lboost_iostreams', '-lboost_system'] 
        s.run = [s.exe, str(seed), str(budget)]
        s.out = s.exe + '.out'; s.err = s.exe + '.err'
        scratch = os.path.join(s.dir, 'wd_' + s.tag); os.makedirs(scratch, exist_ok=True)
        q = lambda a: ' '.join("'%s'" % x for x in a)
        sh = '%s 2> %s.cerr || exit 97; cd %s && ulimit -c 0; exec %s > %s 2> %s' % (q(s.build), s.exe, scratch, q(s.run), s.out, s.err)
        e = dict(os.environ); e['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1' % (1 if extra.get('leaks') else 0); e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        s.p = subprocess.Popen(['bash', '-c', sh], env=e, start_new_session=True)
        s.rc = None
    def poll(s):
        if s.rc is None:
            r = s.p.poll()
            if r is not None: s.rc = r
        return s.rc
    def kill(s):
        if s.poll() is None:
            try: os.killpg(s.p.pid, 9)
            except OSError: pass
            s.p.wait(); s.rc = -9
    def wait(s, t):
        try: s.rc = s.p.wait(t)
        except subprocess.TimeoutExpired: s.kill(); s.rc = 98
        return s.rc
    def text(s, f, n=4000):
        try: return open(f, errors='replace').read()[-n:]
        except OSError: return ''
    def failed(s):
        """a concrete failing case was printed"""
        if s.rc in (None, 0, 97, 98, -9): return False
        return True
    def stats(s):
        m = re.search(r'OK evaluations=(\d+) distinct=(\d+) sample=(.*)', s.text(s.out))
        return (int(m.group(1)), int(m.group(2)), m.group(3)) if m else (0, 0, '')

def closure(names, by, skip_slow):
    todo, seen, skipped = list(names), list(names), set()
    while todo:
        n = todo.pop()
        for c in by[n].cuts:
            if c in seen: continue
            if skip_slow and by[c].opts.get('slow'): skipped.add(c); continue
            seen.append(c); todo.append(c)
    return seen, sorted(skipped)

def _patient(con):
    import copy
    c = copy.copy(con); c.opts = dict(con.opts); c.opts['feas_ms'] = 10 * con.opts.get('feas_ms', 150)
    return c

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    M = meta.PROPS[pid]
    by = contracts.all_contracts()
    own = [n for n, c in by.items() if pid in c.props]
    names, skipped = closure(own, by, tier == 'quick')
    configs = M.get('configs', [(1, 0)])
    envs = {}
    for c in configs: envs[c] = run.Env(*c)
    # --- native search, in the background
    drivers = []
    budget = (M.get('budget', 25) if tier == 'quick' else M.get('budget_thorough', 240))
    if os.path.exists(os.path.join(VERIF, 'replay', pid + '.cpp')):
        for c in configs:
            drivers.append(Driver(pid, envs[c], 'san', seed, budget))
            if c == configs[0]: drivers.append(Driver(pid, envs[c], 'opt', seed + 7919, budget))
            if tier == 'thorough':
                for k in range(1, 3): drivers.append(Driver(pid, envs[c], 'san' if k == 1 else 'opt', seed + 104729 * k, budget))
    def broke(): return any(d.poll() is not None and d.failed() for d in drivers)
    # --- proofs
    cons = []
    for c in configs:
        for n in names:
            con = by[n]
            if c != configs[0] and n not in own: continue
            cons.append((con, envs[c]))
    deadline = t0 + (560 if tier == 'quick' else 3000)
    tmo = 60000 if tier == 'quick' else 240000
    res = run.verify(cons, None, by, nproc=8, tmo=tmo, seed=0, stop=broke, deadline=deadline) if cons else []
    th = []
    if cons:
        tob = [(n, smt.to_smt2(a)) for n, a in theory.theory_obls() + contracts.extra_obls(names)]
        rr = run._fork_map(lambda x: smt.solve_text(x[1], 60000, 0 if 'Int' in x[1] else 3)[:2], tob, 8, 100, lambda x, w: ('unknown', 0.0), broke, deadline)
        th = [(n, r[0], r[1]) for (n, _), r in zip(tob, rr)]
    for d in drivers:
        if broke(): break
        while d.poll() is None and not broke() and time.time() - t0 < (840 if tier == 'quick' else 4000): time.sleep(0.3)
        if d.poll() is None: d.wait(1)
    failed = [d for d in drivers if d.poll() is not None and d.failed()]
    # --- judge the obligations
    fpfile = os.path.join(VERIF, 'contracts', 'fingerprints.json')
    fps = json.load(open(fpfile)) if os.path.exists(fpfile) else {}
    newfp = {}
    nobl = ndis = 0
    bad, undec, table = [], [], []
    solver = {}
    vac = []
    inl = set()
    for r in res:
        con, env, info = r['contract'], r['env'], r['info']
        key = '%s|i%dp%d' % (con.name, env.intr, env.popcnt)
        if info['status'] != 'ok':
            undec.append(dict(contract=key, why=info.get('why', '')[:300])); table.append((key, 0, 0, 'undecided')); continue
        newfp[key] = info['fingerprint']
        inl.update(info['inlined'])
        covers = [o for o in r['obls'] if o['kind'] == 'cover']
        pres = [o for o in r['obls'] if o['kind'] == 'vacuity']
        if any(o['result'] == 'unsat' for o in pres) or (covers and all(o['result'] == 'unsat' for o in covers)):
            vac.append(key)
        n = d = 0
        st = 0.0
        for o in r['obls']:
            if o['kind'] in ('vacuity', 'cover'): continue
            n += 1; st += o['time']
            if o['result'] == 'unsat':
                d += 1
                sv = o['solver'].split('/')[0]
                solver.setdefault(sv, [0, 0.0]); solver[sv][0] += 1; solver[sv][1] += o['time']
            else:
                e = dict(contract=key, obligation=o['name'], at=o['loc'], result=o['result'], solver=o['solver'], model={k: v for k, v in list((o['model'] or {}).items())[:60]})
                if o['result'] == 'sat' and fps.get(key) == info['fingerprint'] and key not in vac: bad.append(e)
                else: undec.append(dict(contract=key, why='%s @%s: %s' % (o['name'], o['loc'], o['result'])))
        if key in vac: undec.append(dict(contract=key, why='vacuous: precondition or every return unreachable')); d = 0
        nobl += n; ndis += d
        table.append((key, n, d, 'proved' if n == d and key not in vac else 'open', round(st, 2)))
    for name, r, dt in th:
        nobl += 1
        if r == 'unsat':
            ndis += 1; solver.setdefault('z3', [0, 0.0]); solver['z3'][0] += 1; solver['z3'][1] += dt
        else: undec.append(dict(contract='theory', why='lemma %s: %s' % (name, r)))
    if bad and not failed and not broke():
        # a refuted obligation counts only if it is refuted again with its paths pruned more patiently (paths that cannot be taken carry no facts)
        again = {(b['contract'].split('|')[0], b['contract'].split('|')[1]) for b in bad}
        con2 = []
        for c in configs:
            for n in names:
                if (n, 'i%dp%d' % c) in again: con2.append((_patient(by[n]), envs[c]))
        r2 = run.verify(con2, None, by, nproc=8, tmo=tmo, seed=1, stop=broke, deadline=max(deadline, time.time() + 120))
        still = {('%s|i%dp%d' % (r['contract'].name, r['env'].intr, r['env'].popcnt), o['name']) for r in r2 for o in r['obls'] if o['kind'] not in ('vacuity', 'cover') and o['result'] == 'sat'}
        for b in bad:
            if (b['contract'], b['obligation']) not in still: undec.append(dict(contract=b['contract'], why='%s @%s: refuted once, not confirmed' % (b['obligation'], b['at'])))
        bad = [b for b in bad if (b['contract'], b['obligation']) in still]
        failed = [d for d in drivers if d.poll() is not None and d.failed()]
    second = None
    if tier == 'thorough' and res and not failed and not bad:
        texts = sorted({o['text'] for r in res for o in r['obls'] if o['kind'] not in ('vacuity', 'cover') and o['text'] is not None and o['result'] == 'unsat'})
        rr = run._fork_map(lambda t: smt.solve_cvc5(t, 60000)[0], texts, 8, 120, lambda t, w: 'unknown', None, time.time() + 2400)
        second = dict(solver='cvc5', queries=len(texts), confirmed=sum(1 for x in rr if x == 'unsat'), refuted=sum(1 for x in rr if x == 'sat'), unknown=sum(1 for x in rr if x not in ('sat', 'unsat')))
    if '--write-fingerprints' in sys.argv:
        fps.update(newfp); json.dump(fps, open(fpfile, 'w'), indent=0, sort_keys=True)
    evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, 'replay_%s.txt' % pid)
    known = load_known(pid)
    viol = None
    if failed:
        d = failed[0]
        out = d.text(d.out)
        keep = os.path.join(evd, 'replay_%s' % pid); os.makedirs(keep, exist_ok=True)
        with open(replay, 'w') as f:
            f.write('property: %s\nkind: failing input against the real code (%s)\n\n%s\n\n--- stderr\n%s\n\n' % (pid, d.mode, out, d.text(d.err)))
            f.write('re-run: build replay/%s.cpp as below against /repo (copied as <dir>/succinct) and run with arguments %s %s\n%s\n' % (pid, d.seed, d.budget, ' '.join(d.build)))
            f.write('\n--- obligations not discharged at that point\n%s\n' % json.dumps(bad[:20], indent=1))
        viol = 'VIOLATION property=%s replay=%s' % (pid, replay)
    elif bad:
        with open(replay, 'w') as f:
            f.write('property: %s\nkind: failed proof obligations, no failing input found\n\n' % pid)
            for b in bad: f.write('FAILED %s :: %s at %s (%s answers %s)\n  counter-model: %s\n' % (b['contract'], b['obligation'], b['at'], b['solver'], b['result'], json.dumps(b['model'])))
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)
    ev = 0; di = 0; samples = []
    for d in drivers:
        a, b, s = d.stats(); ev += a; di += b
        if s: samples.append(s[:300])
    dstat = {d.tag: ('ok' if d.rc == 0 else 'failing case' if d.failed() else 'did not build' if d.rc == 97 else 'stopped') for d in drivers}
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
               trusted_base=meta.TRUSTED + M.get('trusted', []),
               functions_under_contract=[t[0] for t in table], contract_results=[list(t) for t in table],
               functions_extracted=sorted(x for x in inl if 'succinct' in x)[:200],
               back_ends={k: dict(obligations=v[0], solver_s=round(v[1], 1)) for k, v in solver.items()},
               undischarged=undec[:60], failed_obligations=[{k: b[k] for k in ('contract', 'obligation', 'at', 'result')} for b in bad[:60]],
               relied_on_contracts_proved_by_other_checks=skipped, vacuous=vac,
               bounded_standin=dict(what=M.get('bounded', ''), evaluations=ev, distinct_nontrivial=di, drivers=dstat, bound='random and boundary-directed inputs within %s s per driver, seed %d' % (budget, seed), samples=samples[:3]),
               evaluations=ev, distinct_nontrivial=di, rule='native counterexample search: cases are generated from the seed by replay/%s.cpp (densities, runs, boundary lengths); distinct = distinct case descriptions; trivial (empty) cases are not counted' % pid, samples=samples[:3])
    if second: cov['second_opinion'] = second
    open_fn = [t[0] for t in table if t[3] != 'proved']
    level = M['level']
    if level == 'proof' and (open_fn or nobl == 0 or any(u['contract'] == 'theory' for u in undec)): level = 'exploration'
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=meta.ASSUME + M.get('assume', []), wall_s=round(time.time() - t0, 1), violations=1 if viol else 0),
              open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    for d in drivers: d.kill()
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: obligations %d discharged %d open contracts %s; native cases %d (%s); %.0fs' % (pid, tier, nobl, ndis, open_fn or 'none', ev, dstat, time.time() - t0))
    for u in undec[:12]: print('  undischarged:', u['contract'], u['why'][:160])
    for b in bad[:12]: print('  FAILED obligation:', b['contract'], b['obligation'], b['at'])
    if viol:
        if failed: print(failed[0].text(failed[0].out, 1500).strip())
        print(viol); sys.stdout.flush(); return 1
    ran = any(d.rc == 0 for d in drivers)
    if not ran and (not table or len(open_fn) == len(table)):
        print('no part of the check could run'); 
        for d in drivers: print(d.text(d.exe + '.cerr', 1500))
        return 2
    return 0
if __name__ == '__main__': 
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
