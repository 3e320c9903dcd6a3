"""Verify contracts: extraction, VC generation, discharge."""
import os, re, time, traceback, multiprocessing as mp, json, signal, resource
import z3
from . import ir as IR, prepare, vc as VC, smt, models as M
from .vc import *
from .spec import *

class Env:
    """one scratch build of /repo in one configuration"""
    def __init__(s, intr=1, popcnt=0):
        s.intr, s.popcnt = intr, popcnt
        s.dir = prepare.scratch()
        s.src = prepare.copy_sources(s.dir, intr, popcnt)
        s.tus = {}; s.lay = {}
        s.contracts = {}
    def tu(s, name):
        if name not in s.tus:
            src = os.path.join(prepare.VERIF, 'harness', name + '.cpp')
            out = os.path.join(s.dir, name + '.ll')
            extra = ['-msse4.2', '-mpopcnt'] if s.popcnt else []
            prepare.compile_ll(src, out, s.dir, extra)
            s.tus[name] = prepare.TU(out)
        return s.tus[name]
    def layout(s, name):
        if name not in s.lay:
            src = os.path.join(prepare.VERIF, 'harness', name + '.cpp')
            s.lay[name] = prepare.Layout(prepare.layouts(src, s.dir))
        return s.lay[name]

class V:
    """root-mode view handed to args()"""
    def __init__(s, env, con, ex, st):
        s.env = env; s.con = con; s.ex = ex; s.st = st

def gen(con, env, by_name, ren=None):
    """obligations of one contract -> list of Obl (raises Undecided / BuildError / IRError)"""
    tu = env.tu(con.tu)
    cuts = [by_name[n] for n in con.cuts]
    cache = {}
    def which(m):
        if m not in cache:
            d = prepare.demangle(m)
            h = None
            for c in cuts:
                if c.pat and c.pat.fullmatch(d): h = call_handler(c, env, con.opts.get('after', {}).get(c.name)); break
            if h is None: h = M.lookup(m, d)
            cache[m] = h
        return cache[m]
    mod = tu.extract(con.root, lambda f: which(f) is not None, env.dir)
    mod.env = env
    models = {'lookup': which, 'demangle': prepare.demangle}
    models.update(con.opts.get('models', {}))
    o = {k: v for k, v in con.opts.items() if k in ('max_unroll', 'feas_ms', 'glob_init', 'max_paths')}
    VC.UFMUL = bool(con.opts.get('ufmul'))
    ex = Exec(mod, con.root, None, models, loops=con.loops, title=con.name, ren=ren, **o)
    ex.used_contracts = set()
    ex.env = env
    st = State()
    v = V(env, con, ex, st)
    args = con.args(v)
    for (t, nm), a in zip(ex.f.params, args): st.regs[nm] = a
    if len(args) != len(ex.f.params): raise Undecided('harness arity')
    c = SpecCtx('root', ex, st, args, None, env); c.cname = con.name
    post = con.spec(c)
    pre_pc, pre_facts = list(st.pc), list(st.facts)
    pre = Obl('precondition-satisfiable', 'vacuity', '', pre_pc, pre_facts, z3.BoolVal(False))
    before = st.fork()
    nret = [0]
    def on_ret(st2, val):
        nret[0] += 1
        c2 = SpecCtx('root', ex, st2, args, None, env); c2.cname = con.name
        if z3.is_bv(val): val = c2.nm(val, 'ret')
        if post: post(c2, val)
        if con.frame: frame_check(c, ex, before, st2)
        covers.append(Obl('return-reachable', 'cover', '', list(st2.pc), list(st2.facts), z3.BoolVal(False)))
    covers = ex.covers = []
    ex.run(st, on_ret)
    if nret[0] == 0: raise Undecided('no path reaches the end of %s' % con.root)
    ex.nret = nret[0]
    return ex, pre

def frame_check(c, ex, a, b):
    """everything reachable from the arguments that the contract does not list as modified is unchanged"""
    mods = {(p.r, p.off) for p, _ in c.mod_cells}
    objs = {(p.r) for p in c.mod_objs}
    for rid, r in a.mem.items():
        q = b.mem.get(rid)
        if q is None or q is r or rid in objs: continue
        if r.ro: continue
        if r.arr is not None:
            if rid in c.mod_arrs or q.arr is r.arr or q.arr.eq(r.arr): continue
            i = fresh('frame_i')
            ex.oblige(b, 'frame(%s)' % r.name, 'frame', z3.Implies(z3.ULT(i, bv(r.ln)), z3.Select(q.arr, i) == z3.Select(r.arr, i)), None, (i,))
        else:
            for off, (sz, v) in r.cells.items():
                if (rid, off) in mods: continue
                w = q.cells.get(off)
                if w is None: ex.oblige(b, 'frame(%s+%d)' % (r.name, off), 'frame', False); continue
                if w[1] is v or isinstance(v, (Opaque, Vec, Ptr)) or v is UNDEF:
                    if isinstance(v, Ptr) and not (isinstance(w[1], Ptr) and same_ptr(v, w[1])):
                        ex.oblige(b, 'frame(%s+%d)' % (r.name, off), 'frame', ptr_eq(v, w[1]))
                    if isinstance(v, Vec) and not (isinstance(w[1], Vec) and w[1].rid == v.rid and w[1].size is v.size):
                        ex.oblige(b, 'frame(%s+%d)' % (r.name, off), 'frame', False)
                    continue
                if isinstance(w[1], (Ptr, Opaque, Vec)) or w[1] is UNDEF:
                    ex.oblige(b, 'frame(%s+%d)' % (r.name, off), 'frame', False); continue
                ex.oblige(b, 'frame(%s+%d)' % (r.name, off), 'frame', bv(v, sz * 8) == bv(w[1], sz * 8))

def same_ptr(a, b):
    return a.r == b.r and a.off == b.off and (a.idx is b.idx or (is_c(as_c(a.idx)) and as_c(a.idx) == as_c(b.idx)) or (z3.is_expr(a.idx) and z3.is_expr(b.idx) and a.idx.eq(b.idx)))
def ptr_eq(a, b):
    if not isinstance(b, Ptr) or a.r != b.r: return z3.BoolVal(False)
    def byte(p): return bv(binop('add', binop('mul', p.idx, p.sc, 64), p.off & MASK[64], 64))
    return byte(a) == byte(b)

# ---------------------------------------------------------------- parallel driver
def _gen_job(con, env, by_name, q, i):
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        ex, pre = gen(con, env, by_name)
        out = []
        asr = smt.instantiate(pre, con.lemmas, rounds=1)
        out.append(('precondition-satisfiable', 'vacuity', '', smt.to_smt2(asr[:-1] if False else [a for a in asr]), ''))
        for o in ex.covers[:3]:
            out.append((o.name, 'cover', '', smt.to_smt2(smt.instantiate(o, con.lemmas, rounds=1)), ''))
        for o in ex.obls:
            if o.goal is None: out.append((o.name, o.kind, o.loc, None, o.path)); continue
            asr = smt.instantiate(o, con.lemmas if o.lem is None else o.lem, rounds=con.opts.get('rounds', 4), cap=con.opts.get('cap', 1500))
            out.append((o.name, o.kind, o.loc, smt.to_smt2(asr), o.path))
        info = dict(status='ok', loops=ex.nloops, spec_loops=ex.nspec, npaths=ex.nret, called=sorted(prepare.demangle(x) for x in ex.called),
                    used=sorted(ex.used_contracts), inlined=sorted(prepare.demangle(x) for x in ex.mod.inlined), fingerprint=fingerprint(ex))
    except (Undecided, prepare.BuildError, IR.IRError, KeyError) as e:
        out, info = [], dict(status='undecided', why='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])
    except Exception as e:
        out, info = [], dict(status='undecided', why='internal %s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
    info['gen_s'] = time.time() - t0
    return i, out, info

def fingerprint(ex):
    """loop structure as seen by the invariants: headers' phi names per loop"""
    fp = []
    for L in ex.loops:
        fp.append(sorted({base_name(ins.res)[1] for ins in ex.f.blocks[L.header].ins if ins.op == 'phi'}))
    return fp

def canon(text):
    """renumber the fresh names x!17 in order of appearance, so that alpha-equivalent queries become equal"""
    m = {}
    def f(g):
        if g.group(0) not in m: m[g.group(0)] = '%s!%d' % (g.group(1), len(m))
        return m[g.group(0)]
    def g(h):
        if h.group(0) not in m: m[h.group(0)] = '%s%d' % (h.group(0)[:2], len(m))
        return m[h.group(0)]
    return re.sub(r'[?$]x\d+', g, re.sub(r'([A-Za-z_][A-Za-z0-9_.#]*)!(\d+)', f, text))

def _kill(pid):
    try: os.killpg(pid, 9)
    except OSError: pass
    try: os.kill(pid, 9)
    except OSError: pass
    try: os.waitpid(pid, 0)
    except ChildProcessError: pass

def _fork_map(fn, items, nproc, timeout, default, stop=None, deadline=None):
    """run fn(item) in forked children (fork keeps contracts' closures); returns results in order"""
    res = [None] * len(items)
    running = {}
    nxt = 0
    import pickle, select
    while nxt < len(items) or running:
        while nxt < len(items) and len(running) < nproc:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r); os.setpgid(0, 0)
                try:
                    data = pickle.dumps(fn(items[nxt]))
                except BaseException as e:
                    data = pickle.dumps(default(items[nxt], 'crash: %s' % e))
                try:
                    with os.fdopen(w, 'wb') as f: f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (nxt, pid, time.time(), bytearray())
            nxt += 1
        if (stop and stop()) or (deadline and time.time() > deadline):
            why = 'stopped' if (stop and stop()) else 'deadline'
            for fd in list(running):
                i, pid, t0, buf = running[fd]
                _kill(pid); os.close(fd); del running[fd]
                res[i] = default(items[i], why)
            while nxt < len(items): res[nxt] = default(items[nxt], why); nxt += 1
            break
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            i, pid, t0, buf = running[fd]
            d = os.read(fd, 1 << 20)
            if d: buf.extend(d); continue
            os.close(fd); del running[fd]
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass
            try: res[i] = pickle.loads(bytes(buf))
            except Exception: res[i] = default(items[i], 'worker died')
        now = time.time()
        for fd in list(running):
            i, pid, t0, buf = running[fd]
            if now - t0 > timeout:
                _kill(pid)
                os.close(fd); del running[fd]
                res[i] = default(items[i], 'timeout after %ds' % timeout)
    return res

def _solve_job(item):
    text, kind, tmo, seed = item
    if text is None: return ('unsat', 0.0, None, 'syntactic')
    tot = 0
    pure = '(Array' not in text and not re.search(r'\(declare-fun \S+ \(\S', text)
    plan = [(0, tmo)] if kind in ('vacuity', 'cover') else [(3, tmo * 2)] if pure else [(0, min(tmo, 20000)), (1, tmo), (2, tmo)]
    r, m = 'unknown', None
    if kind not in ('vacuity', 'cover') and not pure:
        nouf = not re.search(r'\(declare-fun (PC|RW|BIT|EX|RM)[ |]', text)
        steps = [('z3/0', lambda: smt.solve_text(text, 1500, 0, seed)[:2]), ('z3/lia', lambda: smt.solve_lia(text, 3000)), ('z3/ack', lambda: smt.solve_ack(text, 5000)),
                 ('z3/p', lambda: smt.solve_prefixes(text) or ('unknown', 0)), ('z3/0', lambda: smt.solve_text(text, min(tmo, 8000), 0, seed)[:2]),
                 ('z3/ack', lambda: smt.solve_ack(text, min(tmo, 30000))), ('z3/lia', lambda: smt.solve_lia(text, min(tmo, 30000)))]
        if nouf: steps = [steps[0]] + ([steps[1]] if re.search(r'bvudiv|bvurem|bvmul|bvadd', text) else []) + [('z3/ack', lambda: smt.solve_ack(text, min(tmo, 60000)))]
        for nm, f in steps:
            try: r0, dt = f()
            except z3.Z3Exception as e: continue
            tot += dt
            if r0 == 'unsat': return (r0, tot, None, nm)
    for strat, t in plan:
        try: r, dt, m = smt.solve_text(text, t, strat, seed)
        except z3.Z3Exception as e: r, dt, m = 'unknown', 0, None
        tot += dt
        if r != 'unknown': return (r, tot, m, 'z3/%d' % strat)
    if kind not in ('vacuity', 'cover'):
        r, dt, m = smt.solve_cvc5(text, tmo); tot += dt
        if r != 'unknown': return (r, tot, m, 'cvc5')
    return (r, tot, m, 'none')

def verify(cons, envs, by_name, nproc=8, tmo=60000, gen_timeout=300, seed=0, verbose=False, stop=None, deadline=None):
    """cons: list of (Contract, Env).  -> list of result dicts"""
    for c, e in cons:   # compile TUs once, before forking
        try: e.tu(c.tu)
        except (prepare.BuildError, IR.IRError) as ex: e.tus.pop(c.tu, None)
        try: e.layout(c.tu)
        except (prepare.BuildError, KeyError): pass
    gj = _fork_map(lambda ic: _gen_job(ic[1][0], ic[1][1], by_name, None, ic[0]), list(enumerate(cons)), nproc, gen_timeout,
                   lambda ic, why: (ic[0], [], dict(status='undecided', why=why, gen_s=0)), stop, deadline)
    jobs = []
    results = []
    for (con, env), (i, out, info) in zip(cons, gj):
        results.append(dict(contract=con, env=env, info=info, obls=[]))
        for k, (name, kind, loc, text, path) in enumerate(out):
            jobs.append((len(results) - 1, name, kind, loc, text, path))
    # identical queries (up to the numbering of fresh names) are solved once
    uniq = {}
    jobs = [(a, b, c, d, canon(t) if t else t, p) for (a, b, c, d, t, p) in jobs]
    for j in jobs:
        uniq.setdefault((j[4], j[2] in ('vacuity', 'cover')), len(uniq))
    keys = list(uniq)
    trivial = {k for k in keys if k[0] is None}
    todo = [k for k in keys if k not in trivial]
    # chunk small queries together to limit fork overhead
    todo_sorted = sorted(todo, key=lambda k: -len(k[0]))
    chunks = [[] for _ in range(max(1, min(len(todo_sorted), 400)))]
    for n, k in enumerate(todo_sorted): chunks[n % len(chunks)].append(k)
    chunks = [c for c in chunks if c]
    def solve_chunk(ch):
        return [_solve_job((k[0], 'vacuity' if k[1] else 'obl', 15000 if k[1] else tmo, seed)) for k in ch]
    rs = _fork_map(solve_chunk, chunks, nproc, 3 * tmo / 1000 * 4 + 120, lambda ch, why: [('unknown', 0.0, None, why)] * len(ch), stop, deadline)
    ans = {}
    for ch, r in zip(chunks, rs):
        for k, x in zip(ch, r): ans[k] = x
    for (ri, name, kind, loc, text, path) in jobs:
        a = ('unsat', 0.0, None, 'syntactic') if text is None else ans[(text, kind in ('vacuity', 'cover'))]
        results[ri]['obls'].append(dict(name=name, kind=kind, loc=loc, path=path, result=a[0], time=a[1], model=a[2], solver=a[3], text=text))
    if os.environ.get('DUPS'): print('queries', len(jobs), 'distinct', len(uniq))
    return results
