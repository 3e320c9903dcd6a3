"""From obligations to solver queries: quantifier instantiation by syntactic triggers over a term index, lemma schemas,
serialisation to SMT-LIB2 and discharge by z3 (in-process, per obligation, forked workers) with cvc5 as second opinion."""
import z3, time, os, multiprocessing as mp
from .vc import Forall, bo, bv

class TermIndex:
    def __init__(s):
        s.seen = set(); s.apps = {}; s.sels = []; s.n = 0; s.order = []; s.consts = {}
    def add(s, e):
        stack = [e]
        new = 0
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in s.seen: continue
            s.seen.add(i); s.order.append(t)   # keep a reference: ids stay valid
            if z3.is_app(t):
                d = t.decl()
                k = d.kind()
                if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
                    s.apps.setdefault(d.name(), []).append(t); new += 1
                elif k == z3.Z3_OP_SELECT:
                    s.sels.append(t); new += 1
                elif k == z3.Z3_OP_UNINTERPRETED:
                    s.consts[t.decl().name()] = t
                stack.extend(t.children())
        return new
    def app(s, name): return s.apps.get(name, [])
    def selects(s, arr=None):
        """index terms of reads of arr (or of stores over it)"""
        out = []
        for t in s.sels:
            if arr is None or arr_base_eq(t.arg(0), arr): out.append(t.arg(1))
        return out

def arr_base_eq(a, arr):
    ids = set()
    st = [a]
    ai = arr.get_id()
    while st:
        x = st.pop()
        if x.get_id() in ids: continue
        ids.add(x.get_id())
        if x.get_id() == ai: return True
        if z3.is_app_of(x, z3.Z3_OP_STORE): st.append(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_ITE): st.append(x.arg(1)); st.append(x.arg(2))
    return False

def instantiate(obl, lemmas, rounds=2, cap=1500):
    """-> list of z3 assertions (ground) whose unsatisfiability discharges the obligation"""
    base = list(obl.pc) + [z3.Not(obl.goal)]
    ix = TermIndex()
    for b in base: ix.add(b)
    hints = [h for h in obl.hints if z3.is_expr(h)]
    for h in hints: ix.add(h)
    out = list(base)
    marks = [len(out)]
    done = set()
    ix.hints = hints
    for r in range(rounds):
        newf = []
        for fi, f in enumerate(obl.facts):
            if isinstance(f, Forall):
                f.check()
                if f.trig is None: tr = default_trig(ix, f)
                else: tr = f.trig(ix)
                extra = [(h,) for h in hints] if f.n == 1 else []
                for t in list(tr) + extra:
                    if not isinstance(t, tuple): t = (t,)
                    if any(x.size() != w for x, w in zip(t, f.sorts)): continue
                    key = (fi,) + tuple(x.get_id() for x in t)
                    if key in done: continue
                    done.add(key)
                    b = f.body(*t)
                    for x in (b if isinstance(b, (list, tuple)) else [b]):
                        newf.append(bo(x))
        for li, L in enumerate(lemmas):
            for key, inst in L(ix):
                k = ('L', li) + tuple(key)
                if k in done: continue
                done.add(k)
                b = inst()
                for x in (b if isinstance(b, (list, tuple)) else [b]): newf.append(bo(x))
        if not newf: break
        for x in newf:
            ix.add(x); out.append(x)
        marks.append(len(out))
        if len(out) > cap: break
    return Asserts(out, marks)

class Asserts(list):
    def __init__(s, l, marks): list.__init__(s, l); s.marks = marks

def default_trig(ix, f):
    return []

def to_smt2(asserts):
    s = z3.Solver()
    for a in asserts: s.add(a)
    t = s.to_smt2()
    m = getattr(asserts, 'marks', None)
    return ('; marks %s\n' % ' '.join(map(str, m)) if m else '') + t

def solve_prefixes(text, ms=2500):
    """try ever larger subsets of the assumptions (unsat of a subset decides); None if open"""
    if not text.startswith('; marks'): return None
    marks = [int(x) for x in text.split('\n', 1)[0].split()[2:]]
    ctx = z3.Context()
    al = z3.parse_smt2_string(text, ctx=ctx)
    n = len(al); t0 = time.time()
    for m in sorted(set(marks)):
        if m >= n: break
        s = z3.Solver(ctx=ctx); s.set('timeout', ms)
        for i in range(m): s.add(al[i])
        if str(s.check()) == 'unsat': return ('unsat', time.time() - t0)
    return ('open', time.time() - t0)

def solve_ack(text, ms):
    from . import ack
    t0 = time.time()
    ctx = z3.Context()
    try: al = ack.reduce(list(z3.parse_smt2_string(text, ctx=ctx)), ctx)
    except ack.NotReducible: return 'unknown', time.time() - t0
    s = z3.SolverFor('QF_BV', ctx=ctx); s.set('timeout', int(ms))
    for a in al: s.add(a)
    return str(s.check()), time.time() - t0

def solve_text(text, timeout_ms, strategy=0, seed=0):
    t0 = time.time()
    ctx = z3.Context()
    if strategy == 0: s = z3.Solver(ctx=ctx)
    elif strategy == 1: s = z3.SolverFor('QF_AUFBV', ctx=ctx)
    elif strategy == 3: s = z3.SolverFor('QF_BV', ctx=ctx)
    else: s = z3.Then(z3.Tactic('simplify', ctx=ctx), z3.Tactic('solve-eqs', ctx=ctx), z3.Tactic('smt', ctx=ctx)).solver()
    s.set('timeout', int(timeout_ms))
    try: s.set('random_seed', seed)
    except Exception: pass
    s.from_string(text)
    r = str(s.check())
    model = None
    if r == 'sat':
        m = s.model()
        model = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try: model[d.name()] = v.as_long()
                except Exception: model[d.name()] = str(v)[:300]
    return r, time.time() - t0, model

def solve_cvc5(text, timeout_ms):
    import subprocess, tempfile
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic QF_AUFBV)\n' + text); fn = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, fn], capture_output=True, text=True, timeout=timeout_ms / 1000 + 20)
        r = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        r = 'unknown'
    finally:
        os.unlink(fn)
    if r not in ('sat', 'unsat'): r = 'unknown'
    return r, time.time() - t0, None

def solve_lia(text, ms, congr=True):
    from . import ack, lia
    t0 = time.time()
    ctx = z3.Context()
    try: al = lia.reduce(list(z3.parse_smt2_string(text, ctx=ctx)), ctx, congr)
    except ack.NotReducible: return 'unknown', time.time() - t0
    s = z3.Solver(ctx=ctx); s.set('timeout', int(ms))
    for a in al: s.add(a)
    return str(s.check()), time.time() - t0
