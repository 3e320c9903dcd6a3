"""Symbolic executor / verification-condition generator over LLVM IR.

Values:  python int (concrete, unsigned modulo 2^w) or z3 BitVecRef; i1 is python bool or z3 BoolRef;
pointers are Ptr(region, off, idx, scale) with address = base(region) + off + idx*scale;
aggregates are python lists.
Loops are cut at their header by an invariant (havoc the written state, assume, execute one
arbitrary iteration, re-establish) or, if the contract gives none, unrolled until the branch is decided.
"""
import re, sys, time
import z3
from . import ir as IR

class Undecided(Exception):
    """tool limit: the code is outside the verifier's reach (never a violation)"""

class PathDone(Exception):
    pass

MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('r', 'off', 'idx', 'sc')
    def __init__(s, r, off=0, idx=0, sc=1):
        s.r = r; s.off = off; s.idx = idx; s.sc = sc
    def __repr__(s):
        return 'Ptr(%s,%s+%s*%s)' % (s.r, s.off, s.idx, s.sc)

NULL = Ptr(None)
class UndefT:
    def __repr__(s): return 'undef'
UNDEF = UndefT()

class Vec:
    """model of a std::vector object: size and the region that holds its elements"""
    __slots__ = ('size', 'rid', 'es')
    def __init__(s, size, rid, es):
        s.size = size; s.rid = rid; s.es = es

class Opaque:
    """an object the verifier only moves around (boost::function, std::ofstream, ...)"""
    def __init__(s, what): s.what = what
    def __repr__(s): return 'Opaque(%s)' % s.what

class Del(Opaque):
    """a boost::function<void()> used as a deleter: kind None (empty), 'array' (delete[] p), 'ptr' (delete p)"""
    def __init__(s, kind=None, p=None): s.what = 'deleter'; s.kind = kind; s.p = p
    def __repr__(s): return 'Del(%s,%r)' % (s.kind, s.p)

class Region:
    __slots__ = ('rid', 'name', 'cells', 'arr', 'es', 'ln', 'alive', 'ro', 'size')
    def __init__(s, rid, name, cells=None, arr=None, es=0, ln=None, size=None):
        s.rid = rid; s.name = name; s.cells = cells if cells is not None else {}
        s.arr = arr; s.es = es; s.ln = ln; s.alive = True; s.ro = False; s.size = size
    def copy(s):
        r = Region(s.rid, s.name, dict(s.cells), s.arr, s.es, s.ln, s.size)
        r.alive = s.alive; r.ro = s.ro
        return r

_cnt = [0]
def fresh_id():
    _cnt[0] += 1
    return _cnt[0]
def fresh(name, w=64):
    return z3.BitVec('%s!%d' % (name, fresh_id()), w)
def fresh_bool(name):
    return z3.Bool('%s!%d' % (name, fresh_id()))
def fresh_arr(name, w=64):
    return z3.Array('%s!%d' % (name, fresh_id()), z3.BitVecSort(64), z3.BitVecSort(w))

def bv(x, w=64):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.BitVecVal(x & MASK[w], w)
    if z3.is_bool(x): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x
def is_c(x): return isinstance(x, int)
def as_c(x):
    """try to make a z3 value a concrete int"""
    if is_c(x): return x
    if z3.is_bv_value(x): return x.as_long()
    return x
def bo(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(bool(x & 1))
    if z3.is_bv(x): return x == z3.BitVecVal(1, x.size())
    return x

def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x

# products and quotients of two variable terms, as uninterpreted functions (weaker than the machine operation; the lemma
# schemas of contracts/theory.py say what is needed of them); switched on per contract by opts={'ufmul': True}
UFMUL = False
MULF = z3.Function('MUL', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
DIVF = z3.Function('UDIV', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
def binop(op, a, b, w):
    a = as_c(a); b = as_c(b)
    if is_c(a) and is_c(b):
        m = MASK[w]
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'udiv': return a // b if b else 0
        if op == 'urem': return a % b if b else 0
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 'sdiv':
            x, y = sgn(a, w), sgn(b, w)
            if y == 0: return 0
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if op == 'srem':
            x, y = sgn(a, w), sgn(b, w)
            if y == 0: return 0
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & m
    # identities that keep terms small
    if is_c(b):
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if b == 0 and op in ('and', 'mul'): return 0
        if b == 1 and op in ('mul', 'udiv'): return a
        if op == 'udiv' and b and b & (b - 1) == 0:
            return z3.LShR(a, z3.BitVecVal(b.bit_length() - 1, w))
        if op == 'urem' and b and b & (b - 1) == 0:
            return a & z3.BitVecVal(b - 1, w)
        if op == 'mul' and b & (b - 1) == 0:
            return a << z3.BitVecVal(b.bit_length() - 1, w)
    if is_c(a):
        if a == 0 and op in ('add', 'or', 'xor'): return b
        if a == 0 and op in ('and', 'mul', 'shl', 'lshr'): return 0
        if op == 'mul' and a & (a - 1) == 0:
            return b << z3.BitVecVal(a.bit_length() - 1, w)
    A, B = bv(a, w), bv(b, w)
    if op == 'add':
        # fold (x + c1) + c2
        return addk(A, B)
    if op == 'sub':
        if is_c(b): return addk(A, z3.BitVecVal(-b & MASK[w], w))
        return A - B
    if UFMUL and w == 64 and not is_c(a) and not is_c(b):
        if op == 'mul': return MULF(A, B)
        if op == 'udiv': return DIVF(A, B)
    if UFMUL and w == 64 and op == 'udiv': return DIVF(A, B)
    return {'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
            'xor': lambda: A ^ B, 'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B),
            'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B), 'shl': lambda: A << B,
            'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]()

def addk(A, B):
    if z3.is_bv_value(B) and z3.is_app_of(A, z3.Z3_OP_BADD) and A.num_args() == 2 and z3.is_bv_value(A.arg(1)):
        c = (A.arg(1).as_long() + B.as_long()) & MASK[A.size()]
        return A.arg(0) if c == 0 else A.arg(0) + z3.BitVecVal(c, A.size())
    if z3.is_bv_value(A) and not z3.is_bv_value(B):
        return addk(B, A)
    return A + B

def icmp(pred, a, b, w):
    a = as_c(a); b = as_c(b)
    if is_c(a) and is_c(b):
        sa, sb = sgn(a, w), sgn(b, w)
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
    A, B = bv(a, w), bv(b, w)
    return {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
            'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
            'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()

# ------------------------------------------------------------------ facts
class Forall:
    """universally quantified fact.  body(*terms) -> z3 Bool;  trig(index) -> iterable of tuples of terms
    at which to instantiate (index is a TermIndex over the query)."""
    def __init__(s, body, n=1, trig=None, name='', sorts=None):
        s.body = body; s.n = n; s.trig = trig; s.name = name; s.sorts = sorts or [64] * n
        s._v = [z3.BitVec('chk_%d' % k, w) for k, w in enumerate(s.sorts)]; s._t = body(*s._v); s._ok = False
    def check(s):
        """the body still denotes what it denoted when the fact was made (a closure must not have changed)"""
        if not s._ok:
            lst = lambda x: [bo(y) for y in (x if isinstance(x, (list, tuple)) else [x])]
            b, t = lst(s.body(*s._v)), lst(s._t)
            if len(b) != len(t) or not all(x.eq(y) for x, y in zip(b, t)): raise Undecided('quantified fact %s changed its meaning' % s.name)
            s._ok = True

def split_goal(g):
    """a goal is a z3 Bool or a Forall"""
    if isinstance(g, Forall):
        sk = [fresh('sk_' + (g.name or 'q'), w) for w in g.sorts]
        return g.body(*sk), sk
    return bo(g), []

class Obl:
    __slots__ = ('name', 'kind', 'loc', 'pc', 'facts', 'goal', 'hints', 'path', 'lem')
    def __init__(s, name, kind, loc, pc, facts, goal, hints=(), path='', lem=None):
        s.lem = lem; s.name = name; s.kind = kind; s.loc = loc; s.pc = pc; s.facts = facts; s.goal = goal; s.hints = hints; s.path = path

# ------------------------------------------------------------------ state
class State:
    __slots__ = ('regs', 'mem', 'pc', 'facts', 'path', 'ghost', 'wlog', 'allocas')
    def __init__(s):
        s.regs = {}; s.mem = {}; s.pc = []; s.facts = []; s.path = []; s.ghost = {}; s.wlog = None; s.allocas = {}
    def fork(s):
        n = State()
        n.regs = dict(s.regs); n.mem = dict(s.mem); n.pc = list(s.pc); n.facts = list(s.facts)
        n.path = list(s.path); n.ghost = dict(s.ghost); n.wlog = s.wlog; n.allocas = dict(s.allocas)
        return n
    def assume(s, f):
        if f is None: return
        if isinstance(f, (list, tuple)):
            for x in f: s.assume(x)
            return
        if isinstance(f, Forall): s.facts.append(f); return
        if isinstance(f, Named): s.assume(f.f); return
        if isinstance(f, Dual):
            s.assume(list(f.asm) + [f.goal]); return
        f = bo(f)
        if z3.is_true(f): return
        s.pc.append(f)
    # -- memory
    def new_region(s, name, **kw):
        r = Region(fresh_id(), name, **kw)
        s.mem[r.rid] = r
        return r
    def new_array(s, name, es, ln, arr=None):
        r = s.new_region(name, es=es, ln=ln, arr=arr if arr is not None else fresh_arr(name, es * 8))
        return r
    def wr(s, rid):
        r = s.mem[rid].copy(); s.mem[rid] = r
        return r
    def setcell(s, rid, off, size, val):
        r = s.wr(rid); r.cells[off] = (size, val)
        if s.wlog is not None: s.wlog.add(('cell', rid, off, size))
    def setarr(s, rid, arr, ln=None):
        r = s.wr(rid); r.arr = arr
        if ln is not None: r.ln = ln
        if s.wlog is not None: s.wlog.add(('arr', rid))

class Dual:
    """a fact with a form to prove and (equivalent, by a proved lemma) forms to assume"""
    def __init__(s, goal, assume): s.goal = goal; s.asm = assume

class Named:
    """a named clause of a contract / invariant"""
    def __init__(s, name, f, hints=()):
        s.name = name; s.f = f; s.hints = hints

class Loop:
    def __init__(s, header):
        s.header = header; s.blocks = {header}; s.latches = []

def find_loops(f):
    """natural loops, in block order of their headers"""
    succ = {}
    for n, b in f.blocks.items():
        t = b.ins[-1]
        if t.op == 'br': succ[n] = [t.a[0]]
        elif t.op == 'condbr': succ[n] = [t.a[1], t.a[2]]
        elif t.op == 'switch': succ[n] = [t.a[1]] + [c[1] for c in t.a[2]]
        else: succ[n] = []
    entry = f.order[0]
    order = []; seen = set()
    st = [(entry, iter(succ[entry]))]; seen.add(entry)
    while st:
        n, it = st[-1]
        for m in it:
            if m not in seen:
                seen.add(m); st.append((m, iter(succ[m]))); break
        else:
            order.append(n); st.pop()
    order.reverse()
    pos = {n: i for i, n in enumerate(order)}
    pred = {n: [] for n in order}
    for n in order:
        for m in succ[n]: pred[m].append(n)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            ps = [p for p in pred[n] if p in idom]
            a = ps[0]
            for b in ps[1:]:
                x, y = a, b
                while x != y:
                    while pos[x] > pos[y]: x = idom[x]
                    while pos[y] > pos[x]: y = idom[y]
                a = x
            if idom.get(n) != a:
                idom[n] = a; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for n in order:
        for m in succ[n]:
            if dom(m, n):
                L = loops.setdefault(m, Loop(m))
                L.latches.append(n)
                stack = [n]
                while stack:
                    x = stack.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x)
                    stack.extend(pred[x])
            elif pos[m] <= pos[n]:
                raise Undecided('irreducible control flow')
    hs = sorted(loops, key=lambda h: f.order.index(h))
    return [loops[h] for h in hs], {h: loops[h] for h in hs}

def base_name(reg):
    """source-level name of an SSA register / alloca created by clang + SROA + inlining"""
    n = re.sub(r'\.addr\b', '', reg)
    n = re.sub(r'(\.(\d+|i\d*|sroa|lcssa|phi|ph|be))+$', '', n)
    n = re.sub(r'(\.(\d+|i\d*|sroa|lcssa))+$', '', n)
    n2 = re.sub(r'(?<=[A-Za-z_])\d+$', '', n)
    return n, n2

class BindError(Undecided):
    pass

class LoopCtx:
    """what an invariant sees"""
    def __init__(s, ex, st, loop, phivals, mode, ren=None):
        s.ex = ex; s.st = st; s.loop = loop; s.phi = phivals; s.mode = mode; s.ren = ren or {}
        s.asg = []
    def lookup(s, name):
        name = s.ren.get(name, name)
        c = []
        for reg, (v, w) in s.phi.items():
            b1, b2 = base_name(reg)
            if name == reg: return v, w
            if name in (b1, b2): c.append((reg, v, w))
        if len(c) == 1: return c[0][1], c[0][2]
        if len(c) > 1:
            raise BindError('ambiguous loop variable %s: %s' % (name, [x[0] for x in c]))
        # allocas
        c = []
        for reg, rid in s.st.allocas.items():
            b1, b2 = base_name(reg)
            if name == reg or name in (b1, b2):
                c.append((reg, rid))
        if len(c) > 1:
            # keep those written in the loop
            c2 = [x for x in c if any(k[1] == x[1] for k in s.ex.cur_writes.get(s.loop.header, ()))]
            if len(c2) >= 1: c = c2
        if len(c) == 1:
            r = s.st.mem[c[0][1]]
            if 0 in r.cells:
                sz, v = r.cells[0]
                return v, sz * 8
            return Ptr(r.rid), 64
        raise BindError('loop variable %s not found (%s) %s' % (name, list(s.phi), [(a, b, sorted(map(str, s.ex.cur_writes.get(s.loop.header, ())))) for a, b in c]))
    def __call__(s, name, w=None):
        v, vw = s.lookup(name)
        if isinstance(v, (Ptr, Vec, list)): return v
        if vw == 1: return bo(v)
        return bv(v, vw)
    def addr(s, name):
        """the local object of that name"""
        name = s.ren.get(name, name)
        c = [rid for reg, rid in s.st.allocas.items() if name == reg or name in base_name(reg)]
        if len(c) != 1: raise BindError('local object %s: %d candidates' % (name, len(c)))
        return Ptr(c[0])
    def sc(s):
        from .spec import SpecCtx
        return SpecCtx('loop', s.ex, s.st, ())
    def reg(s, name):
        """value of an SSA register defined before the loop (by base name)"""
        c = []
        for reg, v in s.st.regs.items():
            b1, b2 = base_name(reg)
            if name == reg or name in (b1, b2): c.append(v)
        if not c: raise BindError('register %s not found' % name)
        return c[-1]

class LoopSpec:
    def __init__(s, inv, decreases=None, unroll=None, name='', binds=None, vars=(), cases=None):
        s.cases = cases; s.inv = inv; s.decreases = decreases; s.unroll = unroll; s.name = name; s.binds = binds; s.vars = vars

# ------------------------------------------------------------------ executor
class Exec:
    def __init__(s, mod, fname, contracts, models, loops=None, max_unroll=80, feas_ms=150, title='', glob_init=None, max_paths=4000,
                 ren=None):
        s.mod = mod; s.f = mod.func(fname); s.contracts = contracts; s.models = models
        s.loops, s.lmap = find_loops(s.f)
        s.lspec = {}
        specs = loops or []
        s.nspec = len(specs)
        for i, L in enumerate(s.loops):
            if i < len(specs) and specs[i] is not None:
                s.lspec[L.header] = specs[i]
        s.nloops = len(s.loops)
        s.obls = []
        s.max_unroll = max_unroll; s.feas_ms = feas_ms
        s.globs = {}
        s.glob_init = glob_init or {}
        s.title = title
        s.quiet = 0
        s.npaths = 0; s.max_paths = max_paths
        s.cur_writes = {}
        s.nfeas = 0
        s.phase = ''
        s.ren = ren or {}
        s.called = set()
        s.ninstr = 0
        s.noverflow = False
        s.anyphi = {}

    # ---- obligations
    def loc(s, ins):
        if ins is None or ins.line is None: return ''
        fn, ln = s.mod.line_of(ins.line)
        if not fn: return ''
        return '%s:%s' % (fn.split('/')[-1], ln)
    def oblige(s, st, name, kind, goal, ins=None, hints=()):
        if s.quiet: return
        if isinstance(goal, Named):
            hints = tuple(hints) + tuple(goal.hints); goal = goal.f
        if isinstance(goal, Dual): goal = goal.goal
        if isinstance(goal, (list, tuple)):
            for g in goal: s.oblige(st, name, kind, g, ins, hints)
            return
        if goal is None: return
        g, sk = split_goal(goal)
        if z3.is_true(g): s.obls.append(Obl(name, kind, s.loc(ins), None, None, None)); return
        gs = [g]
        # split conjunctions to keep queries small
        while gs:
            g = gs.pop()
            if z3.is_and(g):
                gs.extend(g.children()); continue
            s.obls.append(Obl(name, kind, s.loc(ins), list(st.pc), list(st.facts), g, tuple(hints) + tuple(sk), ''.join(st.path[-12:]), st.ghost.get('lem')))

    def ob_assume(s, st, name, kind, goal, ins=None):
        """oblige then assume"""
        s.oblige(st, name, kind, goal, ins)
        st.assume(goal)

    # ---- feasibility
    def feasible(s, st, extra):
        e = z3.simplify(extra)
        if z3.is_false(e): return False
        if z3.is_true(e): return True
        s.nfeas += 1
        sol = z3.Solver()
        sol.set('rlimit', 8000 * s.feas_ms); sol.set('timeout', 40 * s.feas_ms)      # a budget of solver steps: the same answer under any load
        for p in st.pc: sol.add(p)
        sol.add(e)
        return sol.check() != z3.unsat

    # ---- operand evaluation
    def val(s, st, v, ty):
        k = v[0]
        if k == 'reg':
            if v[1] not in st.regs:
                raise Undecided('register %s has no value' % v[1])
            return st.regs[v[1]]
        if k == 'int':
            t = s.mod.resolve(ty)
            if t.w == 1: return bool(v[1])
            return v[1] & MASK[t.w]
        if k == 'null': return NULL
        if k == 'undef':
            t = s.mod.resolve(ty)
            if t.k == 'struct': return [UNDEF] * len(t.fields)
            return UNDEF
        if k == 'zero':
            t = s.mod.resolve(ty)
            return s.zero(t)
        if k == 'glob':
            return s.glob(st, v[1])
        if k == 'gep':
            return s.gep(st, v[1], s.val(st, v[2], IR.PTR), [(t, s.val(st, x, t)) for t, x in v[3]])
        if k == 'agg':
            return [s.val(st, x, t) for t, x in v[1]]
        raise Undecided('operand %r' % (v,))

    def zero(s, t):
        t = s.mod.resolve(t)
        if t.k == 'int': return False if t.w == 1 else 0
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return [s.zero(x) for x in t.fields]
        if t.k == 'arr': return [s.zero(t.el) for _ in range(t.n)]
        raise Undecided('zero %r' % t)

    def glob(s, st, name):
        key = name
        if key in s.globs:
            rid = s.globs[key]
            if rid in st.mem: return Ptr(rid)
        r = None
        if name in s.glob_init:
            r = s.glob_init[name](s, st)
        if r is None:
            line = s.mod.globals.get(name)
            r = st.new_region('@' + name)
            r.ro = True
            if line is not None:
                m = re.match(r'@(?:"[^"]*"|[-\w$.]+) = (.*)', line)
                body = m.group(1)
                mm = re.search(r'\b(constant|global)\b', body)
                if mm and 'external' not in body[:mm.start()]:
                    try:
                        p = IR.P(IR.tokenize(re.sub(r', (comdat|align|section).*$', '', body[mm.end():])))
                        t = p.type()
                        if not p.done():
                            v = p.value(t)
                            s.init_cells(r, 0, t, v)
                        if mm.group(1) == 'global': r.ro = False
                    except IR.IRError:
                        pass
        s.globs[key] = r.rid
        return Ptr(r.rid)

    def init_cells(s, r, off, t, v):
        t = s.mod.resolve(t)
        if v[0] == 'zero':
            v2 = s.zero(t)
            s.init_py(r, off, t, v2); return
        if t.k == 'int':
            if v[0] == 'int': r.cells[off] = (s.mod.size(t), v[1] & MASK[t.w] if t.w > 1 else bool(v[1]))
        elif t.k == 'arr':
            es = s.mod.size(t.el)
            if v[0] == 'str':
                data = v[1][2:-1]
                out = []
                i = 0
                while i < len(data):
                    if data[i] == '\\':
                        out.append(int(data[i+1:i+3], 16)); i += 3
                    else:
                        out.append(ord(data[i])); i += 1
                for i, c in enumerate(out): r.cells[off + i] = (1, c)
            elif v[0] == 'agg':
                for i, (et, ev) in enumerate(v[1]): s.init_cells(r, off + i * es, et, ev)
        elif t.k == 'struct' and v[0] == 'agg':
            offs, _ = s.mod.layout(t)
            for o, (et, ev) in zip(offs, v[1]): s.init_cells(r, off + o, et, ev)
        elif t.k == 'ptr':
            if v[0] == 'null': r.cells[off] = (8, NULL)

    def init_py(s, r, off, t, v):
        t = s.mod.resolve(t)
        if t.k == 'arr':
            es = s.mod.size(t.el)
            for i, x in enumerate(v): s.init_py(r, off + i * es, t.el, x)
        elif t.k == 'struct':
            offs, _ = s.mod.layout(t)
            for o, f, x in zip(offs, t.fields, v): s.init_py(r, off + o, f, x)
        else:
            r.cells[off] = (s.mod.size(t), v)

    # ---- pointers
    def padd(s, p, idx, scale):
        """p + idx*scale"""
        if not isinstance(p, Ptr): raise Undecided('pointer arithmetic on %r' % (p,))
        idx = as_c(idx)
        if is_c(idx):
            i = sgn(idx, 64)
            if is_c(as_c(p.idx)) or scale != p.sc:
                return Ptr(p.r, p.off + i * scale, p.idx, p.sc)
            return Ptr(p.r, p.off, binop('add', p.idx, i & MASK[64], 64), p.sc)
        if is_c(as_c(p.idx)) and as_c(p.idx) == 0:
            # normalise whole multiples of the scale into the index
            if scale and p.off % scale == 0 and s.is_arr_scale(p, scale):
                return Ptr(p.r, 0, binop('add', idx, (p.off // scale) & MASK[64], 64), scale)
            return Ptr(p.r, p.off, idx, scale)
        if p.sc == scale:
            return Ptr(p.r, p.off, binop('add', p.idx, idx, 64), scale)
        if is_c(as_c(p.idx)):
            return s.padd(Ptr(p.r, p.off + sgn(as_c(p.idx), 64) * p.sc), idx, scale)
        return Ptr(p.r, p.off, binop('add', binop('mul', p.idx, p.sc, 64), binop('mul', idx, scale, 64), 64), 1)    # byte offset
    def is_arr_scale(s, p, scale):
        return True

    def gep(s, st, bt, base, idxs):
        p = base
        t = bt
        first = True
        for it, iv in idxs:
            it = s.mod.resolve(it)
            if not is_c(iv) and z3.is_bv(iv) and it.w < 64:
                iv = z3.SignExt(64 - it.w, iv)
            elif is_c(iv) and it.w < 64:
                iv = sgn(iv, it.w) & MASK[64]
            if first:
                p = s.padd(p, iv, s.mod.size(t)); first = False
                continue
            t = s.mod.resolve(t)
            if t.k == 'struct':
                offs, _ = s.mod.layout(t)
                p = Ptr(p.r, p.off + offs[iv], p.idx, p.sc)
                t = t.fields[iv]
            elif t.k == 'arr':
                p = s.padd(p, iv, s.mod.size(t.el)); t = t.el
            else:
                raise Undecided('gep into %r' % t)
        return p

    def norm(s, st, p, ins, write=False):
        if not isinstance(p, Ptr): raise Undecided('dereference of %r' % (p,))
        if p.r is None:
            s.oblige(st, 'no-null-dereference', 'safety', False, ins); raise PathDone()
        if p.r not in st.mem: raise Undecided('unknown region')
        r = st.mem[p.r]
        if not r.alive:
            s.oblige(st, 'no-dangling-access', 'safety', False, ins); raise PathDone()
        return r

    def arr_index(s, r, p):
        """element index of p in array region r"""
        off = p.off; idx = p.idx
        ci = as_c(idx)
        if is_c(ci):
            tot = off + sgn(ci, 64) * p.sc
            if tot % r.es: return None
            return (tot // r.es) & MASK[64]
        if p.sc == r.es and off % r.es == 0:
            return binop('add', idx, (off // r.es) & MASK[64], 64)
        return None

    def load(s, st, p, t, ins=None):
        t = s.mod.resolve(t)
        r = s.norm(st, p, ins)
        size = s.mod.size(t)
        if t.k == 'struct':
            offs, _ = s.mod.layout(t)
            return [s.load(st, Ptr(p.r, p.off + o, p.idx, p.sc), f, ins) for o, f in zip(offs, t.fields)]
        if ('img', p.r) in st.ghost: return s.img_load(st, p, t, size, ins)
        if r.arr is not None:
            i = s.arr_index(r, p)
            if i is None or size != r.es:
                v = s.unaligned(st, r, p, size, ins)
                return v
            s.bounds(st, r, i, ins, 'read')
            v = z3.Select(r.arr, bv(i))
            if t.k == 'int' and t.w == 1: return v == z3.BitVecVal(1, r.es * 8)
            if t.k == 'int' and t.w < r.es * 8: return z3.Extract(t.w - 1, 0, v)
            return v
        ci = as_c(p.idx)
        if not is_c(ci):
            return s.symbolic_obj_load(st, r, p, t, ins)
        off = p.off + sgn(ci, 64) * p.sc
        c = r.cells.get(off)
        if c is None:
            return s.compose(st, r, off, t, ins)
        sz, v = c
        if isinstance(v, (Ptr, Opaque, Vec)) or v is UNDEF:
            if v is UNDEF:
                nv = fresh_bool('undef') if t.k == 'int' and t.w == 1 else fresh('undef', t.w if t.k == 'int' else 64)
                return nv
            if t.k == 'ptr' or isinstance(v, (Opaque, Vec)): return v
            raise Undecided('integer load of pointer cell')
        if sz == size:
            if t.k == 'int' and t.w == 1:
                if isinstance(v, bool) or (not is_c(v) and z3.is_bool(v)): return v
                return bool(v & 1) if is_c(v) else z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)
            if t.k == 'int' and (isinstance(v, bool) or (not is_c(v) and z3.is_bool(v))):
                return int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, t.w), z3.BitVecVal(0, t.w))
            return v
        if size < sz and t.k == 'int':
            if is_c(v): return v & MASK[t.w]
            return z3.Extract(t.w - 1, 0, v)
        return s.compose(st, r, off, t, ins)

    # ---- byte images: the bytes a stream received, as a list of segments (kind, payload, length in bytes)
    @staticmethod
    def img_pos(p): return bv(binop('add', binop('mul', p.idx, p.sc, 64), p.off & MASK[64], 64))
    def img_at(s, st, p):
        """segment that provably starts at p, or None"""
        x = s.img_pos(p); pos = bv(0)
        cand = []
        for seg in st.ghost[('img', p.r)]:
            d = z3.simplify(x - pos)
            if z3.is_bv_value(d):
                if d.as_long() == 0 and not (is_c(as_c(seg[2])) and as_c(seg[2]) == 0): return seg
            else: cand.append((pos, seg))
            pos = pos + bv(seg[2])
        for q, seg in cand:
            sol = z3.Solver(); sol.set('timeout', 2000); sol.add(*st.pc); sol.add(x != q)
            if sol.check() == z3.unsat: return seg
        return None
    def img_load(s, st, p, t, size, ins):
        seg = s.img_at(st, p)
        if seg is not None and seg[0] == 'val' and seg[2] == size: return seg[1]
        tot = bv(0)
        for g in st.ghost[('img', p.r)]: tot = tot + bv(g[2])
        x = s.img_pos(p)
        s.oblige(st, 'in-bounds-read(image)', 'safety', z3.And(z3.ULE(x, tot), z3.ULE(bv(size), tot - x)), ins)
        return fresh_bool('image') if t.k == 'int' and t.w == 1 else fresh('image', size * 8)      # some value

    def symbolic_obj_load(s, st, r, p, t, ins):
        h = s.glob_init.get(('symload', r.name))
        if h: return h(s, st, r, p, t, ins)
        # constant table: all candidate cells concrete
        size = s.mod.size(t)
        if p.sc == size and t.k == 'int':
            offs = sorted(o for o, (sz, v) in r.cells.items() if sz == size and o >= p.off and (o - p.off) % size == 0 and is_c(v))
            # contiguous run
            n = 0
            while p.off + n * size in r.cells and is_c(r.cells[p.off + n * size][1]): n += 1
            if n and n == len([o for o in offs if o < p.off + n * size]) and n <= 4096:
                s.oblige(st, 'in-bounds-table-read', 'safety', z3.ULT(bv(p.idx), bv(n)), ins)
                arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, size * 8))
                for i in range(n):
                    arr = z3.Store(arr, bv(i), bv(r.cells[p.off + i * size][1], size * 8))
                return z3.Select(arr, bv(p.idx))
        raise Undecided('symbolic offset into object %s' % r.name)

    def compose(s, st, r, off, t, ins):
        size = s.mod.size(t)
        if t.k == 'int':
            # little-endian composition of smaller cells / extraction from larger ones
            for o, (sz, v) in r.cells.items():
                if o <= off and off + size <= o + sz and not isinstance(v, (Ptr, Opaque, Vec)) and v is not UNDEF:
                    sh = (off - o) * 8
                    if is_c(v): return (v >> sh) & MASK[t.w]
                    if z3.is_bool(v): v = bv(v, 8)
                    return z3.Extract(sh + t.w - 1, sh, v)
            parts = []
            o = off
            while o < off + size:
                c = r.cells.get(o)
                if c is None or isinstance(c[1], (Ptr, Opaque, Vec)) or c[1] is UNDEF: parts = None; break
                parts.append((c[0], c[1])); o += c[0]
            if parts and o == off + size:
                if all(is_c(v) for _, v in parts):
                    x = 0; sh = 0
                    for sz, v in parts: x |= v << sh; sh += sz * 8
                    return x & MASK[t.w]
                return z3.simplify(z3.Concat(*[bv(v, sz * 8) for sz, v in reversed(parts)])) if len(parts) > 1 else parts[0][1]
            s.uninit(st, r, off, ins)
            v = fresh('uninit_%s_%d' % (r.name, off), t.w) if t.w > 1 else fresh_bool('uninit')
            return v
        if t.k == 'ptr':
            s.uninit(st, r, off, ins)
            return UNDEF
        raise Undecided('compose %r' % t)

    def uninit(s, st, r, off, ins):
        pass

    def bounds(s, st, r, i, ins, what):
        if r.ln is not None:
            s.oblige(st, 'in-bounds-%s(%s)' % (what, r.name.split('!')[0]), 'safety', icmp('ult', i, r.ln, 64), ins)

    def unaligned(s, st, r, p, size, ins):
        if r.es == 8 and size == 8 and p.sc == 1 and p.off == 0:
            b = bv(p.idx)
            w = z3.LShR(b, 3); sh = (b & 7) << 3
            s.oblige(st, 'in-bounds-read(%s)' % r.name, 'safety', z3.And(z3.ULT(w, bv(r.ln)), z3.Implies(sh != 0, z3.ULT(w + 1, bv(r.ln)))), ins)
            return z3.LShR(z3.Select(r.arr, w), sh) | z3.If(sh == 0, bv(0), z3.Select(r.arr, w + 1) << (64 - sh))
        raise Undecided('unaligned access to %s' % r.name)

    def store(s, st, p, t, v, ins=None):
        t = s.mod.resolve(t)
        r = s.norm(st, p, ins, True)
        size = s.mod.size(t)
        if t.k == 'struct':
            offs, _ = s.mod.layout(t)
            for o, f, x in zip(offs, t.fields, v): s.store(st, Ptr(p.r, p.off + o, p.idx, p.sc), f, x, ins)
            return
        if r.ro:
            s.oblige(st, 'no-write-to-constant', 'safety', False, ins); raise PathDone()
        if r.arr is not None:
            i = s.arr_index(r, p)
            if i is None or size != r.es: raise Undecided('store of %d bytes into array %s' % (size, r.name))
            s.bounds(st, r, i, ins, 'write')
            if isinstance(v, Ptr) or v is UNDEF: raise Undecided('pointer/undef stored in array')
            s_w = r.es * 8
            if t.k == 'int' and t.w == 1: v = bv(v, s_w)
            st.setarr(p.r, z3.Store(r.arr, bv(i), bv(v, s_w)))
            return
        ci = as_c(p.idx)
        if not is_c(ci): raise Undecided('symbolic store offset into object %s' % r.name)
        off = p.off + sgn(ci, 64) * p.sc
        if r.size is not None and not (0 <= off and off + size <= r.size):
            s.oblige(st, 'in-bounds-write(%s)' % r.name, 'safety', False, ins); raise PathDone()
        # drop overlapped cells
        ov = [o for o, (sz, _) in r.cells.items() if o != off and o < off + size and off < o + sz]
        if ov:
            r2 = st.wr(p.r)
            for o in ov:
                sz, x = r2.cells.pop(o)
                if isinstance(x, (Ptr, Opaque, Vec)) or x is UNDEF: continue
                # split what remains of an integer cell into bytes
                for b in range(sz):
                    if not (off <= o + b < off + size):
                        r2.cells[o + b] = (1, (x >> (8 * b)) & 255 if is_c(x) else z3.Extract(8 * b + 7, 8 * b, bv(x, sz * 8)))
        st.setcell(p.r, off, size, v)

    # ---- run
    def run(s, st, on_ret):
        """execute from the entry block; on_ret(state, value) for each path reaching ret"""
        s.on_ret = on_ret
        s.work = [(s.f.order[0], None, st, {})]
        s.drain()

    def drain(s):
        while s.work:
            blk, prev, st, unroll = s.work.pop()
            try:
                s.block(blk, prev, st, unroll)
            except PathDone:
                pass

    def phis(s, blk, prev, st):
        out = {}
        for ins in s.f.blocks[blk].ins:
            if ins.op != 'phi': break
            for v, l in ins.a[0]:
                if l == prev:
                    x = s.val(st, v, ins.ty)
                    t = s.mod.resolve(ins.ty)
                    if x is UNDEF:
                        x = fresh_bool('undef') if t.k == 'int' and t.w == 1 else fresh('undef', t.w) if t.k == 'int' else x
                    out[ins.res] = (x, t.w if t.k == 'int' else 64)
                    break
            else:
                raise Undecided('phi without edge')
        return out

    def havoc_like(s, name, v, w):
        if isinstance(v, Ptr):
            if v.r is None: return v
            sc = v.sc
            return Ptr(v.r, v.off if not s.is_array(v) else 0, fresh(name + '_idx'), s.arr_es(v) or sc)
        if isinstance(v, (Opaque,)) or v is UNDEF: return v
        if isinstance(v, list): return [s.havoc_like(name, x, 64) for x in v]
        if w == 1: return fresh_bool(name)
        return fresh(name, w)
    def is_array(s, p):
        return s._hst.mem[p.r].arr is not None
    def arr_es(s, p):
        return s._hst.mem[p.r].es if s._hst.mem[p.r].arr is not None else None

    hptrs = []
    def havoc_writes(s, st, writes):
        s._hst = st
        for k in sorted(writes, key=str):
            if k[0] == 'cell':
                _, rid, off, size = k
                if rid not in st.mem: continue
                c = st.mem[rid].cells.get(off)
                if c is None: continue
                sz, v = c
                nm = '%s_%d' % (st.mem[rid].name.split('!')[0], off)
                if isinstance(v, Vec):
                    n = fresh(nm + '_size')
                    r = st.new_array(nm + '_data', v.es, n)
                    nv = Vec(n, r.rid, v.es)
                elif isinstance(v, Ptr):
                    nv = UNDEF
                    # a lone pointer/iterator variable into an array: same array, arbitrary index (checked again at the latch)
                    if v.r is not None and v.r in st.mem and st.mem[v.r].arr is not None and ('arr', v.r) not in writes and (st.mem[v.r].es == 1 or (st.mem[rid].size == 8 and rid in st.allocas.values())):
                        nv = Ptr(v.r, 0, fresh(nm + '_idx'), st.mem[v.r].es)
                        s.hptrs.append((rid, off, v.r))
                elif isinstance(v, Opaque): nv = v
                elif v is UNDEF: nv = UNDEF
                elif isinstance(v, bool) or (not is_c(v) and z3.is_bool(v)): nv = fresh_bool(nm)
                else: nv = fresh(nm, sz * 8)
                r = st.wr(rid); r.cells[off] = (sz, nv)
            elif k[0] == 'arr':
                rid = k[1]
                if rid not in st.mem: continue
                r = st.wr(rid)
                r.arr = fresh_arr(r.name.split('!')[0], r.es * 8)
            elif k[0] == 'ghost':
                g = st.ghost.get(k[1])
                if g is not None and z3.is_expr(g):
                    st.ghost[k[1]] = z3.FreshConst(g.sort(), str(k[1]))

    def loop_entry(s, L, spec, prev, st, unroll):
        h = L.header
        sol = z3.Solver(); sol.set('rlimit', 32000 * s.feas_ms); sol.set('timeout', 60 * s.feas_ms); sol.add(*st.pc)
        if sol.check() == z3.unsat: return          # the path cannot be taken
        ph = s.phis(h, prev, st)
        # --- discover the written state (fixpoint)
        writes = set()
        pre_rids = set(st.mem)
        if not s.quiet or h not in s.cur_writes:
            s.quiet += 1
            save = (s.work, s.on_ret)
            for _ in range(6):
                st2 = st.fork()
                s.havoc_writes(st2, writes)
                s._hst = st2
                log = set()
                outer = st2.wlog
                st2.wlog = log
                for reg, (v, w) in ph.items():
                    st2.regs[reg] = s.havoc_like(reg, v, w)
                s.on_ret = lambda *a: None
                s.work = []
                s.disc = getattr(s, 'disc', {})
                s.disc[h] = L
                try:
                    s.body(h, st2, {}, stop=L)
                    while s.work:
                        b, p, st3, u = s.work.pop()
                        try: s.block(b, p, st3, u)
                        except PathDone: pass
                finally:
                    del s.disc[h]
                new = {k for k in log if k[0] == 'ghost' or k[1] in pre_rids}
                if new <= writes: break
                writes |= new
            s.work, s.on_ret = save
            s.quiet -= 1
            s.cur_writes[h] = writes
        else:
            writes = s.cur_writes[h]
        if st.wlog is not None: st.wlog |= writes
        # --- establish
        ren = s.ren.get(h, {})
        ctx = LoopCtx(s, st, L, ph, 'check', ren)
        ctx.entry = True
        st.ghost[('entry', h)] = None
        for c in s.inv_clauses(spec, ctx):
            s.oblige(st, 'loop%d.inv.%s.init' % (s.loops.index(L) + 1, c.name), 'loop-init', c, s.f.blocks[h].ins[0], c.hints)
        # --- arbitrary iteration
        st2 = st.fork()
        s.hptrs = []
        s.havoc_writes(st2, writes)
        st2.ghost[('hp', h)] = s.hptrs
        s._hst = st2
        ph2 = {}
        for reg, (v, w) in ph.items():
            ph2[reg] = (s.havoc_like(reg, v, w), w)
        ctx = LoopCtx(s, st2, L, ph2, 'assume', ren)
        keep = list(st2.pc), list(st2.facts)
        for c in s.inv_clauses(spec, ctx):
            st2.assume(c)
        if s.quiet: st2.pc, st2.facts = keep      # discovering what an enclosing loop writes: assume nothing about this one
        for reg, (v, w) in ctx.phi.items(): st2.regs[reg] = v
        if spec.decreases:
            st2.ghost[('dec', h)] = spec.decreases(ctx)
        st2.path.append('L%d;' % (s.loops.index(L) + 1))
        if spec.cases and not s.quiet:
            cs = [bo(c) for c in spec.cases(ctx)]
            s.oblige(st2, 'loop%d.cases' % (s.loops.index(L) + 1), 'derive', z3.Or(*cs), s.f.blocks[h].ins[0])
            for k, c in enumerate(cs):
                st3 = st2.fork(); st3.assume(c); st3.path.append('c%d;' % k)
                s.body(h, st3, unroll)
            return
        s.body(h, st2, unroll)

    def inv_clauses(s, spec, ctx):
        out = []
        for c in spec.inv(ctx):
            if isinstance(c, Named): out.append(c)
            elif isinstance(c, tuple): out.append(Named(c[0], c[1], c[2] if len(c) > 2 else ()))
            elif c is not None: out.append(Named('_', c))
        if ctx.mode == 'check':
            for nm, goal in ctx.asg: out.append(Named(nm, goal))
        return out

    def loop_latch(s, L, spec, prev, st):
        for rid, off, r in st.ghost.get(('hp', L.header), ()):
            c = st.mem[rid].cells.get(off)
            if c is None or not isinstance(c[1], Ptr) or c[1].r != r: raise Undecided('iterator changes the array it points into')
        ph = s.phis(L.header, prev, st)
        ctx = LoopCtx(s, st, L, ph, 'check', s.ren.get(L.header, {}))
        ctx.entry = False
        for c in s.inv_clauses(spec, ctx):
            s.oblige(st, 'loop%d.inv.%s.step' % (s.loops.index(L) + 1, c.name), 'loop-step', c, s.f.blocks[prev].ins[-1], c.hints)
        if spec.decreases:
            d0 = st.ghost[('dec', L.header)]
            d1 = spec.decreases(ctx)
            s.oblige(st, 'loop%d.decreases' % (s.loops.index(L) + 1), 'termination', z3.ULT(d1, d0), s.f.blocks[prev].ins[-1])

    def block(s, blk, prev, st, unroll):
        s.npaths += 1
        if s.npaths > s.max_paths * 60: raise Undecided('too many paths')
        L = s.lmap.get(blk)
        disc = getattr(s, 'disc', None) or {}
        # discovery mode: stop at the discovered loop's header and outside of it
        for h, D in disc.items():
            if blk == h: return
            if blk not in D.blocks: return
        if L is not None:
            spec = s.lspec.get(blk)
            inside = prev in L.blocks
            if spec is not None and spec.unroll is None:
                if inside:
                    s.loop_latch(L, spec, prev, st)
                    return
                s.loop_entry(L, spec, prev, st, unroll)
                return
            if inside:
                n = unroll.get(blk, 0) + 1
                lim = spec.unroll if spec is not None else s.max_unroll
                if n > lim:
                    # every branch decision that lets the loop continue was feasible: complete only if this is infeasible
                    if s.feasible(st, z3.BoolVal(True)):
                        raise Undecided('loop at %s exceeds unroll limit %d' % (blk, lim))
                    return
                unroll = dict(unroll); unroll[blk] = n
            else:
                unroll = dict(unroll); unroll[blk] = 0
        if prev is not None:
            ph = s.phis(blk, prev, st)
            for reg, (v, w) in ph.items(): st.regs[reg] = v
        s.body(blk, st, unroll)

    def body(s, blk, st, unroll, stop=None):
        for ins in s.f.blocks[blk].ins:
            if ins.op == 'phi': continue
            s.ninstr += 1
            if s.ninstr > 6000000: raise Undecided('instruction budget')
            op = ins.op
            if op == 'br':
                s.work.append((ins.a[0], blk, st, unroll)); return
            if op == 'condbr':
                c = s.val(st, ins.a[0], IR.I1)
                if c is UNDEF: c = fresh_bool('undef')
                c2 = c if isinstance(c, bool) else z3.simplify(bo(c))
                if isinstance(c2, bool) or z3.is_true(c2) or z3.is_false(c2):
                    t = c2 if isinstance(c2, bool) else z3.is_true(c2)
                    s.work.append((ins.a[1] if t else ins.a[2], blk, st, unroll)); return
                c = bo(c)
                todo = []
                for cond, tgt, tag in ((c, ins.a[1], 'T'), (z3.Not(c), ins.a[2], 'F')):
                    if s.only_assert(tgt):
                        # assert(): the failing branch is an obligation, not a path
                        s.assert_fail(st, tgt, cond); continue
                    if s.feasible(st, cond): todo.append((cond, tgt, tag))
                for i, (cond, tgt, tag) in enumerate(todo):
                    n = st.fork() if i + 1 < len(todo) else st
                    n.assume(cond); n.path.append(tag)
                    s.work.append((tgt, blk, n, unroll))
                return
            if op == 'switch':
                v, d, cs = ins.a
                x = s.val(st, v, ins.ty); w = s.mod.resolve(ins.ty).w
                rest = []
                for cv, tgt in cs:
                    c = bo(icmp('eq', x, cv[1] & MASK[w], w)); rest.append(z3.Not(c))
                    if s.feasible(st, c):
                        n = st.fork(); n.assume(c); s.work.append((tgt, blk, n, unroll))
                c = z3.And(*rest) if rest else z3.BoolVal(True)
                if s.feasible(st, c):
                    st.assume(c); s.work.append((d, blk, st, unroll))
                return
            if op == 'ret':
                v = s.val(st, ins.a[0], ins.ty) if ins.a else None
                s.on_ret(st, v); return
            if op == 'unreachable':
                s.oblige(st, 'unreachable', 'safety', False, ins)
                return
            r = s.instr(ins, st, blk, unroll)
            if r == 'forked': return

    def only_assert(s, tgt):
        b = s.f.blocks[tgt].ins
        return len(b) >= 1 and b[0].op == 'call' and b[0].a[0] == ('glob', '__assert_fail')

    def assert_fail(s, st, tgt, cond):
        ins = s.f.blocks[tgt].ins[0]
        s.oblige(st, 'assert@%s' % s.loc(ins), 'assert', z3.Not(cond), ins)
        st.assume(z3.Not(cond))

    def instr(s, ins, st, blk, unroll):
        op = ins.op
        if op in IR.BIN:
            a, b, flags = ins.a
            t = s.mod.resolve(ins.ty)
            x = s.val(st, a, t); y = s.val(st, b, t)
            if isinstance(x, (Ptr, PtrInt)) or isinstance(y, (Ptr, PtrInt)):
                st.regs[ins.res] = s.ptrint_op(st, op, x, y); return
            if x is UNDEF: x = fresh('undef', t.w) if t.w > 1 else fresh_bool('undef')
            if y is UNDEF: y = fresh('undef', t.w) if t.w > 1 else fresh_bool('undef')
            if t.w == 1:
                X, Y = bo(x), bo(y)
                if isinstance(x, bool) and isinstance(y, bool):
                    st.regs[ins.res] = {'and': x and y, 'or': x or y, 'xor': x != y}[op]
                else:
                    st.regs[ins.res] = z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](X, Y))
                return
            if op in ('shl', 'lshr', 'ashr'):
                yc = as_c(y)
                if not (is_c(yc) and yc < t.w):
                    s.oblige(st, 'shift-in-range', 'safety', icmp('ult', y, t.w, t.w), ins)
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                yc = as_c(y)
                if not (is_c(yc) and yc):
                    s.oblige(st, 'no-division-by-zero', 'safety', icmp('ne', y, 0, t.w), ins)
            if 'nsw' in flags and op in ('add', 'sub', 'mul') and not s.noverflow:
                xc, yc = as_c(x), as_c(y)
                if not (is_c(xc) and is_c(yc)):
                    X, Y = bv(x, t.w), bv(y, t.w)
                    if op == 'add': g = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
                    elif op == 'sub': g = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
                    else: g = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
                    s.oblige(st, 'no-signed-overflow', 'safety', g, ins)
                else:
                    a_, b_ = sgn(xc, t.w), sgn(yc, t.w)
                    rr = {'add': a_ + b_, 'sub': a_ - b_, 'mul': a_ * b_}[op]
                    if not (-(1 << (t.w - 1)) <= rr < (1 << (t.w - 1))):
                        s.oblige(st, 'no-signed-overflow', 'safety', False, ins)
            h = s.models.get('binop')
            r = None
            if h: r = h(s, st, op, x, y, t.w)
            st.regs[ins.res] = r if r is not None else binop(op, x, y, t.w)
            return
        if op == 'icmp':
            pred, a, b = ins.a
            t = s.mod.resolve(ins.ty)
            x = s.val(st, a, t); y = s.val(st, b, t)
            if t.k == 'ptr': st.regs[ins.res] = s.pcmp(st, pred, x, y); return
            if x is UNDEF or y is UNDEF: st.regs[ins.res] = fresh_bool('undef'); return
            if t.w == 1:
                X, Y = bo(x), bo(y)
                st.regs[ins.res] = z3.simplify({'eq': X == Y, 'ne': X != Y}[pred]); return
            st.regs[ins.res] = icmp(pred, x, y, t.w)
            return
        if op in ('zext', 'sext', 'trunc'):
            t0, a = ins.a; t0 = s.mod.resolve(t0); t1 = s.mod.resolve(ins.ty)
            x = s.val(st, a, t0)
            if x is UNDEF: x = fresh('undef', t0.w) if t0.w > 1 else fresh_bool('undef')
            st.regs[ins.res] = s.cast(op, x, t0.w, t1.w)
            return
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            a = ins.a[1] if op != 'freeze' else ins.a[0]
            st.regs[ins.res] = s.val(st, a, ins.ty); return
        if op == 'ptrtoint':
            p = s.val(st, ins.a[1], IR.PTR)
            st.regs[ins.res] = PtrInt(p); return
        if op == 'inttoptr':
            x = s.val(st, ins.a[1], ins.a[0])
            if isinstance(x, PtrInt): st.regs[ins.res] = x.p; return
            if is_c(as_c(x)) and as_c(x) == 0: st.regs[ins.res] = NULL; return
            raise Undecided('inttoptr')
        if op == 'alloca':
            r = st.new_region(ins.res, size=s.mod.size(ins.ty))
            if ins.ty.k == 'arr' and r.size >= 256 and s.mod.size(ins.ty.el) == 1: r.es = 1; r.arr = fresh_arr('chars', 8); r.ln = r.size
            st.regs[ins.res] = Ptr(r.rid); st.allocas[ins.res] = r.rid
            return
        if op == 'load':
            p = s.val(st, ins.a[0], IR.PTR)
            st.regs[ins.res] = s.load(st, p, ins.ty, ins); return
        if op == 'store':
            v = s.val(st, ins.a[0], ins.ty); p = s.val(st, ins.a[1], IR.PTR)
            s.store(st, p, ins.ty, v, ins); return
        if op == 'getelementptr':
            bt, base, idx = ins.a
            st.regs[ins.res] = s.gep(st, bt, s.val(st, base, IR.PTR), [(t, s.val(st, x, t)) for t, x in idx]); return
        if op == 'select':
            c, a, b = ins.a
            cv = s.val(st, c, IR.I1); x = s.val(st, a, ins.ty); y = s.val(st, b, ins.ty)
            if isinstance(cv, bool): st.regs[ins.res] = x if cv else y; return
            cs = z3.simplify(bo(cv))
            if z3.is_true(cs): st.regs[ins.res] = x; return
            if z3.is_false(cs): st.regs[ins.res] = y; return
            t = s.mod.resolve(ins.ty)
            if t.k == 'int' and x is not UNDEF and y is not UNDEF:
                if t.w == 1: st.regs[ins.res] = z3.If(cs, bo(x), bo(y))
                else: st.regs[ins.res] = z3.If(bo(cv), bv(x, t.w), bv(y, t.w))
                return
            # pointers: fork
            rest = s.rest_of(ins, blk)
            n = st.fork()
            out = []
            for cond, v, stx in ((bo(cv), x, st), (z3.Not(bo(cv)), y, n)):
                if s.feasible(stx, cond):
                    stx.assume(cond); stx.regs[ins.res] = v
                    out.append(stx)
            for stx in out: s.resume(blk, rest, stx, unroll)
            return 'forked'
        if op == 'extractvalue':
            v, idx = ins.a
            x = s.val(st, v, ins.ty)
            for i in idx: x = x[i]
            st.regs[ins.res] = x; return
        if op == 'insertvalue':
            v, t2, e, idx = ins.a
            x = s.val(st, v, ins.ty); x = list(x); x[idx[0]] = s.val(st, e, t2)
            st.regs[ins.res] = x; return
        if op == 'call':
            return s.call(ins, st, blk, unroll)
        raise Undecided('instruction ' + op)

    def rest_of(s, ins, blk):
        b = s.f.blocks[blk]
        return b.ins.index(ins) + 1
    def resume(s, blk, k, st, unroll):
        """continue block blk at instruction k (used after a fork inside a block)"""
        ins = s.f.blocks[blk].ins
        nm = '%s#%d' % (blk, k)
        if nm not in s.f.blocks:
            nb = IR.Block(nm); nb.ins = ins[k:]
            s.f.blocks[nm] = nb
            for L in s.loops:
                if blk in L.blocks: L.blocks.add(nm)
        # successors' phis refer to the original block name
        s.alias = getattr(s, 'alias', {})
        try:
            s.body_as(nm, blk, st, unroll)
        except PathDone:
            pass
    def body_as(s, nm, blk, st, unroll):
        save = s.work
        s.work = []
        s.body(nm, st, unroll)
        w = s.work; s.work = save
        for (b, p, x, u) in w:
            s.work.append((b, blk if p == nm else p, x, u))

    def cast(s, op, x, w0, w1):
        if w0 == 1:
            if isinstance(x, bool): v = int(x)
            elif z3.is_bool(x):
                if op == 'sext': return z3.If(x, z3.BitVecVal(MASK[w1], w1), z3.BitVecVal(0, w1))
                return z3.If(x, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
            else: v = x
            if op == 'sext': return (-v) & MASK[w1]
            return v
        if isinstance(x, PtrInt): raise Undecided('cast of pointer integer')
        x = as_c(x)
        if op == 'trunc':
            if w1 == 1:
                if is_c(x): return bool(x & 1)
                # (zext b) trunc -> b
                if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)) and x.arg(1).as_long() & 1 and not x.arg(2).as_long() & 1:
                    return x.arg(0)
                return z3.Extract(0, 0, x) == z3.BitVecVal(1, 1)
            return x & MASK[w1] if is_c(x) else z3.Extract(w1 - 1, 0, x)
        if op == 'zext': return x if is_c(x) else z3.ZeroExt(w1 - w0, x)
        return sgn(x, w0) & MASK[w1] if is_c(x) else z3.SignExt(w1 - w0, x)

    def ptrint_op(s, st, op, x, y):
        if op == 'sub' and isinstance(x, PtrInt) and isinstance(y, PtrInt):
            a, b = x.p, y.p
            if a.r == b.r:
                if a.sc == b.sc or is_c(as_c(a.idx)) or is_c(as_c(b.idx)):
                    def byte(p): return binop('add', binop('mul', p.idx, p.sc, 64), p.off & MASK[64], 64)
                    if a.sc == b.sc:
                        return binop('add', binop('mul', binop('sub', a.idx, b.idx, 64), a.sc, 64), (a.off - b.off) & MASK[64], 64)
                    return binop('sub', byte(a), byte(b), 64)
        raise Undecided('pointer integer arithmetic')

    def pcmp(s, st, pred, x, y):
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            if x is UNDEF or y is UNDEF: return fresh_bool('undef')
            raise Undecided('pointer comparison %r %r' % (x, y))
        if x.r != y.r or x.r is None or y.r is None:
            if x.r is None and y.r is None: eq = True
            else: eq = False
            if pred == 'eq': return eq
            if pred == 'ne': return not eq
            raise Undecided('ordering of pointers into different objects')
        if x.sc == y.sc and x.off == y.off:
            return icmp(pred, x.idx, y.idx, 64)
        def byte(p): return binop('add', binop('mul', p.idx, p.sc, 64), p.off & MASK[64], 64)
        return icmp(pred, byte(x), byte(y), 64)

    # ---- calls
    def call(s, ins, st, blk, unroll):
        callee, args = ins.a
        if callee[0] != 'glob': raise Undecided('indirect call')
        name = callee[1]
        vals = [(t, s.val(st, v, t) if v[0] != 'md' else None) for t, v in args]
        h = s.models['lookup'](name)
        if h is None:
            raise Undecided('call to %s, which has neither a body in reach, nor a contract, nor a model' % s.models['demangle'](name))
        s.called.add(name)
        c = Call(s, st, ins, name, [v for _, v in vals], [t for t, _ in vals])
        r = h(c)
        if isinstance(r, Fork):
            rest = s.rest_of(ins, blk)
            outs = []
            for cond, fn in r.alts:
                n = st.fork()
                if not s.feasible(n, bo(cond)): continue
                n.assume(cond)
                c2 = Call(s, n, ins, name, [v for _, v in vals], [t for t, _ in vals])
                v = fn(c2)
                if ins.res is not None: n.regs[ins.res] = v
                outs.append(n)
            for n in outs: s.resume(blk, rest, n, unroll)
            return 'forked'
        if ins.res is not None: st.regs[ins.res] = r

class PtrInt:
    def __init__(s, p): s.p = p
class Fork:
    def __init__(s, alts): s.alts = alts

class Call:
    """view of a call site handed to models and contracts"""
    def __init__(s, ex, st, ins, name, args, tys):
        s.ex = ex; s.st = st; s.ins = ins; s.name = name; s.args = args; s.tys = tys
    def oblige(s, nm, goal, kind='pre'):
        s.ex.oblige(s.st, nm, kind, goal, s.ins)
    def require(s, nm, goal):
        s.ex.oblige(s.st, nm, 'pre', goal, s.ins)
        if isinstance(goal, Named): goal = goal.f
        s.st.assume(goal)
    def load(s, p, t): return s.ex.load(s.st, p, t, s.ins)
    def store(s, p, t, v): return s.ex.store(s.st, p, t, v, s.ins)
