"""Spec functions and lemma schemas shared by the contracts.

  BIT(A,i)   bit i of the word array A                      (defined: BIT(A,i) <-> (A[i>>6] >> (i&63)) & 1)
  PC(x)      popcount of a word                             (uninterpreted + lemmas below, each proved over the definition)
  RW(A,w)    number of ones in words [0,w) of A             (defined: RW(A,0)=0, RW(A,w+1)=RW(A,w)+PC(A[w]))
  CN(A,p)    = RK(A,p), opaque;  GB(A,p,l) = bits [p,p+l) of A as an integer, opaque;  MUL, UDIV: products and quotients
  RK(A,p)    ones before position p = RW(A,p>>6)+PC(A[p>>6] & lowmask(p&63))
"""
import z3
from engine.spec import *
from engine.smt import arr_base_eq

S64 = z3.BitVecSort(64)
A64 = z3.ArraySort(S64, S64)
BITF = z3.Function('BIT', A64, S64, z3.BoolSort())
PC = z3.Function('PC', S64, S64)
RW = z3.Function('RW', A64, S64, S64)

CNF = z3.Function('CN', A64, S64, S64)
GBF = z3.Function('GB', A64, S64, S64, S64)
from engine.vc import MULF, DIVF
ULT, ULE, UGT, UGE, LShR, And, Or, Not, Implies, If, Select, Store = z3.ULT, z3.ULE, z3.UGT, z3.UGE, z3.LShR, z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select, z3.Store

def BIT(A, i): return BITF(A, bv(i))
def bitx(A, i): return (LShR(Select(A, LShR(i, 6)), i & 63) & 1) == 1
def wbit(x, i): return (LShR(x, i) & 1) == 1
def low(x, n):
    """x restricted to its n low bits, n in [0,63]"""
    return x & ((bv(1) << n) - 1)
def lowm(n): return (bv(1) << n) - 1          # n < 64
def wfor(n): return LShR(n + 63, 6)
def RK(A, p): return RW(A, LShR(p, 6)) + PC(low(Select(A, LShR(p, 6)), p & 63))

def sels(*arrs):
    return lambda ix: [(t,) for a in arrs for t in ix.selects(a)]
def bits_of(*arrs):
    """trigger: positions at which BIT is applied to one of the arrays (or a store over it)"""
    def tr(ix):
        out = []
        for t in ix.app('BIT'):
            if any(arr_base_eq(t.arg(0), a) for a in arrs): out.append((t.arg(1),))
        return out
    return tr
def FA(body, trig, name='', n=1): return Forall(body, n, trig, name)

# ------------------------------------------------------------------ lemma schemas
def _keep(t, f): return f
def L_bit(ix):
    for t in list(ix.app('BIT')):
        yield (t.get_id(),), (lambda t=t: t == bitx(t.arg(0), t.arg(1)))

def L_split(ix):
    """word/bit decomposition of BIT(A, a-b) and BIT(A, a+b)"""
    for t in list(ix.app('BIT')):
        e = t.arg(1)
        if z3.is_app_of(e, z3.Z3_OP_BSUB) and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            yield ('s', t.get_id()), (lambda a=a, b=b, e=e: Implies(UGE(a, b), And(LShR(e, 6) == LShR(a, 6) - LShR(b, 6) - If(UGE(a & 63, b & 63), bv(0), bv(1)), (e & 63) == (((a & 63) - (b & 63)) & 63))))
        elif z3.is_app_of(e, z3.Z3_OP_BADD) and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            yield ('a', t.get_id()), (lambda a=a, b=b, e=e: Implies(UGE(e, b), And(LShR(e, 6) == LShR(a, 6) + LShR(b, 6) + If(ULT((a & 63) + (b & 63), bv(64)), bv(0), bv(1)), (e & 63) == (((a & 63) + (b & 63)) & 63))))
def PAD(A, size, nw):
    """bits past size in the last word are zero: proved bit by bit, used also as a word-level equation"""
    return Dual(FA(lambda j: Implies(And(UGE(j, size), ULT(j, nw << 6)), Not(BIT(A, j))), bits_of(A), 'pad'),
                [Implies((size & 63) != 0, LShR(Select(A, LShR(size, 6)), size & 63) == 0)])

def simp(x): return z3.simplify(x)
def minus1(w):
    """x if w is syntactically x+1 (without rewriting x)"""
    if z3.is_app_of(w, z3.Z3_OP_BADD) and w.num_args() == 2:
        for k in (0, 1):
            if z3.is_bv_value(w.arg(k)) and w.arg(k).as_long() == 1: return w.arg(1 - k)
    return None

def L_pc(ix):
    for t in list(ix.app('PC')):
        x = t.arg(0)
        def f(t=t, x=x):
            out = [ULE(t, bv(64)), (t == 0) == (x == 0)]
            return out
        yield (t.get_id(),), f

def L_rw(ix):
    apps = list(ix.app('RW'))
    for t in apps:
        A, w = t.arg(0), t.arg(1)
        def f(t=t, A=A, w=w):
            return [Implies(w == 0, t == 0), Implies(ULE(w, bv(1 << 57)), ULE(t, w << 6))]
        yield ('b', t.get_id()), f
        m = minus1(w)
        if m is not None:
            yield ('s', t.get_id()), (lambda t=t, A=A, m=m: t == RW(A, m) + PC(Select(A, m)))
        # store: agreement below the stored word
        if z3.is_app_of(A, z3.Z3_OP_STORE):
            B, i, v = A.arg(0), A.arg(1), A.arg(2)
            yield ('st', t.get_id()), (lambda t=t, B=B, i=i, w=w: Implies(ULE(w, i), t == RW(B, w)))
    for t in apps:
        for u in apps:
            if t.get_id() != u.get_id() and t.arg(0).eq(u.arg(0)):
                a, b = t.arg(1), u.arg(1)
                yield ('m', t.get_id(), u.get_id()), (lambda t=t, u=u, a=a, b=b: Implies(And(ULE(a, b), ULE(b, bv(1 << 57))), And(ULE(t, u), ULE(u - t, (b - a) << 6))))

def L_rwst(ix):
    """RW(Store(B,i,v), w) = RW(B,w) for w <= i"""
    for t in list(ix.app('RW')):
        A, w = t.arg(0), t.arg(1)
        if z3.is_app_of(A, z3.Z3_OP_STORE): yield ('st', t.get_id()), (lambda t=t, A=A, w=w: Implies(ULE(w, A.arg(1)), t == RW(A.arg(0), w)))
def L_rwstep(ix):
    """RW(A,w+1) = RW(A,w)+PC(A[w]) at every w where both RW(A,w) and A[w] occur"""
    byA = {}
    for t in ix.app('RW'): byA.setdefault(t.arg(0).get_id(), (t.arg(0), []))[1].append(t.arg(1))
    for aid, (A, ws) in list(byA.items()):
        seen = set()
        idx = [i for i in ix.selects(A)]
        for w in idx:
            if w.get_id() in seen: continue
            seen.add(w.get_id())
            yield ('w', aid, w.get_id()), (lambda A=A, w=w: RW(A, w + 1) == RW(A, w) + PC(Select(A, w)))

def pcdef(x):
    # the same sum of per-byte sums as contracts/bw.py:pcw
    r = bv(0)
    for j in range(8):
        t = z3.BitVecVal(0, 8)
        for i in range(8): t = t + z3.ZeroExt(7, z3.Extract(8 * j + i, 8 * j + i, x))
        r = r + z3.ZeroExt(56, t)
    return r
def L_pcdef(ix):
    """unfold PC (only where the word-level proofs need it)"""
    for t in list(ix.app('PC')): yield ('d', t.get_id()), (lambda t=t: t == pcdef(t.arg(0)))
def LM(n):
    """mask of the n low bits, n in [0,64]"""
    if z3.is_app_of(n, z3.Z3_OP_BAND) and any(z3.is_bv_value(x) and x.as_long() == 63 for x in n.children()): return lowm(n)
    return If(UGE(n, bv(64)), bv(-1), (bv(1) << n) - 1)
# lemma instances used explicitly by the specs (each proved in theory_obls)
def pc_split(x, f): return PC(x) == PC(x & LM(f)) + PC(x & ~LM(f))
def rw_step(A, w): return RW(A, w + 1) == RW(A, w) + PC(Select(A, w))      # definition of RW
def pc_bit(n): return Implies(ULT(n, bv(64)), PC(bv(1) << n) == 1)
def pc_low0(x, n): return Implies(ULE(n, bv(64)), PC(~x & LM(n)) == n - PC(x & LM(n)))
def pc_not(x): return PC(~x) == 64 - PC(x)

def CN(A, p): return CNF(A, p)
def cn_def(A, p): return CNF(A, p) == RK(A, p)
def GB(A, p, l): return GBF(A, p, l)
def bit1(b): return If(b, bv(1), bv(0))
def cn_pair(A, p, q):
    """counting is monotone, by at most one per position, by exactly one at a one"""
    a, b = CNF(A, p), CNF(A, q)
    return Implies(And(ULE(p, q), ULE(q, bv(1 << 57))), And(ULE(a, p), ULE(a, b), ULE(b - a, q - p), Implies(p != q, And(Implies(BITF(A, p), UGE(b, a + 1)), Implies(Not(BITF(A, p)), ULE(b - a, q - p - 1))))))
def L_cn(ix):
    byA = {}
    for t in ix.app('CN'): byA.setdefault(t.arg(0).get_id(), (t.arg(0), []))[1].append(t.arg(1))
    for aid, (A, ps) in list(byA.items()):
        for p in ps:
            yield ('0', aid, p.get_id()), (lambda A=A, p=p: And(Implies(p == 0, CNF(A, p) == 0), Implies(ULE(p, bv(1 << 57)), ULE(CNF(A, p), p))))
            for q in ps:
                if p.get_id() != q.get_id(): yield ('p', aid, p.get_id(), q.get_id()), (lambda A=A, p=p, q=q: cn_pair(A, p, q))
def mul_pair(a, b, l): return And(Implies(And(ULT(a, b), ULE(b, bv(1 << 56)), ULT(l, bv(64))), And(ULE(MULF(a, l) + l, MULF(b, l)), ULE(MULF(b, l), bv(1 << 62)))), Implies(b == a + 1, MULF(b, l) == MULF(a, l) + l))
def L_mul(ix):
    ts = list(ix.app('MUL'))
    for t in ts:
        a, l = t.arg(0), t.arg(1)
        yield ('c', t.get_id()), (lambda t=t, a=a, l=l: [t == MULF(l, a), Implies(Or(a == 0, l == 0), t == 0), Implies(And(ULE(a, bv(1 << 56)), ULT(l, bv(64))), ULE(t, bv(1 << 62))), Implies(And(ULT(a, bv(1 << 50)), ULT(l, bv(64))), ULT(t, bv((1 << 56) - 128)))])
        for u in ts:
            if u.get_id() != t.get_id() and u.arg(1).eq(l): yield ('p', t.get_id(), u.get_id()), (lambda a=a, b=u.arg(0), l=l: mul_pair(a, b, l))
def L_gb0(ix):
    for t in list(ix.app('GB')): yield ('z', t.get_id()), (lambda t=t: And(Implies(t.arg(2) == 0, t == 0), Implies(ULT(t.arg(2), bv(64)), LShR(t, t.arg(2)) == 0)))
ABS = (L_cn, L_mul, L_gb0)

BASE = (L_bit, L_split)
RANK = (L_bit, L_split, L_pc, L_rw)

# ------------------------------------------------------------------ objects
def lay(c_or_v): 
    return c_or_v

class BVw:
    """a read-only view of a bit_vector: size (bits), A (word array), nw (words)"""
    pass

MV = 'succinct::mapper::mappable_vector<%s>'
TN = {8: 'unsigned long', 2: 'unsigned short', 1: 'unsigned char', 4: 'unsigned int'}

def mk_mv(v, st, reg, off, tu, T='unsigned long', es=8, name='bits', n=None, arr=None):
    """create a mappable_vector<T> inside region reg at offset off"""
    L = v.env.layout(tu)
    t = MV % T
    n = n if n is not None else fresh(name + '_n')
    a = st.new_array(name, es, n, arr)
    a.ro = True
    reg.cells[off + L.off(t, 'm_data')] = (8, Ptr(a.rid))
    reg.cells[off + L.off(t, 'm_size')] = (8, n)
    reg.cells[off + L.off(t, 'm_deleter')] = (32, Del())
    return a, n

class MVV:
    """view of a mappable_vector at ptr"""
    def __init__(s, ex, st, ptr, tu, T='unsigned long', es=8):
        L = ex.env.layout(tu); t = MV % T
        s.n = peek(ex, st, pofs(ptr, L.off(t, 'm_size')))
        d = peek(ex, st, pofs(ptr, L.off(t, 'm_data')))
        s.data = d
        if isinstance(d, Ptr) and d.r is not None and st.mem[d.r].arr is not None:
            s.rid = d.r
            s.A = st.mem[d.r].arr
            if not (is_c(as_c(d.idx)) and as_c(d.idx) == 0 and d.off == 0): raise Undecided('mappable_vector data pointer is not the start of its storage')
            s.ln = st.mem[d.r].ln
        else:
            s.rid = None; s.ln = bv(0); s.A = z3.K(S64, z3.BitVecVal(0, es * 8))

def mk_bv(v, st, reg, off, tu, name='bits', cls='succinct::bit_vector'):
    L = v.env.layout(tu)
    sz = fresh(name + '_size')
    reg.cells[off + L.off(cls, 'm_size')] = (8, sz)
    return mk_mv(v, st, reg, off + L.off(cls, 'm_bits'), tu, name=name)

class BV:
    def __init__(s, c, ptr, tu, st=None, cls='succinct::bit_vector'):
        st = st or c.st
        L = c.ex.env.layout(tu)
        s.size = peek(c.ex, st, pofs(ptr, L.off(cls, 'm_size')))
        m = MVV(c.ex, st, pofs(ptr, L.off(cls, 'm_bits')), tu)
        s.A, s.nw, s.rid, s.ln = m.A, m.n, m.rid, m.ln
    def wf(s, maxbits=1 << 56):
        """representation invariant"""
        return [('size bound', ULT(s.size, bv(maxbits))), ('words = ceil(size/64)', s.nw == wfor(s.size)), ('storage', bv(s.ln) == s.nw),
                ('padding is zero', PAD(s.A, s.size, s.nw))]

def pre_all(c, lst, pfx=''):
    for n, f in lst: c.pre(pfx + n, f)
def post_all(c, lst, pfx='', chain=False):
    for n, f in lst: c.post(pfx + n, f, chain=chain)

# ------------------------------------------------------------------ the lemmas themselves, proved
def theory_obls():
    """(name, [assertions]) -- each must be unsat"""
    from engine.models import pop_def
    out = []
    x = z3.BitVec('x', 64)
    p = z3.Function('P', S64, S64)
    # popcount bounds over the definition
    d = pcdef(x)
    out.append(('PC(x) <= 64', [Not(ULE(d, bv(64)))]))
    out.append(('PC(x) = 0 iff x = 0', [Not((d == 0) == (x == 0))]))
    sh = z3.BitVec('s', 64)
    out.append(('bits >= s all zero implies x >> s = 0', [ULT(sh, bv(64))] + [Implies(ULE(sh, bv(j)), (LShR(x, bv(j)) & 1) == 0) for j in range(64)] + [LShR(x, sh) != 0]))
    a, b = z3.BitVecs('a b', 64)
    for f in range(65):
        m = bv((1 << f) - 1)
        out.append(('PC(x) = PC(x & LM(%d)) + PC(x & ~LM(%d))' % (f, f), [pcdef(x) != pcdef(x & m) + pcdef(x & ~m)]))
    for f in range(65):
        m = bv((1 << f) - 1)
        out.append(('PC(~x & LM(%d)) = %d - PC(x & LM(%d))' % (f, f, f), [pcdef(~x & m) != f - pcdef(x & m)]))
        if f < 64: out.append(('PC(1 << %d) = 1' % f, [pcdef(bv(1 << f)) != 1]))
    out.append(('PC(~x) = 64 - PC(x)', [pcdef(~x) != 64 - pcdef(x)]))
    out.append(('word/bit split of a difference', [UGE(a, b), Not(And(LShR(a - b, 6) == LShR(a, 6) - LShR(b, 6) - If(UGE(a & 63, b & 63), bv(0), bv(1)), ((a - b) & 63) == (((a & 63) - (b & 63)) & 63)))]))
    out.append(('word/bit split of a sum', [UGE(a + b, b), Not(And(LShR(a + b, 6) == LShR(a, 6) + LShR(b, 6) + If(ULT((a & 63) + (b & 63), bv(64)), bv(0), bv(1)), ((a + b) & 63) == (((a & 63) + (b & 63)) & 63)))]))
    lo, hi, q, j, av, nw = z3.BitVecs('lo hi q j av nw', 64)
    sft = q & 63
    W = If(ULT(LShR(q, 6), nw), LShR(lo, sft), bv(0)) | If(And(sft != 0, ULT(LShR(q, 6) + 1, nw)), hi << (64 - sft), bv(0))
    e = q + j
    out.append(('bit j of the 64-bit window at q (lo, hi = words q/64, q/64+1)', [ULT(j, bv(64)), ULT(q, bv(1 << 57)), ULE(nw, bv(1 << 50)), ULE(av, bv(64)),
        Not(((LShR(W & LM(av), j) & 1) == 1) == And(ULT(j, av), ULT(e, nw << 6), (LShR(If(LShR(e, 6) == LShR(q, 6), lo, hi), e & 63) & 1) == 1))]))
    # CN: one position more counts one bit more (definition of RK), then monotonicity by induction on q - p
    for k in range(64):
        hi = x & bv((1 << (k + 1)) - 1); lo_ = x & bv((1 << k) - 1)
        out.append(('RK(p+1) = RK(p) + bit p, p mod 64 = %d' % k, [pcdef(hi) != pcdef(lo_) + (LShR(x, bv(k)) & 1)]))
    p0, q0, cp, cq, cq1 = z3.BitVecs('p0 q0 cp cq cq1', 64); b0, b1 = z3.Bools('b0 b1')
    claim = lambda q, c_: And(ULE(cp, p0), ULE(cp, c_), ULE(c_ - cp, q - p0), Implies(p0 != q, And(Implies(b0, UGE(c_, cp + 1)), Implies(Not(b0), ULE(c_ - cp, q - p0 - 1)))))
    out.append(('CN monotone (induction step)', [ULE(p0, q0), ULT(q0, bv(1 << 57)), claim(q0, cq), cq1 == cq + bit1(b1), Implies(p0 == q0, And(b1 == b0, cq == cp)), Not(claim(q0 + 1, cq1))]))
    out.append(('CN(p) <= p (induction step)', [ULE(cp, p0), ULT(p0, bv(1 << 57)), Not(ULE(cp + bit1(b0), p0 + 1))]))
    ia, ib, il = z3.Ints('a b l')
    out.append(('a < b implies a l + l <= b l', [ia >= 0, ia < ib, il >= 0, il < 64, ib <= 1 << 56, ia * il + il > ib * il]))
    out.append(('products below 2^56', [ib >= 0, il >= 0, il < 64, ib < 1 << 50, ib * il >= (1 << 56) - 128]))
    out.append(('products below 2^62', [ib >= 0, il >= 0, il < 64, ib <= 1 << 56, ib * il > 1 << 62]))
    # RW by induction on d: RW(w+d) - RW(w) in [0, 64 d]
    r0, rd, r1, pc, dd, w = z3.BitVecs('r0 rd r1 pc d w', 64)
    out.append(('RW monotone and <= 64 per word (induction step)',
                [ULE(w + dd, bv(1 << 57)), ULT(dd, bv(1 << 57)), ULE(w, bv(1 << 57)), ULT(w + dd, bv(1 << 57)), ULE(r0, w << 6), ULE(r0, rd), ULE(rd - r0, dd << 6), ULE(pc, bv(64)), r1 == rd + pc,
                 Not(And(ULE(r0, r1), ULE(r1 - r0, (dd + 1) << 6)))]))
    return out
