"""rs_bit_vector: rank/select against counting (C05)."""
from contracts.theory import *
from contracts.mv import own
TU = 'rs'
CLS = 'succinct::rs_bit_vector'
S9 = sum(1 << (9 * i) for i in range(7))
I9 = sum((7 - i) << (9 * i) for i in range(7))
HINT = 1024
def fld(x, k):
    """9-bit field k (1..7) of a sub-rank word, from the top"""
    return LShR(x, 9 * (7 - k)) & 0x1FF

# ---- lemma schemas (each proved in rs_obls below, or an instance of congruence)
def mulc(t, k):
    """x if t is x * k"""
    if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2:
        for i in (0, 1):
            if z3.is_bv_value(t.arg(i)) and t.arg(i).as_long() == k: return t.arg(1 - i)
    return None
def par9(x):
    """x*ones_step_9 has x in every field, for x < 512"""
    return Implies(ULT(x, bv(512)), And(*[fld(x * bv(S9), k) == x for k in range(1, 8)]))
def sum9(u):
    """u*ones_step_9 >> 54 & 7 adds up the seven 0/1 fields"""
    return Implies(And(ULT(u, bv(1 << 63)), *[ULE(fld(u, k), bv(1)) for k in range(1, 8)]), (LShR(u * bv(S9), 54) & 7) == sum((fld(u, k) for k in range(2, 8)), fld(u, 1)))
def inv9(x):
    """64*inv_count_step_9 - x subtracts field by field"""
    return Implies(And(ULT(x, bv(1 << 63)), *[ULE(fld(x, k), bv(64 * k)) for k in range(1, 8)]), And(ULT(bv(64 * I9) - x, bv(1 << 63)), *[fld(bv(64 * I9) - x, k) == 64 * k - fld(x, k) for k in range(1, 8)]))
def or9(x, y): return Implies(ULT(y, bv(512)), ((x << 9) | y) == (x << 9) + y)
def pc_shl(x, s): return Implies(And(UGE(s, bv(1)), ULE(s, bv(63))), PC(x << (64 - s)) == PC(x & LM(s)))
def L_step9(ix):
    for t in list(ix.order):
        if not z3.is_bv(t) or t.size() != 64: continue
        x = mulc(t, S9)
        if x is not None:
            yield ('p', t.get_id()), (lambda x=x: par9(x))
            yield ('u', t.get_id()), (lambda x=x: sum9(x))
        elif z3.is_app_of(t, z3.Z3_OP_BSUB) and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == (64 * I9) % (1 << 64):
            yield ('i', t.get_id()), (lambda t=t: inv9(t.arg(1)))
        elif z3.is_app_of(t, z3.Z3_OP_BLSHR) and not z3.is_bv_value(t.arg(1)) and mulc(t.arg(1), 9) is not None:
            yield ('s', t.get_id()), (lambda t=t: [Implies(t.arg(1) == 9 * k, t == LShR(t.arg(0), 9 * k)) for k in range(8)])
        elif z3.is_app_of(t, z3.Z3_OP_BOR) and t.num_args() == 2 and z3.is_app_of(t.arg(0), z3.Z3_OP_BSHL) and z3.is_bv_value(t.arg(0).arg(1)) and t.arg(0).arg(1).as_long() == 9:
            yield ('o', t.get_id()), (lambda t=t: or9(t.arg(0).arg(0), t.arg(1)))
def rs_obls():
    x, y = z3.BitVecs('x y', 64)
    out = [('x*ones_step_9 has x in every field', [Not(par9(x))]), ('ones_step_9 product adds 0/1 fields', [Not(sum9(x))]), ('64*inv_count_step_9 - x is fieldwise', [Not(inv9(x))]), ('(x<<9)|y is a sum', [Not(or9(x, y))])]
    # popcount as the integer sum of the bits (pcdef adds bytes of bits; the byte sums do not overflow)
    z = z3.BitVec('z', 8); e = lambda t, w: z3.ZeroExt(w, t)
    out.append(('a byte sum of bits is exact', [e(sum((e(z3.Extract(i, i, z), 7) for i in range(1, 8)), e(z3.Extract(0, 0, z), 7)), 56) != sum((e(z3.Extract(i, i, z), 63) for i in range(1, 8)), e(z3.Extract(0, 0, z), 63))]))
    ib = lambda y: z3.Sum([If(z3.simplify(z3.Extract(i, i, y)) == 1, z3.IntVal(1), z3.IntVal(0)) for i in range(64)])
    for s in range(1, 64): out.append(('PC(x << %d) = PC(x & LM(%d))' % (64 - s, s), [ib(x << (64 - s)) != ib(x & bv((1 << s) - 1))]))
    return out

def mk_rs(v, st, reg, off, tu, name='bits', cls=CLS, hints=(None, None)):
    """hints: None = symbolic presence is modelled by a (possibly empty) vector"""
    L = v.env.layout(tu)
    mk_bv(v, st, reg, off, tu, name)
    for f in ('m_block_rank_pairs', 'm_select_hints', 'm_select0_hints'): mk_mv(v, st, reg, off + L.off(CLS, f), tu, name=name + '_' + f[2:])
class RS:
    def __init__(s, c, ptr, tu=TU, st=None):
        st = st or c.st; L = c.ex.env.layout(tu)
        s.b = BV(c, ptr, tu, st); s.A, s.nw, s.size = s.b.A, s.b.nw, s.b.size
        s.P, s.H, s.H0 = (MVV(c.ex, st, pofs(ptr, L.off(CLS, f)), tu) for f in ('m_block_rank_pairs', 'm_select_hints', 'm_select0_hints'))
        s.nb = LShR(s.nw + 7, 3)
    def R(s, w): return RW(s.A, If(ULT(w, s.nw), w, s.nw))     # ones in the first w words, w clamped to the length
    def B(s, b): return s.R(b << 3)
    def B0(s, b): return (b << 9) - s.B(b)
    def ones(s): return RW(s.A, s.nw)
    def words(s, P, nb):
        """the index: block ranks at even positions up to nb, packed sub-block ranks at odd ones below nb"""
        def trig(ix):
            out = []
            for t in ix.selects(P):
                m = minus1(t); m = t if m is None else m
                if z3.is_app_of(m, z3.Z3_OP_BSHL) and z3.is_bv_value(m.arg(1)) and m.arg(1).as_long() == 1: out.append((m.arg(0),))
                else: out.append((LShR(t, 1),))
            return out
        W = lambda b: Select(P, (b << 1) + 1)
        return [('block ranks', FA(lambda b: Implies(ULE(b, nb), Select(P, b << 1) == s.B(b)), trig, 'br')),
                ('sub-block ranks', FA(lambda b: Implies(ULT(b, nb), And(ULT(W(b), bv(1 << 63)), *[fld(W(b), k) == s.R((b << 3) + k) - s.B(b) for k in range(1, 8)])), trig, 'sr'))]
    def index(s):
        return [('index length', And(s.P.n == (s.nb << 1) + 2, bv(s.P.ln) == s.P.n))] + s.words(s.P.A, s.nb)
    def hints(s, H, n, m, B, total):
        """the m-1 real hints of H bracket the multiples of 1024; the last is the number of blocks"""
        return [('hint bracket', FA(lambda c: Implies(ULT(c, m - 1), And(ULT(Select(H, c), s.nb), ULE(B(Select(H, c)), (c + 1) << 10), ULT((c + 1) << 10, B(Select(H, c) + 1)))), lambda ix: [(t,) for t in ix.selects(H)], 'hb')),
                ('last hint', Select(H, m - 1) == s.nb), ('hints suffice', And(UGE(m, bv(1)), ULE(m, bv(1 << 50)), ULE(total, m << 10)))]
    def wf_hints(s):
        out = []
        for nm, M, B, tot in (('', s.H, s.B, s.ones()), ('0', s.H0, s.B0, (s.nb << 9) - s.ones())):
            out += [('hints%s storage' % nm, And(bv(M.ln) == M.n, ULE(M.n, bv(1 << 50))))]
            for n, f in s.hints(M.A, M.n, M.n, B, tot):
                if isinstance(f, Forall): out.append((n + nm, Forall(lambda c, f=f, M=M: Implies(M.n != 0, f.body(c)), 1, f.trig, f.name)))
                else: out.append((n + nm, Implies(M.n != 0, f)))
        return out
    def wf(s): return s.b.wf() + s.index() + s.wf_hints()
def a_rs(*extra, tu=TU):
    def f(v):
        L = v.env.layout(tu); r = v.st.new_region('rs', size=L.size(CLS))
        mk_rs(v, v.st, r, 0, tu)
        return [Ptr(r.rid)] + [fresh(x) for x in extra]
    return f
def view(c):
    s = RS(c, c.args[0], c.tu if hasattr(c, 'tu') else TU); pre_all(c, s.wf())
    lw = Select(s.A, LShR(s.size, 6))
    c.fact(pc_split(lw, s.size & 63)); c.fact(rw_step(s.A, LShR(s.size, 6)))
    c.derive('no ones past the end', s.ones() == RK(s.A, s.size))
    return s
def sp_num_ones(c):
    s = view(c)
    def post(c, r): c.post('all ones', r == RK(s.A, s.size))
    return post
def sp_num_zeros(c):
    s = view(c)
    def post(c, r): c.post('all zeros', r == s.size - RK(s.A, s.size))
    return post
def sp_rank(zero=False):
    def sp(c):
        s = view(c); p = c.a(1); c.pre('pos <= size', ULE(p, s.size))
        c.fact(pc_shl(Select(s.A, LShR(p, 6)), p & 63))
        def post(c, r): c.post('counts the bits before pos', r == (p - RK(s.A, p) if zero else RK(s.A, p)))
        return post
    return sp
def sp_sbr(c):
    s = view(c); w = c.a(1); c.pre('in range', ULT(w, s.nw))
    def post(c, r):
        if c.mode == 'root':
            for j in range(8): c.step('word %d of the block' % j, Implies((w & 7) == j, r == RW(s.A, w)))
        c.post('ones in the words before', r == RW(s.A, w))
    return post
def sp_select(zero):
    def sp(c):
        s = view(c); n = c.a(1)
        tot = (s.size - RK(s.A, s.size)) if zero else RK(s.A, s.size)
        c.pre('n < count', ULT(n, tot)); k0 = len(c.st.pc) - 1
        c.step('sizes', And(ULT(s.size, bv(1 << 56)), s.nw == wfor(s.size), ULE(s.nw, bv(1 << 50)), s.P.n == (s.nb << 1) + 2, bv(s.P.ln) == s.P.n, bv(s.b.ln) == s.nw))
        s.ixf = [f for f in c.st.facts if f.name in ('br', 'sr')]
        lw = Select(s.A, LShR(s.size, 6))
        if zero: c.fact(pc_low0(lw, s.size & 63)); c.fact(ULE(PC(~lw & LM(s.size & 63)), bv(64))); c.fact(ULE(PC(lw & LM(s.size & 63)), bv(64))); c.fact(rw_mono(s.A, bv(0), LShR(s.size, 6))); c.fact(RW(s.A, bv(0)) == 0)
        c.step('ones fit', And(ULE(s.ones(), s.size), ULE(RK(s.A, s.size), s.size)) if zero else z3.BoolVal(True))
        s.below = c.step('n below the total', ULT(n, ((s.nw << 6) - s.ones()) if zero else s.ones()))
        pad = [Implies((s.size & 63) != 0, LShR(Select(s.A, LShR(s.size, 6)), s.size & 63) == 0)]
        s.pad = c.step('padding word', pad)
        s.keep = c.st.pc[k0:]
        c.st.ghost.update(s=s, n=n)
        def post(c, r):
            w = Select(s.A, LShR(r, 6)); c.fact(rw_step(s.A, LShR(r, 6))); c.fact(pc_split(w, r & 63))
            if zero:
                for f in (pc_low0(w, r & 63), pc_not(w)): c.fact(f)
                if c.mode == 'root':
                    lw = Select(s.A, LShR(s.size, 6)); sk = s.size & 63; R, Q = LShR(r, 6), LShR(s.size, 6)
                    msk = c.step('padding masks', Implies(And(R == Q, sk != 0, UGE(r & 63, sk)), low(w, r & 63) == low(lw, sk)), using=s.pad, lem=())
                    inw = c.step('word inside', ULT(R, s.nw), lem=())
                    cnt = c.step('zeros before', r - RK(s.A, r) == n, lem=())
                    lst = c.step('last word', Implies(UGE(r, s.size), And(R == Q, sk != 0, UGE(r & 63, sk))), using=[inw, s.keep], lem=())
                    c.step('inside', ULT(r, s.size), using=[inw, cnt, lst, msk, s.keep], lem=())
                c.post('a zero is there', Not(bitx(s.A, r))); c.post('n zeros before it', r - RK(s.A, r) == n); c.post('inside', ULT(r, s.size))
            else:
                c.post('a one is there', bitx(s.A, r)); c.post('n ones before it', RK(s.A, r) == n); c.post('inside', ULT(r, s.size))
        return post
    return sp
def find_sel(t, P):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_app_of(x, z3.Z3_OP_SELECT) and arr_base_eq(x.arg(0), P): return x
        st.extend(x.children())
def cover(D, n):
    """D[0]<=n and D increasing: the last j with D[j]<=n"""
    return [And(ULE(D[j], n), *([ULT(n, D[j + 1])] if j + 1 < len(D) else [])) for j in range(len(D))]
def rw_mono(A, a, b): return Implies(And(ULE(a, b), ULE(b, bv(1 << 57))), And(ULE(RW(A, a), RW(A, b)), ULE(RW(A, b) - RW(A, a), (b - a) << 6), ULE(RW(A, b), b << 6)))   # proved by induction, theory_obls
def at_uleq(zero):
    """after the parallel comparison: which of the eight words holds the n-th one (zero)"""
    def f(c, u):
        s, n = c.st.ghost['s'], c.st.ghost['n']
        x, y = bv(c.args[0]), bv(c.args[1])
        t = find_sel(x, s.P.A)
        if t is None: return None
        i = t.arg(1); m = minus1(i); b = m.arg(0) if m is not None and z3.is_app_of(m, z3.Z3_OP_BSHL) else LShR(i, 1)
        ucmp = [(fld(u, k) == If(ULE(fld(x, k), fld(y, k)), bv(1), bv(0))) for k in range(1, 8)]
        W = Select(s.P.A, i)
        b8 = b << 3
        # names for the clamped word positions and the ranks there
        p = [c.nm(If(ULT(b8 + k, s.nw), b8 + k, s.nw), 'p%d' % k) for k in range(9)]
        pdef = c.st.pc[-9:]
        R = [RW(s.A, q) for q in p]
        rn = [c.nm(r, 'R%d' % k) for k, r in enumerate(R)]; rdef = c.st.pc[-9:]
        bnd = c.step('sizes', And(ULT(s.size, bv(1 << 56)), s.nw == wfor(s.size), ULE(s.nw, bv(1 << 50))))
        inb = c.step('block', And(ULT(b, s.nb), i == (b << 1) + 1))
        one = c.step('ranks of the block', And(Select(s.P.A, b << 1) == rn[0], Select(s.P.A, (b << 1) + 2) == rn[8], p[0] == b8))
        sub = [c.step('sub-block rank %d' % k, And(fld(W, k) == rn[k] - rn[0], ULT(W, bv(1 << 63)))) for k in range(1, 8)]
        mono = [c.step('rank monotone %d' % k, And(ULE(rn[k - 1], rn[k]), ULE(rn[k] - rn[k - 1], bv(64)), ULE(rn[k], bv(1 << 57))), using=[bnd, inb, pdef, rdef, c.assume(rw_mono(s.A, p[k - 1], p[k]))], lem=()) for k in range(1, 9)]
        r0 = c.step('rank in range', ULE(rn[0], b << 9), using=[bnd, inb, pdef, rdef, one, c.assume(rw_mono(s.A, bv(0), p[0])), c.assume(RW(s.A, bv(0)) == 0)], lem=())
        B = c.nm((b << 9) - rn[0] if zero else rn[0], 'B'); Bd = c.st.pc[-1:] if zero else []
        la, lb = c.st.ghost['ab']
        adj = c.step('adjacent', And(lb == la + 1, la == b), lem=())
        br = c.step('bracket', And(ULE(s.B0(la), n), ULT(n, s.B0(lb))) if zero else And(ULE(s.B(la), n), ULT(n, s.B(lb))), lem=())
        same = c.step('bracket ranks', And(s.B(la) == rn[0], s.B(lb) == rn[8]), using=[bnd, inb, adj, pdef, rdef], lem=())
        inr = c.step('rank within block', And(ULE(B, n), ULT(n - B, 512 - (rn[8] - rn[0]) if zero else rn[8] - rn[0])), using=[br, same, adj, inb, bnd, Bd, r0, mono], lem=())
        nB = c.nm(n - B, 'nB'); nBd = c.st.pc[-1:]
        small = c.step('rank within block is small', ULT(nB, bv(512)), using=[inr, nBd, mono], lem=())
        D = [bv(0)] + [c.nm((64 * k - (rn[k] - rn[0])) if zero else (rn[k] - rn[0]), 'D%d' % k) for k in range(1, 8)]; Dd = c.st.pc[-7:]
        Dm = [c.step('offset %d' % k, And(ULE(D[k - 1], D[k]), ULE(D[k], bv(64 * k))), using=[mono, Dd], lem=()) for k in range(1, 8)]
        fx = [c.step('field %d of the ranks' % k, fld(x, k) == D[k], using=[sub, Dd, Dm, c.assume(inv9(W))], lem=()) for k in range(1, 8)]
        yy = c.step('wanted', y == nB * bv(S9), using=[nBd, Bd, one], lem=())
        fy = c.step('wanted rank in every field', And(*[fld(y, k) == nB for k in range(1, 8)]), using=[yy, small, c.assume(par9(nB))], lem=())
        uc = c.step('comparison', And(ULT(u, bv(1 << 63)), *ucmp), using=[g for g in c.st.pc if any(h.eq(u) for h in subterms(g))], lem=())
        def branch(j):
            def g(c):
                uj = sum(1 << (9 * (7 - k)) for k in range(1, j + 1))
                br = c.st.pc[-1:]
                c.step('comparison result', u == uj, using=[br, Dm, uc, fx, fy], lem=())
                w = b8 + j
                k1 = c.assume([rw_mono(s.A, p[j], s.nw)])
                ins = c.step('word inside', ULT(w, s.nw), using=[bnd, inb, pdef, rdef, br, nBd, Bd, inr, mono, Dd, k1, r0, one, s.below])
                st = c.assume(rw_step(s.A, w))
                pw = c.step('positions', And(p[j] == w, p[j + 1] == w + 1), using=[bnd, inb, pdef, ins], lem=())
                rk = c.step('rank before the word', And(RW(s.A, w) == rn[j], PC(Select(s.A, w)) == rn[j + 1] - rn[j]), using=[rdef, pw, st], lem=())
                fj = c.step('rank field', (LShR(x, 9 * (7 - j)) & 0x1FF) == D[j], using=[fx, sub] + ([] if not zero else [c.assume(inv9(W)), mono]), lem=())
                e = PC(Select(s.A, w)); z = c.assume(pc_not(Select(s.A, w)))
                tgt = c.step('target in the word', And(ULE(D[j], nB), ULT(nB - D[j], 64 - e if zero else e)), using=[br, inr, nBd, Bd, Dd, Dm, mono, rk], lem=())
                c.restart([], keep=[h for l in (bnd, inb, ins, rk, fj, tgt, nBd, Bd, Dd, Dm, mono, one, z, st, r0) for h in (flat(l))] + s.keep)
                return uj
            return g
        return c.cases('word holding the target', list(zip(cover(D, nB), [branch(j) for j in range(8)])))
    return f
def subterms(g):
    seen, st = set(), [g]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x; st.extend(x.children())
def select_inv(zero):
    def inv(x):
        s, n = x.st.ghost['s'], x.st.ghost['n']
        B = s.B0 if zero else s.B
        a, b = x('a'), x('b')
        if x.mode == 'assume':      # forget everything but the sizes, the index and the bracket
            x.st.pc = list(s.keep); x.st.facts = list(s.ixf); x.st.ghost['lem'] = (); x.st.ghost['ab'] = (a, b)
        elif x.entry:
            cl = lambda q: If(ULT(q << 3, s.nw), q << 3, s.nw)
            x.st.assume([rw_mono(s.A, cl(b), cl(a)), rw_mono(s.A, bv(0), cl(a)), rw_mono(s.A, bv(0), cl(b)), RW(s.A, bv(0)) == 0]); x.st.ghost['lem'] = ()
        return [('bracket', And(ULE(b, s.nb + 1), ULE(B(a), n), ULT(n, B(b)), ULT(a, b)))]
    return LoopSpec(inv, lambda x: x('b') - x('a'))
# ---------------------------------------------------------------- build_indices
def a_build(v):
    L = v.env.layout(TU); r = v.st.new_region('rs', size=L.size(CLS))
    mk_bv(v, v.st, r, 0, TU)
    for f in ('m_block_rank_pairs', 'm_select_hints', 'm_select0_hints'):
        o = L.off(CLS, f); t = MV % 'unsigned long'
        r.cells[o + L.off(t, 'm_data')] = (8, NULL); r.cells[o + L.off(t, 'm_size')] = (8, 0); r.cells[o + L.off(t, 'm_deleter')] = (32, Del())
    return [Ptr(r.rid), fresh_bool('h1'), fresh_bool('h0')]
def sp_build(c):
    b = BV(c, c.args[0], TU); pre_all(c, b.wf()); c.mod_objs.append(c.args[0])
    c.st.ghost.update(p=c.args[0], b=b, flags=list(c.args[1:3]))
    h1, h0 = bo(c.args[1]), bo(c.args[2])
    def post(c, r):
        s = RS(c, c.args[0])
        c.post('same bits', And(s.size == b.size, s.nw == b.nw, bool(s.A is b.A)))
        post_all(c, s.index()); post_all(c, s.wf_hints())
        c.post('hints as requested', And((s.H.n != 0) == h1, (s.H0.n != 0) == h0))
    return post
def vecv(x, name):
    v = x(name)
    if not isinstance(v, Vec): raise BindError(name)
    return v, x.st.mem[v.rid].arr
def bview(x):
    s = RS.__new__(RS); b = x.st.ghost['b']; s.b = b; s.A, s.nw, s.size = b.A, b.nw, b.size; s.nb = LShR(s.nw + 7, 3); return s
def consts(e):
    return {t.decl().name() for t in subterms(e) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}
def only(x, names):
    """keep the assumptions over these constants only"""
    ns = {n.decl().name() for n in names if z3.is_expr(n) and z3.is_const(n)}
    x.st.pc = [p for p in x.st.pc if consts(p) <= ns]; x.st.facts = []; x.st.ghost['lem'] = ()
def build1(x):
    s = bview(x); i, nx, cur, sub = x('i'), x('next_rank'), x('cur_subrank'), x('subranks')
    v, P = vecv(x, 'block_rank_pairs')
    q, sh = LShR(i, 3), i & 7
    b8 = q << 3
    if x.mode == 'assume': only(x, [s.size, s.nw] + x.st.ghost['flags'])
    x.st.ghost['lem'] = ()
    x.st.ghost.update(i1=i, cur=cur, nx=nx)
    x.st.assume([rw_step(s.A, i), RW(s.A, bv(0)) == 0] + [rw_mono(s.A, b8, b8 + k) for k in range(1, 9)])
    f = lambda k: RW(s.A, b8 + k) - RW(s.A, b8)
    def packed(j):
        return Implies(sh == j, And(ULT(sub, bv(1 << (9 * max(j - 1, 0)))), *[(LShR(sub, 9 * (j - 1 - k)) & 0x1FF) == f(k) for k in range(1, j)]))
    return [('position', ULE(i, s.nw)), ('rank', nx == RW(s.A, i)), ('rank in block', cur == RW(s.A, i) - RW(s.A, b8))] + [('packed so far (%d)' % j, packed(j)) for j in range(8)] + [
            ('length', And(bv(v.size) == (q << 1) + 1, bv(x.st.mem[v.rid].ln) == bv(v.size)))] + s.words(P, q)
def at_pop(c, r):
    """the body of the first loop, separately for each word of the block"""
    i = c.st.ghost.get('i1')
    if i is None: return None
    return c.cases('word of the block', [((i & 7) == j, r) for j in range(8)])
def build2(x):
    s = bview(x); i, sub = x('i'), x('subranks')
    cur = x.st.ghost['cur']; v, P = vecv(x, 'block_rank_pairs')
    sh, q = s.nw & 7, LShR(s.nw, 3); b8 = q << 3
    if x.mode == 'assume': only(x, [s.size, s.nw] + x.st.ghost['flags'])
    
    x.st.ghost['lem'] = ()
    f = lambda k: s.R(b8 + k) - s.B(q)
    t = sh - 1 + i
    x.st.assume([rw_mono(s.A, b8, If(ULT(b8 + k, s.nw), b8 + k, s.nw)) for k in range(1, 9)])
    return [('position', And(ULE(i, 8 - sh), cur == RW(s.A, s.nw) - RW(s.A, b8), x.st.ghost['nx'] == RW(s.A, s.nw))), ('full last block', Implies(sh == 0, sub == 0))] + [
            ('packed (%d)' % j, Implies(And(sh != 0, t == j), And(ULT(sub, bv(1 << (9 * j))), *[(LShR(sub, 9 * (j - k)) & 0x1FF) == f(k) for k in range(1, j + 1)]))) for j in range(8)] + [
            ('length', And(bv(v.size) == (q << 1) + 1, bv(x.st.mem[v.rid].ln) == bv(v.size)))] + s.words(P, q)
def absP(x):
    """forget how the index array was built"""
    L = x.ex.env.layout(TU); p = pofs(x.st.ghost['p'], L.off(CLS, 'm_block_rank_pairs')); t = MV % 'unsigned long'
    n = fresh('pairs_n'); d = peek(x.ex, x.st, pofs(p, L.off(t, 'm_data')))
    poke(x.st, pofs(p, L.off(t, 'm_size')), 8, n); x.st.setarr(d.r, fresh_arr('pairs'), n)
def hintinv(name, zero):
    def inv(x):
        i = x('i'); thr = x('cur_zeros_threshold' if zero else 'cur_ones_threshold')
        if x.mode == 'assume': absP(x)
        s = RS(x, x.st.ghost['p'])
        v, H = vecv(x, name); m = bv(v.size)
        B = s.B0 if zero else s.B
        if x.mode == 'assume': only(x, [s.size, s.nw] + x.st.ghost['flags'])
        x.st.ghost['lem'] = ()
        cl = lambda q: If(ULT(q << 3, s.nw), q << 3, s.nw)
        x.st.assume([rw_mono(s.A, cl(i), cl(i + 1)), rw_mono(s.A, bv(0), cl(i)), RW(s.A, bv(0)) == 0])
        h = s.hints(H, None, m + 1, B, bv(0))[:1]
        fa = h[0][1]; e = z3.simplify(m - 1)
        # for all c < m  <=>  for all c < m-1, and m-1 (when m > 0)
        h = [(h[0][0], Dual([Forall(lambda c: Implies(And(ULT(c, m), c != e), fa.body(c)), 1, fa.trig, 'hb'), Implies(m != 0, z3.simplify(fa.body(e)))], [fa]))]
        return s.index() + (s.wf_hints()[:4] + [('first hints', (s.H.n != 0) == bo(x.st.ghost['flags'][0]))] if zero else []) + [('position', ULE(i, s.nb)), ('threshold', And(thr == (m + 1) << 10, ULE(m, i))), ('below the threshold', ULE(B(i), thr)), ('storage', bv(x.st.mem[v.rid].ln) == m)] + h
    return LoopSpec(inv, lambda x: bv(1 << 60) - x('i'))
P = ('C05',)
RC = r'(?:bool |void |unsigned long )?succinct::rs_bit_vector::'
LM9 = RANK + (L_step9,)
PCC = ('popcount#',); SEL = ('select_in_word#', 'uleq_step_9')
def K(name, root, spec, args, pat=None, **k): return Contract(name, TU, root, spec, args, pat, props=P, lemmas=LM9, **k)
CONTRACTS = [
    K('rs.num_ones', 'h_rs_num_ones', sp_num_ones, a_rs()), K('rs.num_zeros', 'h_rs_num_zeros', sp_num_zeros, a_rs()),
    K('rs.sub_block_rank', 'h_rs_sub_block_rank', sp_sbr, a_rs('w'), RC + r'sub_block_rank\(unsigned long\) const'),
    K('rs.rank', 'h_rs_rank', sp_rank(), a_rs('pos'), RC + r'rank\(unsigned long\) const', cuts=PCC + ('rs.sub_block_rank',)),
    K('rs.rank0', 'h_rs_rank0', sp_rank(True), a_rs('pos'), RC + r'rank0\(unsigned long\) const', cuts=('rs.rank',)),
    K('rs.select', 'h_rs_select', sp_select(False), a_rs('n'), RC + r'select\(unsigned long\) const', cuts=SEL, loops=[select_inv(False)], opts=dict(after={'uleq_step_9': at_uleq(False)})),
    K('rs.select0', 'h_rs_select0', sp_select(True), a_rs('n'), RC + r'select0\(unsigned long\) const', cuts=SEL, loops=[select_inv(True)], opts=dict(after={'uleq_step_9': at_uleq(True)})),
    K('rs.build', 'h_rs_build', sp_build, a_build, cuts=PCC, opts=dict(after={'popcount#': at_pop}), loops=[LoopSpec(build1, lambda x: bv(1 << 60) - x('i')), LoopSpec(build2, lambda x: bv(1 << 60) - x('i')), hintinv('select_hints', False), hintinv('select0_hints', True)]),
]
EXTRA_OBLS = rs_obls
