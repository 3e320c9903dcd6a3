"""darray: select over ones / zeros through the block, sub-block and overflow inventories (C06)."""
from contracts.theory import *
TU = 'da'
DA = {1: 'succinct::detail::darray<struct succinct::detail::identity_getter>', 0: 'succinct::detail::darray<struct succinct::detail::negating_getter>'}
I64, U16, U64 = 'long', 'unsigned short', 'unsigned long'
def z64(x): return z3.ZeroExt(48, x)

class Side:
    """counting of ones (1) or zeros (0) of a bit vector A"""
    def __init__(s, one, A, size, nw): s.one, s.A, s.size, s.nw = one, A, size, nw
    def W(s, w): return Select(s.A, w) if s.one else ~Select(s.A, w)
    def base(s, w): return RW(s.A, w) if s.one else (w << 6) - RW(s.A, w)
    def cnt(s, w, k): return s.base(w) + PC(s.W(w) & LM(k))
    def CNT(s, p): return RK(s.A, p) if s.one else p - RK(s.A, p)
    def nth(s, p, i):
        """p is the position of the i-th one (zero)"""
        w, k = LShR(p, 6), p & 63
        return And(ULT(p, s.size), (LShR(s.W(w), k) & 1) == 1, s.cnt(w, k) == i)
    def anth(s, p, i):
        """the same in terms of BIT and CN"""
        return And(ULT(p, s.size), BIT(s.A, p) if s.one else Not(BIT(s.A, p)), (CN(s.A, p) if s.one else p - CN(s.A, p)) == i)
    def step(s, w):
        """lemma instances: base(w+1) = base(w) + PC(W(w)), base monotone"""
        return [rw_step(s.A, w)] + ([] if s.one else [pc_not(Select(s.A, w))])
    def mono(s, a, b): return Implies(And(ULE(a, b), ULE(b, bv(1 << 57))), And(ULE(s.base(a), s.base(b)), ULE(s.base(b) - s.base(a), (b - a) << 6), ULE(s.base(b), b << 6)))
class Inv:
    def __init__(s, B, nB, S, nS, O, nO): s.B, s.nB, s.S, s.nS, s.O, s.nO = B, nB, S, nS, O, nO
    def good(s, sd, i):
        """what the inventories say about the i-th position"""
        b = Select(s.B, LShR(i, 10)); o = -b - 1; j = o + (i & 1023)
        return If(b < 0, And(ULT(o, bv(1 << 57)), ULT(j, s.nO), sd.nth(Select(s.O, j), i)),
                  Implies((i & 31) == 0, sd.nth(b + z64(Select(s.S, LShR(i, 5))), i)))
    def all(s, sd, n, trig): return FA(lambda i: Implies(ULT(i, n), s.good(sd, i)), trig, 'good')
def mk_da(v, r, one, off=0):
    L = v.env.layout(TU); cls = DA[one]
    r.cells[off + L.off(cls, 'm_positions')] = (8, fresh('positions'))
    for f, T, es in (('m_block_inventory', I64, 8), ('m_subblock_inventory', U16, 2), ('m_overflow_positions', U64, 8)):
        mk_mv(v, v.st, r, off + L.off(cls, f), TU, T, es, f[2:])
def put_da(c, p, one):
    """call mode: a fresh darray value at p"""
    L = c.ex.env.layout(TU); cls = DA[one]; st = c.st
    poke(st, pofs(p, L.off(cls, 'm_positions')), 8, fresh('positions'))
    for f, T, es in (('m_block_inventory', I64, 8), ('m_subblock_inventory', U16, 2), ('m_overflow_positions', U64, 8)):
        t = MV % T; b = pofs(p, L.off(cls, f)); n = fresh(f[2:] + '_n'); a = st.new_array(f[2:], es, n); a.ro = True
        poke(st, pofs(b, L.off(t, 'm_data')), 8, Ptr(a.rid)); poke(st, pofs(b, L.off(t, 'm_size')), 8, n); poke(st, pofs(b, L.off(t, 'm_deleter')), 32, Del())
class DV:
    def __init__(s, c, p, one):
        L = c.ex.env.layout(TU); cls = DA[one]
        s.n = c.rd(pofs(p, L.off(cls, 'm_positions')))
        B, S, O = (MVV(c.ex, c.st, pofs(p, L.off(cls, f)), TU, T, es) for f, T, es in (('m_block_inventory', I64, 8), ('m_subblock_inventory', U16, 2), ('m_overflow_positions', U64, 8)))
        s.mv = (B, S, O)
        s.i = Inv(B.A, B.n, S.A, S.n, O.A, O.n)
    def wf(s, sd, trig):
        return [('storage', And(*[bv(m.ln) == m.n for m in s.mv])), ('number of positions', s.n == sd.CNT(sd.size)),
                ('inventory sizes', And(UGE(s.i.nB, LShR(s.n + 1023, 10)), UGE(s.i.nS, LShR(s.n + 31, 5)), ULE(s.i.nO, bv(1 << 57)))), ('inventories', s.i.all(sd, s.n, trig))]
def a_sel(one):
    def f(v):
        L = v.env.layout(TU)
        d = v.st.new_region('da', size=L.size(DA[one])); mk_da(v, d, one)
        b = v.st.new_region('bv', size=L.size('succinct::bit_vector')); mk_bv(v, v.st, b, 0, TU)
        return [Ptr(d.rid), Ptr(b.rid), fresh('idx')]
    return f
def sp_select(one):
    def sp(c):
        b = BV(c, c.args[1], TU); pre_all(c, b.wf()); sd = Side(one, b.A, b.size, b.nw)
        d = DV(c, c.args[0], one); i = c.a(2)
        i0 = i & ~bv(31)
        pre_all(c, d.wf(sd, lambda ix: [(i,), (i0,)])); c.pre('idx in range', ULT(i, d.n))
        if c.mode == 'root':
            lw = LShR(b.size, 6); x = Select(b.A, lw); k = b.size & 63
            f = c.assume([rw_step(b.A, lw), pc_split(x, k), rw_mono(b.A, bv(0), lw), RW(b.A, bv(0)) == 0, ULE(PC(x & LM(k)), bv(64)), ULE(PC(x), bv(64)), pc_low0(x, k), pc_not(x), pc_split(~x, k), ULE(PC(~x & LM(k)), bv(64)), ULE(PC(~x & ~LM(k)), bv(64)), ULE(PC(x & ~LM(k)), bv(64))])
            sz = c.step('sizes', And(ULT(b.size, bv(1 << 56)), b.nw == wfor(b.size), bv(b.ln) == b.nw, *[bv(m.ln) == m.n for m in d.mv]), lem=())
            pd = c.step('padding', Implies(k != 0, LShR(x, k) == 0), lem=())
            n1 = c.step('position count', d.n == sd.cnt(lw, k), lem=())
            rg = c.step('positions in range', ULE(d.n, b.size), using=[f, n1, sz], lem=())
            wc = c.step('word count', ULE(d.n, sd.base(b.nw)), using=[f, n1, sz], lem=())
            ir = c.step('index in range', ULT(i, d.n), lem=())
            sd.keep = flat([sz, pd, n1, rg, wc, ir])
            p0 = c.nm(Select(d.i.B, LShR(i, 10)) + z64(Select(d.i.S, LShR(i, 5))), 'start'); sd.keep += c.st.pc[-1:]
            c.st.ghost.update(sd=sd, i=i, p0=p0)
        def post(c, r): 
            if c.mode == 'root' and 'siw' in c.st.ghost:
                R, Q, k = LShR(r, 6), LShR(b.size, 6), b.size & 63
                k1 = c.assume([sd.mono(Q, R), sd.mono(Q + 1, R), pc_split(sd.W(R) & LM(r & 63), k), ULE(PC(sd.W(R) & LM(r & 63) & ~LM(k)), bv(64)), ULE(PC(sd.W(R) & LM(r & 63)), bv(64)), ULE(PC(sd.W(Q) & LM(k)), bv(64))] + sd.step(Q))
                x = c.step('bit', (LShR(sd.W(R), r & 63) & 1) == 1, lem=()); y = c.step('count', sd.cnt(R, r & 63) == i, lem=())
                m = c.step('prefix', Implies(And(R == Q, UGE(r & 63, k)), sd.W(R) & LM(r & 63) & LM(k) == sd.W(R) & LM(k)), using=[], lem=())
                w = c.step('word inside', ULT(R, sd.nw), lem=())
                c.step('inside', ULT(r, sd.size), using=[k1, y, m, w, sd.keep], lem=())
            c.post('the idx-th position', sd.anth(r, i) if c.mode == 'call' and c.st.ghost.get('abs') else sd.nth(r, i))
        return post
    return sp
from contracts.rs import rw_mono, subterms
def sel_inv(x):
    st = x.st; sd, i = st.ghost['sd'], st.ghost['i']
    w, word, rem = x('word_idx'), x('word'), x('reminder')
    p0 = st.ghost['p0']; w0 = LShR(p0, 6); sh = If(w == w0, p0 & 63, bv(0))
    if x.mode == 'assume': st.pc = list(sd.keep); st.facts = []; st.ghost['lem'] = ()
    st.assume(sd.step(w)); st.assume([pc_split(sd.W(w), sh), sd.mono(w + 1, sd.nw), sd.mono(bv(0), w), RW(sd.A, bv(0)) == 0]); st.ghost['sh'] = (w, sh)
    if x.mode == 'check' and x.entry:
        x.sc().step('start', sd.nth(p0, i & ~bv(st.ghost.get('sub', 31)))); st.ghost['lem'] = ()
    return [('word', And(ULT(w, sd.nw), ULT(sh, bv(64)), UGE(w, w0))), ('remaining bits', word == sd.W(w) & ~LM(sh)), ('remaining count', And(ULE(rem, i), i - rem == sd.base(w) + PC(sd.W(w) & LM(sh))))]
def at_siw(c, r):
    sd = c.st.ghost['sd']; w, sh = c.st.ghost['sh']; c.st.ghost['siw'] = True
    c.fact(pc_split(sd.W(w) & LM(r), sh))
    c.step('not before the start', UGE(r, sh))
    c.step('masks', And(sd.W(w) & LM(r) & LM(sh) == sd.W(w) & LM(sh), sd.W(w) & LM(r) & ~LM(sh) == sd.W(w) & ~LM(sh) & LM(r)))
def num(one):
    def sp(c):
        d = DV(c, c.args[0], one)
        def post(c, r): c.post('number of positions', r == d.n)
        return post
    return sp
# ---------------------------------------------------------------- flush_cur_block
class VV:
    """view of a std::vector argument"""
    def __init__(s, st, p):
        v = st.mem[p.r].cells[p.off][1]
        if not isinstance(v, Vec): raise BindError('vector argument')
        s.n, s.A, s.ln = bv(v.size), st.mem[v.rid].arr, bv(st.mem[v.rid].ln)
def sel(*A): return lambda ix: [(t,) for a in A for t in ix.selects(a)]
def a_flush(v):
    out = []
    for nm, es in (('cur', 8), ('binv', 8), ('sub', 2), ('ovf', 8)):
        q = v.st.new_region(nm + '_obj', size=24); n = fresh(nm + '_n'); a = v.st.new_array(nm, es, n); q.cells[0] = (24, Vec(n, a.rid, es)); out.append(Ptr(q.rid))
    return out
def c16(x): return z3.Extract(15, 0, x)
def flushed(C, B0, S0, O0, B, S, O):
    """relation between the vectors before and after"""
    f, l = Select(C.A, bv(0)), Select(C.A, C.n - 1); near = ULT(l - f, bv(1 << 16)); k = LShR(C.n + 31, 5)
    return [('one more block', And(B.n == B0.n + 1, Select(B.A, B0.n) == If(near, f, -O0.n - 1))),
            ('blocks kept', FA(lambda t: Implies(ULT(t, B0.n), Select(B.A, t) == Select(B0.A, t)), sel(B.A), 'bk')),
            ('sub-blocks', S.n == S0.n + k),
            ('sub-blocks kept', FA(lambda t: Implies(ULT(t, S0.n), Select(S.A, t) == Select(S0.A, t)), sel(S.A), 'sk')),
            ('sub-block offsets', FA(lambda t: Implies(And(near, UGE(t, S0.n), ULT(t, S0.n + k)), Select(S.A, t) == c16(Select(C.A, (t - S0.n) << 5) - f)), sel(S.A), 'so')),
            ('overflow size', O.n == If(near, O0.n, O0.n + C.n)),
            ('overflow', FA(lambda t: And(Implies(ULT(t, O0.n), Select(O.A, t) == Select(O0.A, t)), Implies(And(UGE(t, O0.n), ULT(t, O.n)), Select(O.A, t) == Select(C.A, t - O0.n))), sel(O.A), 'ok')),
            ('storage', And(*[x.ln == x.n for x in (B, S, O)]))]
def sp_flush(c):
    C, B0, S0, O0 = vs = [VV(c.st, p) for p in c.args]
    f, l = Select(C.A, bv(0)), Select(C.A, C.n - 1)
    c.pre('storage', And(*[x.ln == x.n for x in vs]))
    c.pre('sizes', And(UGE(C.n, bv(1)), ULE(C.n, bv(1024)), *[ULT(x.n, bv(1 << 57)) for x in (B0, S0, O0)]))
    c.pre('ordered', And(ULE(f, l), ULT(l, bv(1 << 56))))
    for p in c.args: c.modifies_vec(p)
    c.old = vs
    if c.mode == 'root': c.st.ghost.update(vs=vs, args=c.args)
    def post(c, r):
        E, B, S, O = [VV(c.st, p) for p in c.args]
        c.post('the block is consumed', And(E.n == 0, E.ln == 0))
        post_all(c, flushed(C, B0, S0, O0, B, S, O))
    return post
def fl_near(x):
    C, B0, S0, O0 = x.st.ghost['vs']; i = x('i'); S = VV(x.st, x.st.ghost['args'][2]); k = LShR(i, 5)
    return [('position', And((i & 31) == 0, ULE(i, C.n + 31))), ('size', And(S.n == S0.n + k, S.ln == S.n)), ('kept', FA(lambda t: Implies(ULT(t, S0.n), Select(S.A, t) == Select(S0.A, t)), sel(S.A), 'k')),
            ('offsets', FA(lambda t: Implies(And(UGE(t, S0.n), ULT(t, S.n)), Select(S.A, t) == c16(Select(C.A, (t - S0.n) << 5) - Select(C.A, bv(0)))), sel(S.A), 'o'))]
def fl_ovf(x):
    C, B0, S0, O0 = x.st.ghost['vs']; i = x('i'); O = VV(x.st, x.st.ghost['args'][3])
    return [('position', ULE(i, C.n)), ('size', And(O.n == O0.n + i, O.ln == O.n)), ('contents', FA(lambda t: And(Implies(ULT(t, O0.n), Select(O.A, t) == Select(O0.A, t)), Implies(And(UGE(t, O0.n), ULT(t, O.n)), Select(O.A, t) == Select(C.A, t - O0.n))), sel(O.A), 'ok'))]
def fl_far(x):
    C, B0, S0, O0 = x.st.ghost['vs']; i = x('i'); S = VV(x.st, x.st.ghost['args'][2]); k = LShR(i, 5)
    return [('position', And((i & 31) == 0, ULE(i, C.n + 31))), ('size', And(S.n == S0.n + k, S.ln == S.n)), ('kept', FA(lambda t: Implies(ULT(t, S0.n), Select(S.A, t) == Select(S0.A, t)), sel(S.A), 'k'))]
FL = [LoopSpec(f, lambda x: bv(1 << 60) - x('i')) for f in (fl_near, fl_ovf, fl_far)]
# ---------------------------------------------------------------- construction
VN = ('cur_block_positions', 'block_inventory', 'subblock_inventory', 'overflow_positions')
def shr(A, k):
    """instances x for A[x >> k]"""
    def tr(ix):
        return [(t.arg(0),) for t in ix.selects(A) if z3.is_app_of(t, z3.Z3_OP_BLSHR) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() == k]
    return tr
def a_build(one):
    def f(v):
        L = v.env.layout(TU)
        d = v.st.new_region('da', size=L.size(DA[one]))
        b = v.st.new_region('bv', size=L.size('succinct::bit_vector')); mk_bv(v, v.st, b, 0, TU)
        return [Ptr(d.rid), Ptr(b.rid)]
    return f
def sp_build(one):
    def sp(c):
        b = BV(c, c.args[1], TU); pre_all(c, b.wf()); sd = Side(one, b.A, b.size, b.nw); c.mod_objs.append(c.args[0])
        lw = LShR(b.size, 6); x = Select(b.A, lw); k = b.size & 63
        sd.tot = sd.cnt(lw, k)
        if c.mode == 'root':
            sz = c.step('sizes', And(ULT(b.size, bv(1 << 56)), b.nw == wfor(b.size), bv(b.ln) == b.nw), lem=())
            pd = c.step('padding', Implies(k != 0, LShR(x, k) == 0), lem=())
            ct = c.step('count', sd.tot == sd.CNT(b.size), using=c.assume(pc_low0(x, k)), lem=())
            sd.keep = flat([sz, pd, ct]); c.st.ghost.update(sd=sd, p=c.args[0], one=one)
        def post(c, r):
            if c.mode == 'call': put_da(c, c.args[0], one)
            d = DV(c, c.args[0], one)
            post_all(c, d.wf(sd, shr(d.i.B, 10)))
        return post
    return sp
def bview(x):
    vs = []
    for nm in VN:
        v = x(nm)
        if not isinstance(v, Vec): raise BindError(nm)
        vs.append(v)
    class W: pass
    out = []
    for v in vs:
        w = W(); w.n, w.A, w.ln = bv(v.size), x.st.mem[v.rid].arr, bv(x.st.mem[v.rid].ln); out.append(w)
    return out
def npos(x):
    st = x.st; L = x.ex.env.layout(TU); return bv(peek(x.ex, st, pofs(st.ghost['p'], L.off(DA[st.ghost['one']], 'm_positions'))))
def common(x, N, lim):
    """inventories cover the full blocks, the pending block holds the rest"""
    sd = x.st.ghost['sd']; C, B, S, O = bview(x); N0 = N & ~bv(1023)
    return pending(sd, C, N, lim) + [('inventory sizes', And(B.n == LShR(N, 10), S.n == LShR(N, 10) << 5, ULE(O.n, N0), *[v.ln == v.n for v in (B, S, O)])),
            ('inventories', Inv(B.A, B.n, S.A, S.n, O.A, O.n).all(sd, N0, shr(B.A, 10)))]
def pending(sd, C, N, lim):
    N0 = N & ~bv(1023)
    return [('pending size', And(C.n == N & 1023, C.ln == C.n, ULE(N, lim))), ('pending', FA(lambda j: Implies(ULT(j, C.n), And(sd.nth(Select(C.A, j), N0 + j), ULE(Select(C.A, bv(0)), Select(C.A, j)), ULE(Select(C.A, j), Select(C.A, C.n - 1)), ULT(Select(C.A, j), lim))), sel(C.A), 'pend'))]
def b_outer(x):
    st = x.st; sd = st.ghost['sd']; w = x('word_idx'); N = npos(x)
    if x.mode == 'assume': st.pc = list(sd.keep); st.facts = []
    st.ghost['lem'] = ()
    st.assume(sd.step(w)); st.assume([RW(sd.A, bv(0)) == 0, PC(sd.W(w) & 0) == 0]); st.ghost['w'] = w
    return [('position', ULE(w, sd.nw)), ('counted', N == If(ULE(w << 6, sd.size), sd.base(w), sd.tot))] + common(x, N, w << 6)
def b_inner(x):
    st = x.st; sd = st.ghost['sd']; w = st.ghost.get('w', fresh('w')); cp, word = x('cur_pos'), x('cur_word'); N = npos(x); k = cp - (w << 6)
    if x.mode == 'assume':
        st.pc = list(sd.keep) + [ULT(w, sd.nw)]; st.facts = []
        st.assume(sd.step(w)); st.ghost['inner'] = (cp, word, N, k)
    return [('word', And(ULT(w, sd.nw))), ('position', And(ULE(w << 6, cp), ULE(cp, sd.size), ULE(k, bv(64)))), ('rest of the word', word == If(ULT(k, bv(64)), LShR(sd.W(w), k), bv(0))), ('counted', N == sd.base(w) + PC(sd.W(w) & LM(k)))] + common(x, N, cp)
def shr2(x, a, b): return Implies(And(ULT(a, bv(64)), ULT(b, bv(64)), ULT(a + b, bv(64))), LShR(LShR(x, a), b) == LShR(x, a + b))
def da_obls():
    x, b = z3.BitVecs('x b', 64)
    return [('(x >> %d) >> b = x >> (%d + b)' % (a, a), [Not(shr2(x, bv(a), b))]) for a in range(64)]
def at_lsb(c, r):
    st = c.st; sd = st.ghost['sd']; cp, word, N, k = st.ghost['inner']; w = st.ghost['w']
    l = c.rd(c.args[1]); W = sd.W(w); e = k + l
    y = W & LM(e + 1)
    sp = c.assume([pc_split(y, e), pc_bit(e), shr2(W, k, l), shr2(W, e, bv(1))])
    a = c.step('no ones skipped', Implies(word != 0, And(ULT(e, bv(64)), W & LM(e) == W & LM(k), (LShR(W, e) & 1) == 1, y & LM(e) == W & LM(e), y & ~LM(e) == bv(1) << e)))
    rw = [p for p in st.pc if any(t.eq(word) for t in subterms(p))]
    c.step('rest', Implies(word != 0, And(ULT(k, bv(64)), ULT(l, bv(64)), LShR(word, l) == LShR(W, e), LShR(LShR(word, l), 1) == If(ULT(e + 1, bv(64)), LShR(W, e + 1), bv(0)))), using=rw + sp + a)
    c.step('one more', Implies(word != 0, PC(y) == PC(W & LM(k)) + 1), using=sp + a)
    c.step('word exhausted', Implies(word == 0, W & LM(k) == W))
    q = sd.size & 63
    c.step('end of the vector', Implies(And(word != 0, UGE(cp + l, sd.size)), And(LShR(sd.size, 6) == w, W & LM(q) == W & LM(k))))
    c.step('last word exhausted', Implies(And(word == 0, ULT(sd.size, (w + 1) << 6)), And(LShR(sd.size, 6) == w, W & LM(q) == W & LM(k))))
    p = cp + l
    pw = c.step('position of the one', Implies(word != 0, And(LShR(p, 6) == w, p & 63 == e)))
    ct = c.step('counted so far', N == sd.base(w) + PC(W & LM(k)))
    c.step('the next position', Implies(And(word != 0, ULT(p, sd.size)), sd.nth(p, N)), using=a + pw + ct)
def at_flush(c, r):
    sd = c.st.ghost['sd']; C, B0, S0, O0 = c.old; E, B, S, O = [VV(c.st, p) for p in c.args]
    N0 = B0.n << 10; iv = Inv(B.A, B.n, S.A, S.n, O.A, O.n); tr = shr(B.A, 10)
    fs = {f.name: f for f in c.st.facts}
    ar = [p for p in c.st.pc if not any(z3.is_app(t) and t.decl().name() == 'PC' for t in subterms(p))]
    lst = c.step('last pending position', sd.nth(Select(C.A, C.n - 1), N0 + C.n - 1))
    k0 = len(c.st.facts)
    def go(name, lo, hi, extra):
        cond = lambda i: And(UGE(i, lo), ULT(i, hi))
        for nm, far in (('far', True), ('near', False)):
            c.step('%s (%s)' % (name, nm), FA(lambda i, far=far: Implies(And(cond(i), (Select(B.A, LShR(i, 10)) < 0) == far), iv.good(sd, i)), tr, 'g' + nm), using=ar + extra, lem=())
    go('earlier blocks', bv(0), N0, [fs[n] for n in ('good', 'bk', 'sk', 'ok')])
    go('new block', N0, N0 + C.n, lst + [fs[n] for n in ('pend', 'bk', 'so', 'ok')])
    c.st.facts = c.st.facts[k0:]
    c.step('all blocks', FA(lambda i: Implies(ULT(i, N0 + C.n), iv.good(sd, i)), tr, 'good'), using=ar + c.st.facts, lem=())
    c.st.facts = c.st.facts[-1:]
P = ('C06',)
CONTRACTS = []
for one in (1, 0):
    NS = r'(?:unsigned long |void )?succinct::detail::darray<succinct::detail::%s_getter>::' % ('identity' if one else 'negating')
    N = 'da%d.' % one; R = 'h_da%d_' % one
    CONTRACTS += [Contract(N + 'select', TU, R + 'select', sp_select(one), a_sel(one), NS + r'select\(.*\) const', cuts=('popcount#', 'select_in_word#'), lemmas=RANK, props=P, loops=[LoopSpec(sel_inv, lambda x: bv(1 << 60) - x('word_idx'))], opts=dict(after={'select_in_word#': at_siw})),
                  Contract(N + 'flush', TU, R + 'flush', sp_flush, a_flush, NS + r'flush_cur_block\(.*', props=P, lemmas=BASE, loops=FL),
                  Contract(N + 'build', TU, R + 'build', sp_build(one), a_build(one), NS + r'darray\(succinct::bit_vector const&\)', props=P, lemmas=(), cuts=('lsb2#', N + 'flush'), loops=[LoopSpec(b_outer, lambda x: bv(1 << 60) - x('word_idx')), LoopSpec(b_inner)], opts=dict(after={'lsb2#': at_lsb, N + 'flush': at_flush})),
                  Contract(N + 'num_positions', TU, R + 'num', num(one), lambda v, one=one: a_sel(one)(v)[:1], props=P)]
EXTRA_OBLS = da_obls
