"""darray64: append-time inventories and select (C06)."""
from contracts.theory import *
from contracts.da import Side, z64, sel_inv, at_siw, sel, c16
from contracts.builder import BB, put_bb
from contracts.rs import rw_mono, subterms
TU = 'da64'
D, B, U16 = 'succinct::darray64', 'succinct::darray64::builder', 'unsigned short'
class Inv64:
    """what the inventories say about the i-th one"""
    def __init__(s, B, nB, S, nS): s.B, s.nB, s.S, s.nS = B, nB, S, nS
    def good(s, sd, i):
        b = Select(s.B, LShR(i, 10))
        return And(Implies((i & 1023) == 0, sd.nth(b, i)), Implies((i & 63) == 0, sd.nth(b + z64(Select(s.S, LShR(i, 6))), i)))
    def all(s, sd, n, trig): return FA(lambda i: Implies(ULT(i, n), s.good(sd, i)), trig, 'good')
    def sizes(s, n): return And(s.nB == LShR(n + 1023, 10), s.nS == LShR(n + 63, 6))
def shr(A, k):
    def tr(ix): return [(t.arg(0),) for t in ix.selects(A) if z3.is_app_of(t, z3.Z3_OP_BLSHR) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() == k]
    return tr
def mk_d64(v, r, off=0, tu=TU):
    L = v.env.layout(tu)
    r.cells[off + L.off(D, 'm_num_ones')] = (8, fresh('num_ones'))
    mk_bv(v, v.st, r, off + L.off(D, 'm_bits'), tu)
    mk_mv(v, v.st, r, off + L.off(D, 'm_block_inventory'), tu, 'unsigned long', 8, 'blocks')
    mk_mv(v, v.st, r, off + L.off(D, 'm_subblock_inventory'), tu, U16, 2, 'subblocks')
class D64:
    def __init__(s, c, p, tu=TU):
        L = c.ex.env.layout(tu)
        s.n = c.rd(pofs(p, L.off(D, 'm_num_ones')))
        s.b = BV(c, pofs(p, L.off(D, 'm_bits')), tu)
        s.B = MVV(c.ex, c.st, pofs(p, L.off(D, 'm_block_inventory')), tu); s.S = MVV(c.ex, c.st, pofs(p, L.off(D, 'm_subblock_inventory')), tu, U16, 2)
        s.sd = Side(1, s.b.A, s.b.size, s.b.nw); s.i = Inv64(s.B.A, s.B.n, s.S.A, s.S.n)
    def wf(s, trig):
        return s.b.wf() + [('storage', And(bv(s.B.ln) == s.B.n, bv(s.S.ln) == s.S.n)), ('number of ones', s.n == s.sd.CNT(s.b.size)), ('inventory sizes', s.i.sizes(s.n)), ('inventories', s.i.all(s.sd, s.n, trig))]
def a_d64(*ex):
    def f(v):
        r = v.st.new_region('d64', size=v.env.layout(TU).size(D)); mk_d64(v, r)
        return [Ptr(r.rid)] + [fresh(x) for x in ex]
    return f
def sp_select(c):
    i = c.a(1); d = D64(c, c.args[0]); b, sd = d.b, d.sd
    pre_all(c, d.wf(lambda ix: [(i & ~bv(63),)])); c.pre('idx in range', ULT(i, d.n))
    if c.mode == 'root':
        lw = LShR(b.size, 6); x = Select(b.A, lw); k = b.size & 63
        f = c.assume([rw_step(b.A, lw), pc_split(x, k), rw_mono(b.A, bv(0), lw), RW(b.A, bv(0)) == 0, ULE(PC(x & LM(k)), bv(64)), ULE(PC(x), bv(64)), ULE(PC(x & ~LM(k)), bv(64)), pc_low0(x, k), ULE(PC(~x & LM(k)), bv(64))])
        sz = c.step('sizes', And(ULT(b.size, bv(1 << 56)), b.nw == wfor(b.size), bv(b.ln) == b.nw, bv(d.B.ln) == d.B.n, bv(d.S.ln) == d.S.n), lem=())
        pd = c.step('padding', Implies(k != 0, LShR(x, k) == 0), lem=())
        n1 = c.step('position count', d.n == sd.cnt(lw, k), lem=())
        rg = c.step('positions in range', ULE(d.n, b.size), using=[f, n1, sz], lem=())
        wc = c.step('word count', ULE(d.n, sd.base(b.nw)), using=[f, n1, sz], lem=())
        ir = c.step('index in range', ULT(i, d.n), lem=())
        sd.keep = flat([sz, pd, n1, rg, wc, ir])
        p0 = c.nm(Select(d.i.B, LShR(i, 10)) + z64(Select(d.i.S, LShR(i, 6))), 'start'); sd.keep += c.st.pc[-1:]
        c.st.ghost.update(sd=sd, i=i, p0=p0, sub=63)
    def post(c, r):
        if c.mode == 'root' and 'siw' in c.st.ghost:
            R, Q, k = LShR(r, 6), LShR(b.size, 6), b.size & 63
            k1 = c.assume([sd.mono(Q, R), sd.mono(Q + 1, R), pc_split(sd.W(R) & LM(r & 63), k), ULE(PC(sd.W(R) & LM(r & 63) & ~LM(k)), bv(64)), ULE(PC(sd.W(R) & LM(r & 63)), bv(64)), ULE(PC(sd.W(Q) & LM(k)), bv(64))] + sd.step(Q))
            x = c.step('bit', (LShR(sd.W(R), r & 63) & 1) == 1, lem=()); y = c.step('count', sd.cnt(R, r & 63) == i, lem=())
            m = c.step('prefix', Implies(And(R == Q, UGE(r & 63, k)), sd.W(R) & LM(r & 63) & LM(k) == sd.W(R) & LM(k)), using=[], lem=())
            w = c.step('word inside', ULT(R, sd.nw), lem=())
            c.step('inside', ULT(r, sd.size), using=[k1, y, m, w, sd.keep], lem=())
        c.post('the idx-th one', sd.anth(r, i) if c.mode == 'call' and c.st.ghost.get('abs') else sd.nth(r, i))
    return post
def sp_num(c):
    d = D64(c, c.args[0])
    def post(c, r): c.post('number of ones', r == d.n)
    return post
def sp_bits(c):
    def post(c, r):
        L = c.ex.env.layout(TU); p = pofs(c.args[0], L.off(D, 'm_bits'))
        if c.mode == 'call': return ('ret', p)
        c.post('the bits', bool(isinstance(r, Ptr) and r.r == p.r and r.off == p.off and as_c(r.idx) == as_c(p.idx)))
    return post
# ---------------------------------------------------------------- builder
def mk_b64(v):
    L = v.env.layout(TU); r = v.st.new_region('b64', size=L.size(B)); p = Ptr(r.rid); put_b64(v.env, v.st, p)
    return p
def put_b64(env, st, p):
    L = env.layout(TU)
    poke(st, pofs(p, L.off(B, 'n_ones')), 8, fresh('n_ones'))
    put_bb(env, st, pofs(p, L.off(B, 'bits')), 'bb')
    for f, es in (('block_inventory', 8), ('subblock_inventory', 2)):
        n = fresh(f + '_n'); a = st.new_array(f, es, n); poke(st, pofs(p, L.off(B, f)), 24, Vec(n, a.rid, es))
class B64:
    def __init__(s, c, p):
        L = c.ex.env.layout(TU); st = c.st
        s.n = c.rd(pofs(p, L.off(B, 'n_ones'))); s.bb = BB(c, pofs(p, L.off(B, 'bits')))
        s.sd = Side(1, s.bb.A, s.bb.size, s.bb.nw)
        vs = [peek(c.ex, st, pofs(p, L.off(B, f)), 0) for f in ('block_inventory', 'subblock_inventory')]
        s.rids = [v.rid for v in vs] + [s.bb.rid]
        s.stor = And(*[bv(st.mem[v.rid].ln) == bv(v.size) for v in vs])
        s.i = Inv64(st.mem[vs[0].rid].arr, bv(vs[0].size), st.mem[vs[1].rid].arr, bv(vs[1].size))
    def wf(s, trig):
        n = s.n; last = Select(s.i.B, LShR(n - 1, 10))
        return s.bb.wf() + [('storage', s.stor), ('number of ones', And(n == s.sd.CNT(s.bb.size), ULE(n, s.bb.size))), ('inventory sizes', s.i.sizes(n)), ('span of the open block', Implies(n != 0, And(ULT(last, s.bb.size), ULE(s.bb.size - 1 - last, ((n - 1) & 1023) << 6)))),
                            ('inventories', s.i.all(s.sd, n, trig))]
def sp_append1(c):
    o = B64(c, c.args[0]); k = c.a(1)
    pre_all(c, o.wf(lambda ix: sum([shr(A, q)(ix) for A in (o.i.B,) for q in (10,)], [])))
    c.pre('gap', ULT(k, bv(64))); c.pre('room', ULT(o.bb.size, bv((1 << 56) - 65)))
    c.mod_objs.append(c.args[0]); c.mod_arrs += o.rids
    def post(c, r):
        if c.mode == 'call':
            for x in o.rids: c.st.wr(x).alive = False
            put_b64(c.ex.env, c.st, c.args[0])
        n = B64(c, c.args[0]); S0 = o.bb.size; e = S0 + k; q = LShR(e, 6); q0 = LShR(S0, 6)
        A, A1 = o.bb.A, n.bb.A
        c.post('size', n.bb.size == e + 1); c.post('contents', FA(lambda i: Implies(ULT(i, e + 1), BIT(A1, i) == If(ULT(i, S0), BIT(A, i), i == e)), bits_of(A1), 'i'))
        post_all(c, n.bb.wf())
        if c.mode == 'root':
            W = Select(A1, q); m = (e + 1) & 63; q1 = LShR(e + 1, 6)
            c.st.ghost['lem'] = ()
            pad = c.step('padding', Implies((S0 & 63) != 0, LShR(Select(A, q0), S0 & 63) == 0))
            X = c.nm(If((S0 & 63) == 0, bv(0), Select(A, q0)), 'lastword')
            words = c.step('words', And(X == low(X, S0 & 63), W == (If(q0 == q, X, bv(0)) | (bv(1) << (e & 63))), Implies(q0 != q, Select(A1, q0) == X), Or(q == q0, q == q0 + 1)))
            c.step('same words before', RW(A1, q0) == RW(A, q0), lem=(L_rwst,))
            c.assume([rw_step(A1, q0), rw_step(A1, q), PC(bv(0)) == 0, pc_bit(e & 63), pc_split(W, e & 63)])
            c.step('word of the new one', And(W & ~LM(e & 63) == bv(1) << (e & 63), W & LM(e & 63) == If(q0 == q, X, bv(0)), PC(W) == PC(W & LM(e & 63)) + 1))
            c.step('ones before', And(PC(X) == PC(low(Select(A, q0), S0 & 63)), RW(A1, q) + PC(W & LM(e & 63)) == RW(A, q0) + PC(X)))
            c.step('ones', n.sd.CNT(e + 1) == RW(A1, q) + PC(W))
            c.step('the new one', n.sd.nth(e, o.n))
            c.step('earlier bits', FA(lambda p: Implies(ULT(p, S0), And((LShR(Select(A1, LShR(p, 6)), p & 63) & 1) == (LShR(Select(A, LShR(p, 6)), p & 63) & 1), low(Select(A1, LShR(p, 6)), p & 63) == low(Select(A, LShR(p, 6)), p & 63))), shr(A1, 6), 'eb'))
            c.step('earlier counts', FA(lambda p: Implies(ULT(p, S0), n.sd.CNT(p) == o.sd.CNT(p)), shr(A1, 6), 'ec'), lem=(L_rwst,))
            keep = [p for p in c.st.pc if not any(z3.is_app(t) and (t.decl().name() in ('PC', 'RW') or z3.is_app_of(t, z3.Z3_OP_BSHL)) for t in subterms(p))]
            x = fresh('x'); c.assume([cn_def(A, x), cn_def(A1, x), cn_def(A1, e)])
            c.post('earlier counts', Implies(ULT(x, S0), CN(A1, x) == CN(A, x))); c.post('the new one', CN(A1, e) == o.n)
            fs = {f.name: f for f in c.st.facts}; tr = shr(n.i.B, 10)
            one = c.step('one more', n.n == o.n + 1, using=keep)
            old = c.step('inventories of the earlier ones', FA(lambda i: Implies(ULT(i, o.n), n.i.good(n.sd, i)), tr, 'go'), using=keep + [fs['good'], fs['eb'], fs['ec']])
            fo = c.st.facts[-1]
            nb = c.step('inventories of the new one', n.i.good(n.sd, o.n))
            late = n.wf(tr)[len(n.bb.wf()):]
            post_all(c, [f for f in late if f[0] != 'inventories'])
            c.st.pc = keep + one + nb; c.st.facts = [fo]
            post_all(c, late[-1:])
        else:
            post_all(c, n.wf(shr(n.i.B, 10))[len(n.bb.wf()):]); c.post('one more', n.n == o.n + 1)
            c.post('earlier counts', FA(lambda p: Implies(ULT(p, S0), CN(A1, p) == CN(A, p)), cns_of(A1), 'cn')); c.post('the new one', And(BIT(A1, e), CN(A1, e) == o.n))
    return post
def cns_of(A):
    return lambda ix: [(t.arg(1),) for t in list(ix.app('CN')) + list(ix.app('BIT')) if t.arg(0).eq(A)]
def a_raw(cls): return lambda v: Ptr(v.st.new_region('obj', size=v.env.layout(TU).size(cls)).rid)
def sp_bctor(c):
    c.mod_objs.append(c.args[0])
    def post(c, r):
        if c.mode == 'call': put_b64(c.ex.env, c.st, c.args[0])
        c.assume([RW(A, bv(0)) == 0 for A in (B64(c, c.args[0]).bb.A,)] + [PC(bv(0)) == 0])
        n = B64(c, c.args[0]); c.post('empty', And(n.n == 0, n.bb.size == 0)); post_all(c, n.wf(shr(n.i.B, 10)))
    return post
def sp_build(c):
    o = B64(c, c.args[1]); pre_all(c, o.wf(shr(o.i.B, 10))); c.mod_objs += [c.args[0], c.args[1]]; c.mod_arrs += o.rids
    def post(c, r):
        d = D64(c, c.args[0])
        c.post('size', And(d.b.size == o.bb.size, d.n == o.n)); c.post('contents', FA(lambda i: Implies(ULT(i, o.bb.size), BIT(d.b.A, i) == BIT(o.bb.A, i)), bits_of(d.b.A, o.bb.A), 'i'))
        if d.b.rid is None: c.assume([RW(A, bv(0)) == 0 for A in (d.b.A, o.bb.A)])
        post_all(c, d.wf(shr(d.B.A, 10)))
    return post
P = ('C06', 'C09')
CONTRACTS = [
    Contract('d64.select', TU, 'h_d64_select', sp_select, a_d64('idx'), r'(?:unsigned long )?succinct::darray64::select\(unsigned long\) const', cuts=('popcount#', 'select_in_word#'), lemmas=RANK, props=P, loops=[LoopSpec(sel_inv, lambda x: bv(1 << 60) - x('word_idx'))], opts=dict(after={'select_in_word#': at_siw})),
    Contract('d64.num_ones', TU, 'h_d64_num', sp_num, a_d64(), props=P),
    Contract('d64.bits', TU, 'h_d64_bits', sp_bits, a_d64(), props=P),
    Contract('d64.append1', TU, 'h_d64_append1', sp_append1, lambda v: [mk_b64(v), fresh('skip')], r'(?:void )?succinct::darray64::builder::append1\(unsigned long\)', props=P, lemmas=RANK),
    Contract('d64.builder', TU, 'h_d64_bctor', sp_bctor, lambda v: [a_raw(B)(v)], r'(?:void )?succinct::darray64::builder::builder\(\)', props=P, lemmas=BASE),
    Contract('d64.build', TU, 'h_d64_build', sp_build, lambda v: [a_raw(D)(v), mk_b64(v)], props=P, lemmas=BASE),
]
