"""elias_fano: queries, enumerator, builder and construction against the encoded sequence V (C07)."""
from contracts.theory import *
from contracts.da import Side, DV, mk_da, shr
from contracts.bvec import getbits, CB, a_bv
from contracts import bvec, builder
from contracts.builder import BB, mod_bb, begin_post, put_bb, a_bb, mk_bb, MAXB
from contracts.rs import subterms
TU = 'ef'
C = 'succinct::elias_fano'
MAXM = 1 << 50
def lo(x, l): return x & lowm(l)
def shr_cmp(a, b, l):
    """comparing by high part, then by low part"""
    return Implies(ULT(l, bv(64)), And(Implies(ULT(LShR(a, l), LShR(b, l)), ULT(a, b)), Implies(LShR(a, l) == LShR(b, l), And(ULT(a, b) == ULT(lo(a, l), lo(b, l)), (a == b) == (lo(a, l) == lo(b, l))))))
def recompose(x, l): return Implies(ULT(l, bv(64)), And(((LShR(x, l) << l) | lo(x, l)) == x, (LShR(x, l) << l) + lo(x, l) == x))
def shl_sub(a, b, l): return Implies(ULT(l, bv(64)), (a - b) << l == (a << l) - (b << l))
def ef_obls():
    a, b = z3.BitVecs('a b', 64); out = []
    for l in range(64): out.append(('high/low parts, width %d' % l, [Not(And(shr_cmp(a, b, bv(l)), recompose(a, bv(l)), shl_sub(a, b, bv(l))))]))
    n, q_, m, r, k = z3.Ints('n q m r k')
    out.append(('n = q m + r, r < m, q < k implies n < k m', [n == q_ * m + r, r >= 0, r < m, q_ >= 0, q_ <= k - 1, Not(n < k * m)]))
    for l in range(64): out.append(('n < 2^%d m implies n / 2^%d <= 2m' % (l + 1, l), [n >= 0, m >= 0, n < 2 ** (l + 1) * m, n >= 2 ** l * (2 * m + 1)]))
    p, q = z3.BitVecs('p q', 64); A = z3.Array('A', S64, S64)
    out.append(('reads of fewer than 64 bits have no bits above, of none are 0', [Not(And(Implies(q == 0, getbits(A, p, q) == 0), Implies(ULT(q, bv(64)), LShR(getbits(A, p, q), q) == 0)))]))
    out.append(('(64 / l) l <= 64', [ULT(b, bv(64)), b != 0, Not(Or(*[And(b == v, z3.BoolVal((64 // v) * v <= 64 and 1 <= 64 // v <= 64)) for v in range(1, 64)]))]))
    i_, j_, l_ = z3.Ints('i j l')
    out.append(('j l = i l + (j - i) l (in any commutative ring)', [j_ * l_ != i_ * l_ + (j_ - i_) * l_]))
    out.append(('no ones between leaves the count (induction step)', [ULT(a, bv(1 << 57)), Not(Implies(a == b, a + bit1(z3.BoolVal(False)) == b))]))
    return out
class EF:
    """view of an elias_fano object; V: the encoded values"""
    def __init__(s, c, p, V, st=None):
        L = c.ex.env.layout(TU); o = lambda f: pofs(p, L.off(C, f))
        s.n = c.rd(o('m_size')); s.l = z3.ZeroExt(56, bv(c.rd(o('m_l'), 8), 8))
        s.H = BV(c, o('m_high_bits'), TU); s.L = BV(c, o('m_low_bits'), TU)
        s.d1 = DV(c, o('m_high_bits_d1'), 1); s.d0 = DV(c, o('m_high_bits_d0'), 0)
        s.s1 = Side(1, s.H.A, s.H.size, s.H.nw); s.s0 = Side(0, s.H.A, s.H.size, s.H.nw)
        s.m = s.d1.n; s.V = V
    def P(s, i): return LShR(Select(s.V, i), s.l) + i
    def val(s, i):
        p = s.P(i)
        return And(ULT(p, s.H.size), BIT(s.H.A, p), CN(s.H.A, p) == i, GB(s.L.A, MULF(i, s.l), s.l) == lo(Select(s.V, i), s.l), ULE(Select(s.V, i), s.n))
    def wf(s, rank, trig=None, tri=None):
        out = [('high ' + a, f) for a, f in s.H.wf()] + [('low ' + a, f) for a, f in s.L.wf()] + [('ones ' + a, f) for a, f in s.d1.wf(s.s1, tri or shr(s.d1.i.B, 10))]
        if rank: out += [('zeros ' + a, f) for a, f in s.d0.wf(s.s0, tri or shr(s.d0.i.B, 10))]
        return out + [('low width', ULT(s.l, bv(64))), ('number of values', And(ULT(s.m, bv(MAXM)), s.m == CN(s.H.A, s.H.size))), ('low bits', s.L.size == MULF(s.m, s.l)), ('high bits', And(ULE(s.m, s.H.size), UGT(s.H.size - s.m, LShR(s.n, s.l) + 1), ULT(LShR(s.n, s.l), bv(1 << 55)))),
            ('values', FA(lambda i: Implies(ULT(i, s.m), s.val(i)), trig or sels(s.V), 'val')),
            ('values do not decrease', FA(lambda i, j: Implies(And(ULE(i, j), ULT(j, s.m)), ULE(Select(s.V, i), Select(s.V, j))), pairs(s.V), 'mono', 2))]
def pairs(A):
    def tr(ix):
        ts = ix.selects(A)
        return [(a, b) for a in ts for b in ts if a.get_id() != b.get_id()]
    return tr
def mk_ef(v, r, off=0):
    L = v.env.layout(TU); o = lambda f: off + L.off(C, f)
    r.cells[o('m_size')] = (8, fresh('n')); r.cells[o('m_l')] = (1, fresh('l', 8))
    mk_bv(v, v.st, r, o('m_high_bits'), TU, 'high'); mk_bv(v, v.st, r, o('m_low_bits'), TU, 'low')
    mk_da(v, r, 1, o('m_high_bits_d1')); mk_da(v, r, 0, o('m_high_bits_d0'))
def a_ef(*ex):
    def f(v):
        r = v.st.new_region('ef', size=v.env.layout(TU).size(C)); mk_ef(v, r)
        return [Ptr(r.rid)] + [fresh(x) for x in ex]
    return f
def theV(c):
    if c.mode == 'root': c.st.ghost['V'] = fresh_arr('V', 64); c.st.ghost['abs'] = True
    if 'V' not in c.st.ghost: raise Undecided('no sequence')
    return c.st.ghost['V']
def ef_pre(c, p, rank):
    V = theV(c); e = EF(c, p, V)
    if c.mode == 'root': c.assume([cn_def(e.H.A, e.H.size)])
    pre_all(c, e.wf(rank))
    c.st.ghost['e'] = e
    return e
# ---- bit_vector reads, restated over GB / CN
def L_gb(ix):
    for t in list(ix.app('GB')): yield ('g', t.get_id()), (lambda t=t: t == getbits(t.arg(0), t.arg(1), t.arg(2)))
def sp_gb(c):
    b = BV(c, c.args[0], 'bv'); p, l = c.a(1), c.a(2)
    pre_all(c, b.wf()); c.pre('len <= 64', ULE(l, bv(64))); c.pre('in range', And(ULE(p, b.size), ULE(l, b.size - p)))
    def post(c, r): c.post('value', And(r == GB(b.A, p, l), Implies(ULT(l, bv(64)), LShR(r, l) == 0)))
    return post
def sp_at(c):
    b = BV(c, c.args[0], 'bv'); p = c.a(1)
    pre_all(c, b.wf()); c.pre('pos < size', ULT(p, b.size))
    def post(c, r): c.post('is bit pos', bo(r) == BIT(b.A, p))
    return post
def sp_size(c):
    e = ef_pre(c, c.args[0], False)
    def post(c, r): c.post('universe bound', r == e.n)
    return post
def sp_num_ones(c):
    e = ef_pre(c, c.args[0], False)
    def post(c, r): c.post('number of values', r == e.m)
    return post
def sp_select(c):
    e = ef_pre(c, c.args[0], False); n = c.a(1); c.pre('n in range', ULT(n, e.m))
    def post(c, r):
        finish(c, 'the n-th value', r == Select(e.V, n), recompose(Select(e.V, n), e.l))
    return post
def below(e, k, pos): return FA(lambda i: Implies(ULT(i, e.m), ULT(Select(e.V, i), pos) == ULT(i, k)), sels(e.V), 'below')
def sp_rank(c):
    e = ef_pre(c, c.args[0], True); pos = c.a(1)
    c.pre('pos in range', ULE(pos, e.n))
    c.st.ghost['pos'] = pos
    def post(c, r):
        c.post('rank in range', ULE(r, e.m)); c.post('number of values below pos', FA(lambda i: Implies(And(ULT(pos, e.n), ULT(i, e.m)), ULT(Select(e.V, i), pos) == ULT(i, r)), sels(e.V), 'below')); c.post('all values at the bound', Implies(pos == e.n, r == e.m))
    return post
def loop_lemmas(x, e, pos, h, r):
    """instances at the position before the cursor and at the value before it; how values compare with pos"""
    st = x.st
    if x.mode == 'assume':
        st.assume([cn_pair(e.H.A, h - 1, h), fresh('prev') == Select(e.V, r - 1)])
    if x.mode == 'assume' or x.entry: st.assume(FA(lambda i: [shr_cmp(Select(e.V, i), pos, e.l), shr_cmp(pos, Select(e.V, i), e.l)], sels(e.V), 'cmp'))
def rank_inv(x):
    e, pos = x.st.ghost['e'], x.st.ghost['pos']; h, r = x('h_pos'), x('rank'); hr = LShR(pos, e.l)
    loop_lemmas(x, e, pos, h, r)
    return [('position', And(ULT(h, e.H.size), h - r == hr, ULE(r, h), CN(e.H.A, h) == r, ULE(r, e.m))), ('values skipped are not below', FA(lambda i: Implies(And(ULE(r, i), ULT(i, e.m)), UGE(Select(e.V, i), pos)), sels(e.V), 'skip')),
            ('values of smaller high part remain', FA(lambda i: Implies(ULT(i, r), ULE(LShR(Select(e.V, i), e.l), hr)), sels(e.V), 'rem'))]
def sp_at_ef(c):
    e = ef_pre(c, c.args[0], True); pos = c.a(1); c.pre('pos in range', ULT(pos, e.n)); c.st.ghost['pos'] = pos
    w = fresh('witness')
    def post(c, r):
        g = c.st.ghost.get('hit')
        c.post('found if present', Implies(And(ULT(w, e.m), Select(e.V, w) == pos), bo(r)))
        k = g[0] if g else bv(0)
        c.post('present if found', Implies(bo(r), And(ULT(k, e.m), Select(e.V, k) == pos)))
    return post
def at_inv(x):
    st = x.st; e, pos = st.ghost['e'], st.ghost['pos']; h, r = x('h_pos'), x('rank'); hr = LShR(pos, e.l)
    if x.mode == 'assume': st.ghost['hit'] = (r - 1,)
    loop_lemmas(x, e, pos, h, r)
    return [('position', And(ULT(h, e.H.size), h - r == hr, ULE(r, h), CN(e.H.A, h) == r, ULE(r, e.m))), ('values skipped are above', FA(lambda i: Implies(And(ULE(r, i), ULT(i, e.m)), UGT(Select(e.V, i), pos)), sels(e.V), 'skip')),
            ('values of smaller high part remain', FA(lambda i: Implies(ULT(i, r), ULE(LShR(Select(e.V, i), e.l), hr)), sels(e.V), 'rem'))]
def sp_succ(c):
    e = ef_pre(c, c.args[0], True); pos = c.a(1); w = fresh('witness')
    c.pre('pos in range', ULT(pos, e.n)); c.pre('a value is at or after pos', And(ULT(w, e.m), UGE(Select(e.V, w), pos)))
    def post(c, r):
        k = c.st.ghost['k'] if c.mode == 'root' else fresh('k')
        c.post('a value at or after pos', And(ULT(k, e.m), r == Select(e.V, k), UGE(r, pos))); c.post('the nearest', FA(lambda i: Implies(And(ULT(i, e.m), UGE(Select(e.V, i), pos)), UGE(Select(e.V, i), r)), sels(e.V), 'near'))
    return post
def sp_pred(c):
    e = ef_pre(c, c.args[0], True); pos = c.a(1); w = fresh('witness')
    c.pre('pos in range', ULT(pos, e.n)); c.pre('a value is at or before pos', And(ULT(w, e.m), ULE(Select(e.V, w), pos)))
    c.pre('no value equals the bound', ULT(Select(e.V, e.m - 1), e.n))
    def post(c, r):
        k = c.st.ghost['k'] - 1 if c.mode == 'root' else fresh('k')
        c.post('a value at or before pos', And(ULT(k, e.m), r == Select(e.V, k), ULE(r, pos))); c.post('the nearest', FA(lambda i: Implies(And(ULT(i, e.m), ULE(Select(e.V, i), pos)), ULE(Select(e.V, i), r)), sels(e.V), 'near'))
    return post
def keep_k(c, r): c.st.ghost['k'] = r
def at_pos(c, r):
    """the position found is the one the value says"""
    e = c.st.ghost['e']; i = c.a(2); k = c.st.ghost.get('known', ())
    c.st.ghost['known'] = tuple(k) + tuple(c.step('position of the value', r == e.P(i)))
def at_low(c, r):
    e = c.st.ghost['e']; p = c.a(1)
    if z3.is_app(p) and p.decl().name() == 'MUL':
        i = p.arg(0); k = c.st.ghost.get('known', ())
        c.st.ghost['known'] = tuple(k) + tuple(c.step('low part of the value', r == lo(Select(e.V, i), e.l)))
def at_near(c, r):
    e = c.st.ghost['e']; k = c.st.ghost.get('known', ())
    c.st.ghost['known'] = tuple(k) + tuple(c.step('position of the neighbour', r == c.st.ghost['near'](c)))
AFT = {'da1.select': at_pos, 'ef.get_bits#': at_low, 'bv.predecessor1#': at_near, 'bv.successor1#': at_near}
def finish(c, name, f, *lem):
    """final equation from the parts identified at the calls"""
    if c.mode == 'root':
        k = list(c.st.ghost.get('known', ())); e = c.st.ghost['e']
        d = [p for p in c.st.pc if z3.is_eq(p) and z3.is_const(p.arg(0)) and p.arg(0).decl().name().startswith('n_ret')]
        w = c.step('low width', ULT(e.l, bv(64)))
        g = [p for p in c.st.pc if len(str(p)) < 120 and not any(z3.is_app(t) and t.decl().name() in ('CN', 'RW', 'PC', 'GB', 'BIT') for t in subterms(p))]
        c.step(name, f, using=k + d + w + g + c.assume(list(lem)), lem=())
    c.post(name, f)
def sp_delta(c):
    e = ef_pre(c, c.args[0], False); n = c.a(1); c.st.ghost['near'] = lambda c: e.P(n - 1); c.pre('n in range', ULT(n, e.m))
    def post(c, r):
        a, b = Select(e.V, n), Select(e.V, n - 1)
        finish(c, 'difference to the previous value', r == Select(e.V, n) - If(n == 0, bv(0), Select(e.V, n - 1)), recompose(a, e.l), recompose(b, e.l), shl_sub(LShR(a, e.l), LShR(b, e.l), e.l))
    return post
def sp_range(c):
    e = ef_pre(c, c.args[0], False); n = c.a(1); c.pre('n+1 in range', And(ULT(n, e.m), ULT(n + 1, e.m))); c.st.ghost['near'] = lambda c: e.P(n + 1)
    for p in c.args[2:]: c.modifies(p, 8)
    def post(c, r):
        if c.mode == 'call': c.post('the values', And(bv(r[0]) == Select(e.V, n), bv(r[1]) == Select(e.V, n + 1))); return
        finish(c, 'the n-th value', c.rd(c.args[2]) == Select(e.V, n), recompose(Select(e.V, n), e.l)); finish(c, 'the next value', c.rd(c.args[3]) == Select(e.V, n + 1), recompose(Select(e.V, n + 1), e.l))
    return post
def a_range(v):
    out = a_ef('n')(v)
    for n in 'ab':
        r = v.st.new_region(n, size=8); r.cells[0] = (8, fresh(n)); out.append(Ptr(r.rid))
    return out
# nearest one on a side, from a known one (its CN is known): over BIT
def sp_near(fwd):
    def sp(c):
        b = BV(c, c.args[0], 'bv'); p = c.a(1)
        pre_all(c, b.wf()); c.pre('pos < size', ULT(p, b.size))
        w = fresh('witness') if c.mode == 'root' else c.st.ghost['near'](c)
        c.pre('one exists', And(ULT(w, b.size), BIT(b.A, w), UGE(w, p) if fwd else ULE(w, p)))
        want = lambda i: bitx(b.A, i)
        if c.mode == 'root': c.st.ghost.update(w=w, pos=p, b=b, want=want); c.fact(BIT(b.A, w) == bitx(b.A, w))
        def post(c, r):
            c.post('found', BIT(b.A, r)); c.post('side', And(UGE(r, p), ULE(r, w)) if fwd else And(ULE(r, p), UGE(r, w)))
            if c.mode == 'root': c.post('nearest', FA(lambda j: Implies(And(ULE(p, j), ULT(j, r)) if fwd else And(ULT(r, j), ULE(j, p)), Not(BIT(b.A, j))), bits_of(b.A), 'near'))
            # no ones between: the counts agree
            else: c.fact(CN(b.A, r) == CN(b.A, p) if fwd else CN(b.A, r) + 1 == CN(b.A, p + 1))
        return post
    return sp
# ---------------------------------------------------------------- builder
B = 'succinct::elias_fano::elias_fano_builder'
def gbs_of(A):
    return lambda ix: [(t.arg(1), t.arg(2)) for t in ix.app('GB') if t.arg(0).eq(A)]
def cns_of(A):
    return lambda ix: [(t.arg(1),) for t in list(ix.app('CN')) + list(ix.app('BIT')) if t.arg(0).eq(A)]
def sp_append_gb(c):
    o = BB(c, c.args[0]); x, l = c.a(1), c.a(2)
    pre_all(c, o.wf()); c.pre('room', ULT(o.size, bv(MAXB - 64))); c.pre('len <= 64', ULE(l, bv(64)))
    c.pre('no spurious bits', Implies(ULT(l, bv(64)), LShR(x, l) == 0)); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        c.post('size', n.size == o.size + l); post_all(c, n.wf(), 'wf: ')
        c.post('the appended bits', GB(n.A, o.size, l) == x)
        c.post('the earlier bits', FA(lambda p, k: Implies(And(ULE(k, bv(64)), ULE(p, o.size), ULE(k, o.size - p)), GB(n.A, p, k) == GB(o.A, p, k)), gbs_of(n.A), 'gb', 2))
    return post
def rw_store(A, w, x, v): return Implies(And(ULT(w, v), ULE(v, bv(1 << 57))), RW(Store(A, w, x), v) == RW(A, v) - PC(Select(A, w)) + PC(x))
def L_rwstore(ix):
    for t in list(ix.app('RW')):
        A, v = t.arg(0), t.arg(1)
        if z3.is_app_of(A, z3.Z3_OP_STORE): yield ('s', t.get_id()), (lambda t=t, A=A, v=v: If(ULE(v, A.arg(1)), t == RW(A.arg(0), v), Implies(ULE(v, bv(1 << 57)), t == RW(A.arg(0), v) - PC(Select(A.arg(0), A.arg(1))) + PC(A.arg(2)))))
def sp_set_cn(c):
    """set a clear bit"""
    o = BB(c, c.args[0]); p = c.a(1); b = bo(c.args[2])
    pre_all(c, o.wf()); c.pre('pos < size', ULT(p, o.size)); c.pre('to one', b); c.pre('it is clear', Not(BIT(o.A, p))); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        c.post('size', n.size == o.size); post_all(c, n.wf(), 'wf: ')
        c.post('bits', FA(lambda q: Implies(ULE(q, o.size), BIT(n.A, q) == Or(q == p, BIT(o.A, q))), cns_of(n.A), 'b'))
        if c.mode == 'root':
            w = LShR(p, 6); W0, W1 = Select(o.A, w), Select(n.A, w); k = p & 63
            c.assume([pc_split(W1, k), pc_split(W0, k), pc_bit(k), pc_split(W1 & ~LM(k), k + 1), pc_split(W0 & ~LM(k), k + 1)])
            f = c.step('word', And(W1 == W0 | (bv(1) << k), (LShR(W0, k) & 1) == 0), lem=(L_bit,))
            q = fresh('q')
            m = q & 63; y0, y1 = low(W0, m), low(W1, m)
            c.assume([pc_split(y1, k), pc_split(y0, k), pc_split(y1 & ~LM(k), k + 1), pc_split(y0 & ~LM(k), k + 1), PC(bv(0)) == 0])
            pt = lambda z0, z1, nm: c.step(nm, And(z1 & LM(k) == z0 & LM(k), Implies((LShR(z1, k) & 1) == 1, z1 & ~LM(k) & LM(k + 1) == bv(1) << k), z0 & ~LM(k) & LM(k + 1) == 0, z1 & ~LM(k) & ~LM(k + 1) == z0 & ~LM(k) & ~LM(k + 1)), using=f, lem=())
            pt(W0, W1, 'rest of the word')
            c.step('one more in the word', PC(W1) == PC(W0) + 1, lem=())
            c.step('low part before', Implies(ULE(m, k), y1 == y0), using=f, lem=()); 
            g = c.step('low part after', Implies(UGT(m, k), And(y1 & LM(k) == y0 & LM(k), y1 & ~LM(k) & LM(k + 1) == bv(1) << k, y0 & ~LM(k) & LM(k + 1) == 0, y1 & ~LM(k) & ~LM(k + 1) == y0 & ~LM(k) & ~LM(k + 1))), using=f, lem=())
            c.step('one more in the low part', Implies(UGT(m, k), PC(y1) == PC(y0) + 1), lem=())
            c.assume([cn_def(n.A, q), cn_def(o.A, q)])
            c.post('counts', Implies(ULE(q, o.size), CN(n.A, q) == CN(o.A, q) + If(UGT(q, p), bv(1), bv(0))))
        else: c.post('counts', FA(lambda q: Implies(ULE(q, o.size), CN(n.A, q) == CN(o.A, q) + If(UGT(q, p), bv(1), bv(0))), cns_of(n.A), 'c'))
    return post
class EB:
    def __init__(s, c, p, V):
        L = c.ex.env.layout(TU); o = lambda f: pofs(p, L.off(B, f)); s.V = V
        s.n, s.mm, s.pos, s.last = (c.rd(o(f)) for f in ('m_n', 'm_m', 'm_pos', 'm_last')); s.l = z3.ZeroExt(56, bv(c.rd(o('m_l'), 8), 8))
        s.H = BB(c, o('m_high_bits')); s.L = BB(c, o('m_low_bits'))
        s.q = If(s.pos == 0, bv(0), LShR(s.last, s.l) + s.pos)
    P = EF.P; val = EF.val
    def wf(s, V=None):
        A = s.H.A
        return [('high ' + a, f) for a, f in s.H.wf()] + [('low ' + a, f) for a, f in s.L.wf()] + [('low width', ULT(s.l, bv(64))), ('sizes', And(ULE(s.pos, s.mm), ULT(s.mm, bv(MAXM)), ULT(LShR(s.n, s.l), bv(1 << 55)), s.H.size == s.mm + 1 + LShR(s.n, s.l) + 1)), ('low bits', s.L.size == MULF(s.pos, s.l)),
            ('last value', And(ULE(s.last, s.n), ULE(LShR(s.last, s.l), LShR(s.n, s.l)), If(s.pos == 0, s.last == 0, s.last == Select(s.V, s.pos - 1)))),
            ('values', FA(lambda i: Implies(ULT(i, s.pos), s.val(i)), sels(s.V), 'val')), ('values do not decrease', FA(lambda i, j: Implies(And(ULE(i, j), ULT(j, s.pos)), ULE(Select(s.V, i), Select(s.V, j))), pairs(s.V), 'mono', 2)),
            ('nothing after the last value', FA(lambda p: Implies(And(UGE(p, s.q), ULE(p, s.H.size)), And(CN(A, p) == s.pos, Implies(ULT(p, s.H.size), Not(BIT(A, p))))), cns_of(A), 'rest'))]
def a_eb(v, *ex):
    L = v.env.layout(TU); r = v.st.new_region('eb', size=L.size(B)); p = Ptr(r.rid)
    put_eb(v.env, v.st, p)
    return [p] + [fresh(x) for x in ex]
def put_eb(env, st, p):
    L = env.layout(TU)
    for f in ('m_n', 'm_m', 'm_pos', 'm_last'): poke(st, pofs(p, L.off(B, f)), 8, fresh(f))
    poke(st, pofs(p, L.off(B, 'm_l')), 1, fresh('l', 8))
    put_bb(env, st, pofs(p, L.off(B, 'm_high_bits')), 'high'); put_bb(env, st, pofs(p, L.off(B, 'm_low_bits')), 'low')
def sp_push(c):
    V = theV(c); o = EB(c, c.args[0], V); pre_all(c, o.wf()); i = c.a(1)
    c.pre('order', And(UGE(i, o.last), ULE(i, o.n))); c.pre('room', ULT(o.pos, o.mm))
    c.mod_objs.append(c.args[0]); c.mod_arrs += [o.H.rid, o.L.rid]
    V1 = Store(V, o.pos, i)
    if c.mode == 'root':
        p = LShR(i, o.l) + o.pos
        c.assume([shr_cmp(i, o.last, o.l), shr_cmp(i, o.n, o.l), fresh('at') == CN(o.H.A, p), recompose(i, o.l)])
        c.step('high part', And(UGE(LShR(i, o.l), LShR(o.last, o.l)), ULE(LShR(i, o.l), LShR(o.n, o.l))))
        c.step('high position free', And(UGE(p, o.q), ULT(p, o.H.size), Not(BIT(o.H.A, p)), CN(o.H.A, p) == o.pos))
    def post(c, r):
        if c.mode == 'call':
            for x in (o.H, o.L): c.st.wr(x.rid).alive = False
            put_eb(c.ex.env, c.st, c.args[0]); c.st.ghost['V'] = V1
        n = EB(c, c.args[0], V1)
        c.post('one more value', And(n.pos == o.pos + 1, n.n == o.n, n.mm == o.mm, n.l == o.l))
        if c.mode == 'root':
            c.step('width kept', n.l == o.l)
            c.step('the new value', n.val(o.pos))
            c.step('the earlier values', FA(lambda i: Implies(ULT(i, o.pos), n.val(i)), sels(V), 'old'))
        post_all(c, n.wf())
    return post
def div_high(n, m, l):
    """the high parts of values up to n are at most 2m when l is the top bit of n/m"""
    q = DIVF(n, m)
    return Implies(And(m != 0, ULT(m, bv(1 << 54))), And(Implies(q == 0, ULT(n, m)), Implies(And(q != 0, ULT(l, bv(64)), LShR(q, l) == 1), ULE(LShR(n, l), m << 1))))
def sp_eb_ctor(c):
    n, m = c.a(1), c.a(2); c.pre('number of values', ULT(m, bv(MAXM))); c.pre('universe of an empty sequence', Implies(m == 0, ULT(n, bv(1 << 54))))
    V = theV(c); c.mod_objs.append(c.args[0])
    c.st.ghost['nm'] = (n, m)
    if c.mode == 'root': c.assume(div_high(n, m, bv(0)))
    def post(c, r):
        if c.mode == 'call': put_eb(c.ex.env, c.st, c.args[0])
        e = EB(c, c.args[0], V)
        c.post('empty', And(e.pos == 0, e.n == n, e.mm == m)); post_all(c, e.wf())
    return post
def at_msb(c, r):
    n, m = c.st.ghost['nm']; c.assume(div_high(n, m, z3.ZeroExt(56, bv(r, 8))))
def at_bbctor(c, r):
    o = BB(c, c.args[0]); f = c.st.facts[-1]
    if f.name != 'i': raise Undecided('contents fact')
    c.fact(FA(lambda p: Implies(ULE(p, o.size), CN(o.A, p) == 0), cns_of(o.A), 'zero'))      # no ones: induction over CN(p+1) = CN(p) + bit
    if c.a(1) is not None: c.assume([BIT(o.A, bv(0)) == bitx(o.A, bv(0))])
def rel(c, t):
    """path facts that mention the constant t"""
    return [p for p in c.st.pc if len(str(p)) < 400 and any(x.eq(t) for x in subterms(p))]
def counted(c, e, o):
    if 'counted' in c.st.ghost: return
    c.st.ghost['counted'] = 1
    T = CN(o.H.A, o.H.size)
    d = [p for p in c.st.pc if p.eq(cn_def(o.H.A, o.H.size))]
    h = c.step('same high bits', And(e.H.size == o.H.size, e.n == o.n))
    a = c.step('ones', e.m == T, using=rel(c, e.m) + d + h, lem=())
    b = c.step('ones pushed', T == o.pos)
    w = c.step('width', e.l == o.l)
    c.step('width and sizes', And(e.l == o.l, e.n == o.n, e.m == o.pos, e.H.size == o.H.size), using=a + b + w + h, lem=())
def final(c, e, o, rk):
    """the object built from builder o is well-formed"""
    counted(c, e, o)
    k = c.step('width and sizes', And(e.l == o.l, e.n == o.n, e.m == o.pos, e.H.size == o.H.size)); z = c.step('builder sizes', And(ULE(o.pos, o.mm), ULT(o.mm, bv(MAXM)), ULT(LShR(o.n, o.l), bv(1 << 55)), o.H.size == o.mm + 1 + LShR(o.n, o.l) + 1))
    hn = c.nm(LShR(o.n, o.l), 'hn'); d = c.st.pc[-1:]; g = c.step('high part of the bound', LShR(e.n, e.l) == hn, using=k + d, lem=())
    z2 = c.step('high size', And(ULT(hn, bv(1 << 55)), o.H.size == o.mm + 1 + hn + 1, ULE(o.pos, o.mm), ULT(o.mm, bv(MAXM))), using=z + d, lem=())
    h2 = c.step('room', And(ULE(e.m, e.H.size), UGT(e.H.size - e.m, hn + 1), ULT(hn, bv(1 << 55))), using=z2 + k, lem=())
    c.step('high bits', And(ULE(e.m, e.H.size), UGT(e.H.size - e.m, LShR(e.n, e.l) + 1), ULT(LShR(e.n, e.l), bv(1 << 55))), using=g + h2, lem=())
    post_all(c, e.wf(False))
    for a, f in e.d0.wf(e.s0, shr(e.d0.i.B, 10)):
        if isinstance(f, Forall): b = f.body; c.post('rank index: ' + a, FA(lambda i: Implies(rk, b(i)), f.trig, 'rk'))
        else: c.post('rank index: ' + a, Implies(rk, f))
def sp_from_builder(c):
    V = theV(c); o = EB(c, c.args[1], V); pre_all(c, o.wf()); rk = bo(c.args[2])
    c.mod_objs += [c.args[0], c.args[1]]; c.mod_arrs += [o.H.rid, o.L.rid]
    if c.mode == 'root': c.assume([cn_def(o.H.A, o.H.size), fresh('total') == CN(o.H.A, o.H.size)])
    def post(c, r):
        if c.mode == 'call': raise Undecided('elias_fano(builder) is not used as a summary')
        e = EF(c, c.args[0], V)
        counted(c, e, o)
        c.post('universe and size', And(e.n == o.n, e.m == o.pos))
        c.st.ghost['e'] = e
        final(c, e, o, rk)
    return post
def a_fb(v): return [Ptr(v.st.new_region('ef', size=v.env.layout(TU).size(C)).rid)] + a_eb(v) + [fresh_bool('with_rank')]
# ---------------------------------------------------------------- from a bit vector: the sequence of its ones
def is_kth(A, V, k, size): return And(ULT(Select(V, k), size), BIT(A, Select(V, k)), CN(A, Select(V, k)) == k)
def sp_from_bvb(c):
    V = theV(c); o = BB(c, c.args[1]); pre_all(c, o.wf()); rk = bo(c.args[2])
    c.pre('number of ones', ULT(CN(o.A, o.size), bv(MAXM))); c.pre('size of an empty set', Implies(CN(o.A, o.size) == 0, ULT(o.size, bv(1 << 54))))
    c.mod_objs += [c.args[0], c.args[1]]; c.mod_arrs += [o.rid]
    A = o.A; q = LShR(o.size, 6); k = o.size & 63
    c.assume([cn_def(A, o.size), rw_step(A, q), pc_split(Select(A, q), k), PC(bv(0)) == 0, RW(A, bv(0)) == 0])
    c.step('ones in the words', RW(A, o.nw) == CN(A, o.size))
    c.assume(cn_pair(A, bv(0), o.size))
    c.st.ghost.update(o=o, near=lambda c: fresh('witness'))
    def post(c, r):
        V = c.st.ghost['V']; e = EF(c, c.args[0], V); c.st.ghost['e'] = e
        counted(c, e, c.st.ghost['b'])
        c.post('universe and size', And(e.n == o.size, e.m == CN(A, o.size)))
        c.post('the values are the ones', FA(lambda i: Implies(ULT(i, CN(A, o.size)), is_kth(A, V, i, o.size)), sels(V), 'kth'))
        final(c, e, c.st.ghost['b'], rk)
    return post
def cnt_inv(x):
    o = x.st.ghost['o']; i, m = x('i'), x('m')
    x.st.assume(rw_step(o.A, i))
    return [('position', ULE(i, o.nw)), ('ones so far', m == RW(o.A, i))]
def push_inv(x):
    st = x.st; o = st.ghost['o']; A = o.A; pos, i = x('pos'), x('i'); p = x.addr('builder'); m = CN(A, o.size)
    if x.mode == 'assume': put_eb(x.ex.env, st, p); st.ghost['V'] = fresh_arr('V', 64)
    V = st.ghost['V']; b = EB(x.sc(), p, V)
    if x.mode == 'assume':
        w = fresh('witness')       # fewer ones before i than in all: there is one at or after i
        st.assume([Implies(ULT(CN(A, i), m), And(ULE(i, w), ULT(w, o.size), BIT(A, w)))]); st.ghost['near'] = lambda c: w
        st.ghost['b'] = b; st.assume([cn_def(b.H.A, b.H.size)])
    return [('progress', And(ULE(pos, m), ULE(i, o.size), CN(A, i) == pos, b.pos == pos, b.n == o.size, b.mm == m)), ('last', Implies(pos != 0, ULT(b.last, i))),
            ('ones so far', FA(lambda k: Implies(ULT(k, pos), is_kth(A, V, k, o.size)), sels(V), 'kth'))] + b.wf()
def at_succ(c, r):
    o = c.st.ghost['o']; c.assume([cn_pair(o.A, r, r + 1)])
# ---------------------------------------------------------------- select_enumerator
SEC = 'succinct::elias_fano::select_enumerator'
from contracts.enums import UN, UC
from contracts.da import shr2
def sp_get_word(c):
    b = BV(c, c.args[0], 'bv'); p = c.a(1)
    pre_all(c, b.wf()); c.pre('pos < size', ULT(p, b.size))
    def post(c, r):
        if c.mode == 'root':
            k, w = fresh('k'), fresh('w'); j = fresh('j')
            c.post('bits of the word', Implies(And(ULT(j, bv(64)), ULT(p + j, b.size)), wbit(r, j) == BIT(b.A, p + j)))
            c.post('fields of the word', Implies(And(ULE(k, bv(64)), ULT(w, bv(64)), ULE(k + w, bv(64)), ULE(p + k + w, b.size)), lo(LShR(r, k), w) == GB(b.A, p + k, w)))
        else: c.st.ghost['wbit'] = lambda j: Implies(And(ULT(j, bv(64)), ULT(p + j, b.size)), wbit(r, j) == BIT(b.A, p + j)); c.st.ghost['field'] = lambda k, w: Implies(And(ULE(k, bv(64)), ULT(w, bv(64)), ULE(k + w, bv(64)), ULE(p + k + w, b.size)), lo(LShR(r, k), w) == GB(b.A, p + k, w))
    return post
def div_mul(l): return Implies(And(l != 0, ULT(l, bv(64))), And(ULE(MULF(DIVF(bv(64), l), l), bv(64)), UGE(DIVF(bv(64), l), bv(1)), ULE(DIVF(bv(64), l), bv(64))))
def mul_sum(i, j, l): return MULF(j, l) == MULF(i, l) + MULF(j - i, l)
class SE:
    def __init__(s, c, p, V):
        L = c.ex.env.layout(TU); o = lambda f: pofs(p, L.off(SEC, f)); s.V = V; s.p = p
        s.i, s.l, s.buf, s.mask, s.ciw, s.av = (c.rd(o(f)) for f in ('m_i', 'm_l', 'm_low_buf', 'm_low_mask', 'm_chunks_in_word', 'm_chunks_avail'))
        s.up = o('m_high_enum'); s.efp = c.rd(o('m_ef'))
        d = peek(c.ex, c.st, pofs(s.up, L.off(UC, 'm_data')), 0)
        s.u = UN(c, s.up) if isinstance(d, Ptr) and d.r is not None else None
    def chunk(s, k): return lo(LShR(s.buf, MULF(k, s.l)), s.l)
    def inv(s, e):
        """i is the next element; the buffer holds the low parts of the elements from i on, av of them"""
        some = e.m != 0
        out = [('settings', Implies(some, And(s.l == e.l, s.mask == lowm(e.l), ULE(s.i, e.m), s.ciw == If(e.l == 0, bv(0), DIVF(bv(64), e.l))))),
               ('buffer', Implies(And(some, e.l == 0), And(s.buf == 0, UGE(s.av, e.m - s.i)))), ('chunks', Implies(And(some, e.l != 0), ULE(s.av, s.ciw))),
               ('low parts', FA(lambda j: Implies(And(some, e.l != 0, ULE(s.i, j), ULT(j - s.i, s.av), ULT(j, e.m)), s.chunk(j - s.i) == lo(Select(s.V, j), e.l)), sels(s.V), 'lowp'))]
        if s.u is None: return out + [('no values', e.m == 0)]
        return out + [('high ' + a, f) for a, f in s.u.inv()] + [('over the high bits', bool(s.u.data.r == e.H.rid)), ('ones before', s.u.before == s.i)]
def a_se(v):
    L = v.env.layout(TU); r = v.st.new_region('ef', size=L.size(C)); mk_ef(v, r)
    q = v.st.new_region('se', size=L.size(SEC)); p = Ptr(q.rid)
    put_se(v.env, v.st, p, Ptr(r.rid), r.cells[L.off(C, 'm_high_bits') + L.off('succinct::bit_vector', 'm_bits') + L.off(MV % 'unsigned long', 'm_data')][1])
    return [p]
def put_se(env, st, p, ef, data):
    L = env.layout(TU)
    for f in ('m_i', 'm_l', 'm_low_buf', 'm_low_mask', 'm_chunks_in_word', 'm_chunks_avail'): poke(st, pofs(p, L.off(SEC, f)), 8, fresh(f))
    poke(st, pofs(p, L.off(SEC, 'm_ef')), 8, ef)
    u = pofs(p, L.off(SEC, 'm_high_enum'))
    poke(st, pofs(u, L.off(UC, 'm_data')), 8, data)
    for f in ('m_position', 'm_buf'): poke(st, pofs(u, L.off(UC, f)), 8, fresh(f))
def ones_total(c, e):
    """the words of the high bits hold exactly the ones of the vector"""
    b = e.H; q = LShR(b.size, 6); k = b.size & 63
    c.assume([rw_step(b.A, q), pc_split(Select(b.A, q), k), PC(bv(0)) == 0])
    c.derive('ones in the words', RW(b.A, b.nw) == e.m)
def sp_se_ctor(c):
    e = ef_pre(c, c.args[1], False); i = c.a(2); c.pre('i in range', Or(e.m == 0, ULT(i, e.m))); c.mod_objs.append(c.args[0])
    if c.mode == 'root': c.assume([div_mul(e.l)])
    def post(c, r):
        if c.mode == 'call': put_se(c.ex.env, c.st, c.args[0], c.args[1], MVV(c.ex, c.st, pofs(c.args[1], c.ex.env.layout(TU).off(C, 'm_high_bits') + c.ex.env.layout(TU).off('succinct::bit_vector', 'm_bits')), TU).data)
        s = SE(c, c.args[0], e.V)
        if c.mode == 'root' and s.u is not None: c.assume([cn_def(e.H.A, s.u.pos)])
        c.post('at element i', And(Implies(e.m != 0, s.i == i), bool(s.efp.r == c.args[1].r and s.efp.off == c.args[1].off)))
        post_all(c, s.inv(e))
    return post
def sp_se_next(c):
    efp = c.rd(pofs(c.args[0], c.ex.env.layout(TU).off(SEC, 'm_ef')))
    e = ef_pre(c, efp, False); s = SE(c, c.args[0], e.V); c.mod_objs.append(c.args[0])
    pre_all(c, s.inv(e)); c.pre('not at the end', ULT(s.i, e.m))
    if c.mode == 'root':
        ones_total(c, e); c.assume([div_mul(e.l)]); c.st.ghost.update(s=s, ef=e)
        c.step('the current field', ULE(MULF(s.i, e.l) + e.l, e.L.size))
    def post(c, r):
        if c.mode == 'call': put_se(c.ex.env, c.st, c.args[0], s.efp, s.u.data)
        n = SE(c, c.args[0], e.V)
        if c.mode == 'root':
            l, i, st = e.l, s.i, c.st
            w = st.ghost.get('word')
            if w is not None: c.step('low part', lo(w, l) == lo(Select(e.V, i), l))
            else: c.step('low part', lo(s.buf, l) == lo(Select(e.V, i), l))
            c.assume(recompose(Select(e.V, i), l))
        c.post('the current value', r == Select(e.V, s.i)); post_all(c, n.inv(e)); c.post('moved on', And(n.i == s.i + 1, bool(n.efp.r == s.efp.r and n.efp.off == s.efp.off)))
    return post
def at_word(c, r):
    """the fields of the word just read are the low parts of the next values"""
    e = c.st.ghost['e']; s = c.st.ghost.get('s')
    if s is None: return
    w = c.st.ghost['field']; l = e.l; c.st.ghost['word'] = r
    c.fact(FA(lambda j: [w(MULF(j - s.i, l), l), mul_sum(s.i, j, l)], sels(e.V), 'fields'))
def at_high(c, r):
    s, e = c.st.ghost['s'], c.st.ghost['ef']; i = s.i; h = r
    c.assume([cn_def(e.H.A, h), BIT(e.H.A, h) == bitx(e.H.A, h)])
    c.step('a one of rank i', And(BIT(e.H.A, h), CN(e.H.A, h) == i, ULT(h, e.H.size)))
    c.assume([cn_pair(e.H.A, h, e.P(i)), cn_pair(e.H.A, e.P(i), h)])
    c.step('high part', h == e.P(i)); c.st.ghost['e'] = e
P = ('C07',)
GET = ('ef.get_bits#', 'ef.at#')
NS = r'(?:bool |unsigned long |std::pair<unsigned long, unsigned long> )?succinct::elias_fano::'
def K(name, root, spec, args, pat=None, cuts=(), **k):
    o = k.pop('opts', {}); o['ufmul'] = True
    return Contract('ef.' + name, TU, root, spec, args, (NS + pat) if pat else None, props=P, lemmas=ABS, cuts=GET + ('da1.select', 'da0.select') + cuts, opts=o, **k)
CONTRACTS = [
    Contract('ef.get_bits#', 'bv', 'h_bv_get_bits', sp_gb, lambda v: a_bv(v, 'pos', 'len'), CB + r'get_bits\(unsigned long, unsigned long\) const', props=P, lemmas=(L_gb,)),
    Contract('ef.at#', 'bv', 'h_bv_at', sp_at, lambda v: a_bv(v, 'pos'), CB + r'operator\[\]\(unsigned long\) const', props=P, lemmas=BASE),
    K('size', 'h_ef_size', sp_size, a_ef()),
    K('num_ones', 'h_ef_num_ones', sp_num_ones, a_ef()),
    K('select', 'h_ef_select', sp_select, a_ef('n'), r'select\(unsigned long\) const', opts=dict(after=AFT)),
    K('rank', 'h_ef_rank', sp_rank, a_ef('pos'), r'rank\(unsigned long\) const', loops=[LoopSpec(rank_inv, lambda x: x('h_pos'))]),
    K('at', 'h_ef_at', sp_at_ef, a_ef('pos'), loops=[LoopSpec(at_inv, lambda x: x('h_pos'))]),
    K('successor1', 'h_ef_succ', sp_succ, a_ef('pos'), cuts=('ef.rank', 'ef.select'), opts=dict(after={'ef.rank': keep_k})),
    K('predecessor1', 'h_ef_pred', sp_pred, a_ef('pos'), cuts=('ef.rank', 'ef.select'), opts=dict(after={'ef.rank': keep_k})),
    K('delta', 'h_ef_delta', sp_delta, a_ef('n'), r'delta\(unsigned long\) const', cuts=('bv.predecessor1#',), opts=dict(after=AFT)),
    K('select_range', 'h_ef_range', sp_range, a_range, r'select_range\(unsigned long\) const', cuts=('bv.successor1#',), opts=dict(after=AFT)),
    Contract('bv.successor1#', 'bv', 'h_bv_succ1', sp_near(1), lambda v: a_bv(v, 'pos'), CB + r'successor1\(unsigned long\) const', loops=[bvec.search_loop(1, 1)], props=P, lemmas=BASE),
    Contract('bv.predecessor1#', 'bv', 'h_bv_pred1', sp_near(0), lambda v: a_bv(v, 'pos'), CB + r'predecessor1\(unsigned long\) const', loops=[bvec.search_loop(1, 0)], props=P, lemmas=BASE),
    Contract('bb.append_bits#', 'bv', 'h_bb_append_bits', sp_append_gb, lambda v: a_bb(v, 'bits', 'len'), builder.CB + r'append_bits\(unsigned long, unsigned long\)', props=P, lemmas=BASE + (L_gb,)),
    Contract('bb.set#', 'bv', 'h_bb_set', sp_set_cn, lambda v: a_bb(v, 'pos', 'b?'), builder.CB + r'set\(unsigned long, bool\)', props=P, lemmas=(L_bit, L_rwstore)),
    K('push_back', 'h_eb_push', sp_push, lambda v: a_eb(v, 'value'), r'elias_fano_builder::push_back\(unsigned long\)', cuts=('bb.append_bits#', 'bb.set#')),
    K('builder', 'h_eb_ctor', sp_eb_ctor, lambda v: [Ptr(v.st.new_region('eb', size=v.env.layout(TU).size(B)).rid), fresh('n'), fresh('m')], r'elias_fano_builder::elias_fano_builder\(unsigned long, unsigned long\)', cuts=('bb.ctor', 'bb.reserve', 'msb#'), opts=dict(after={'msb#': at_msb, 'bb.ctor': at_bbctor})),
    K('from_builder', 'h_ef_from_builder', sp_from_builder, a_fb, cuts=('da1.build', 'da0.build')),
    K('from_bits', 'h_ef_from_bvb', sp_from_bvb, lambda v: [Ptr(v.st.new_region('ef', size=v.env.layout(TU).size(C)).rid), mk_bb(v, v.st), fresh_bool('with_rank')], cuts=('da1.build', 'da0.build', 'popcount#', 'bv.successor1#', 'ef.builder', 'ef.push_back'),
      loops=[LoopSpec(cnt_inv, lambda x: bv(1 << 60) - x('i')), LoopSpec(push_inv, lambda x: bv(1 << 60) - x('pos'))], opts=dict(after={'bv.successor1#': at_succ})),
    Contract('bv.get_word#', 'bv', 'h_bv_get_word', sp_get_word, lambda v: a_bv(v, 'pos'), CB + r'get_word\(unsigned long\) const', props=P, lemmas=(L_gb, L_bit, L_split)),
    K('enum.ctor', 'h_se_ctor', sp_se_ctor, lambda v: a_fb(v)[:1] and [Ptr(v.st.new_region('se', size=v.env.layout(TU).size(SEC)).rid)] + a_ef('i')(v), r'select_enumerator::select_enumerator\(succinct::elias_fano const&, unsigned long\)', cuts=('ue.ctor',)),
    K('enum.next', 'h_se_next', sp_se_next, a_se, r'select_enumerator::next\(\)', cuts=('ue.next', 'bv.get_word#'), opts=dict(after={'bv.get_word#': at_word, 'ue.next': at_high, 'da1.select': at_pos})),
]
EXTRA_OBLS = ef_obls