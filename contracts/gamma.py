"""gamma_vector, gamma_bit_vector and their forward enumerators (C09), on the darray64, bit vector and enumerator contracts.
The i-th code starts at V[i] in the low bits and its unary part at P(i) in the high bits; X[i]+inc has its top bit at V[i+1]-V[i]."""
from contracts.theory import *
from contracts import da64
from contracts.da64 import D64, B64, mk_d64, put_b64, cns_of
from contracts.da64 import shr as shr1
from contracts.ef import lo, EF
from contracts.builder import BB, put_bb
from contracts.enums import EN, UN, EC, UC
from contracts.lists import MSB, msb_def, itpos, left, a_ctor
TU = 'gamma'
MAXN = 1 << 48
class G:
    """the two vectors: inc is added to the integer before coding, sep: the separate stop bit counts into the low position"""
    def __init__(s, cls, bit): s.cls, s.bit, s.inc = cls, bit, 2 if bit else 1; s.fe = 'succinct::forward_enumerator<%s>' % cls.split('::')[1]
GV, GBV = G('succinct::gamma_vector', 0), G('succinct::gamma_bit_vector', 1)
class VW:
    def __init__(s, c, p, g, V, X):
        L = c.ex.env.layout(TU); s.g, s.V, s.X = g, V, X
        s.d = D64(c, pofs(p, L.off(g.cls, 'm_high_bits')), TU); s.low = BV(c, pofs(p, L.off(g.cls, 'm_low_bits')), TU)
        s.H = s.d.b; s.N = s.d.n - 1
    def P(s, i): return Select(s.V, i) if s.g.bit else Select(s.V, i) + i
    def pos(s, i): return And(ULT(s.P(i), s.H.size), BIT(s.H.A, s.P(i)), CN(s.H.A, s.P(i)) == i)
    def code(s, A, i, l):
        x = Select(s.X, i) + s.g.inc
        return And(ULT(l, bv(64)), ULE(bv(s.g.bit), l), LShR(x, l) == 1, GB(A, Select(s.V, i), l) == lo(x, l))
    def wf(s):
        V = s.V
        return [('high ' + a, f) for a, f in s.d.wf(shr1(s.d.B.A, 10))] + [('low ' + a, f) for a, f in s.low.wf()] + [('ones', And(s.d.n != 0, s.d.n == CN(s.H.A, s.H.size), ULT(s.N, bv(MAXN)))),
            ('code positions', FA(lambda i: Implies(ULE(i, s.N), And(s.pos(i), ULE(Select(V, i), s.low.size))), sels(V), 'cp')),
            ('codes', FA(lambda i: Implies(ULT(i, s.N), And(s.code(s.low.A, i, Select(V, i + 1) - Select(V, i)), s.pos(i + 1), ULE(Select(V, i + 1), s.low.size))), sels(s.X), 'code'))]
def mk(v, g):
    L = v.env.layout(TU); r = v.st.new_region('g', size=L.size(g.cls))
    mk_d64(v, r, L.off(g.cls, 'm_high_bits'), TU); mk_bv(v, v.st, r, L.off(g.cls, 'm_low_bits'), TU, 'low')
    return Ptr(r.rid)
def view(c, p, g):
    gh = c.st.ghost
    if c.mode == 'root': gh.update(V=fresh_arr('V', 64), X=fresh_arr('X', 64), abs=True)
    w = VW(c, p, g, gh['V'], gh['X'])
    if c.mode == 'root': c.assume([cn_def(w.H.A, w.H.size)])
    pre_all(c, w.wf()); gh['g'] = w
    return w
def sp_at(g):
    def sp(c):
        w = view(c, c.args[0], g); i = c.a(1); c.pre('index in range', ULT(i, w.N)); c.st.ghost['i'] = i
        if c.mode == 'root': c.assume([fresh('x') == Select(w.X, i), fresh('v') == Select(w.V, i)])
        def post(c, r): c.post('the i-th integer', r == Select(w.X, i))
        return post
    return sp
def same_one(c, w, p, i, name):
    """the only one with i ones before it is the i-th"""
    c.assume([cn_pair(w.H.A, p, w.P(i)), cn_pair(w.H.A, w.P(i), p)])
    c.step(name, p == w.P(i))
def at_sel(c, r):
    w, i = c.st.ghost['g'], c.st.ghost['i']; same_one(c, w, r, i, 'position of the code')
def at_word(c, r): 
    w, i = c.st.ghost['g'], c.st.ghost['i']; c.assume(c.st.ghost['wbit'](w.P(i + 1) - w.P(i) - 1)); c.step('the stop bit is in the word', And(ULT(w.P(i), w.P(i + 1)), ULT(w.P(i + 1) - w.P(i) - 1, bv(64)), wbit(r, w.P(i + 1) - w.P(i) - 1)))
def at_lsb(c, r):
    gh = c.st.ghost; w, i = gh['g'], gh['i']; l = z3.ZeroExt(56, bv(r, 8)); q = w.P(i) + 1 + l; d = w.P(i + 1) - w.P(i) - 1
    c.assume(gh['wbit'](l)); c.step('not after the stop bit', ULE(l, d), lem=()); c.assume([cn_pair(w.H.A, w.P(i), q), cn_pair(w.H.A, q, w.P(i + 1))])
    c.step('length of the code', l == d)
def sp_size(g):
    def sp(c):
        w = view(c, c.args[0], g)
        def post(c, r): c.post('length', r == w.N)
        return post
    return sp
# ---------------------------------------------------------------- forward enumerator
class FE:
    def __init__(s, c, p, w):
        L = c.ex.env.layout(TU); o = lambda f: pofs(p, L.off(w.g.fe, f)); s.w, s.p = w, p
        s.idx, s.pos = c.rd(o('m_idx')), c.rd(o('m_pos')); s.gp = c.rd(o('m_c')); s.up, s.ep = o('m_high_bits_enumerator'), o('m_low_bits_enumerator')
        d = peek(c.ex, c.st, pofs(s.up, L.off(UC, 'm_data')), 0)
        s.u = UN(c, s.up, tu=TU) if isinstance(d, Ptr) and d.r is not None else None
        if s.u is not None: s.e = EN(c, s.ep, tu=TU)
    def inv(s):
        w = s.w
        if s.u is None: return [('at the end', s.idx == w.N)]
        return [('index', And(ULE(s.idx, w.N), s.pos == w.P(s.idx)))] + [('high ' + a, f) for a, f in s.u.inv()] + [('over the high bits', bool(s.u.data.r == w.H.rid)), ('ones before', s.u.before == s.idx + 1)] + \
               [('low ' + a, f) for a, f in s.e.inv()] + [('over the low bits', bool(s.e.b.rid == w.low.rid)), ('low position', s.e.pos == Select(w.V, s.idx))]
def put_fe(env, st, p, g, gp=None):
    """fresh contents; gp: also the pointers"""
    L = env.layout(TU); o = lambda f: pofs(p, L.off(g.fe, f))
    u, e = o('m_high_bits_enumerator'), o('m_low_bits_enumerator')
    poke(st, o('m_idx'), 8, fresh('idx')); poke(st, o('m_pos'), 8, fresh('pos'))
    for f in ('m_position', 'm_buf'): poke(st, pofs(u, L.off(UC, f)), 8, fresh(f))
    for f in ('m_pos', 'm_buf', 'm_avail'): poke(st, pofs(e, L.off(EC, f)), 8, fresh(f))
    if gp is None: return
    bits = lambda f: pofs(gp, L.off(g.cls, f))
    hb = pofs(bits('m_high_bits'), L.off(da64.D, 'm_bits')); data = st.mem[hb.r].cells[hb.off + L.off('succinct::bit_vector', 'm_bits') + L.off(MV % 'unsigned long', 'm_data')][1]
    poke(st, o('m_c'), 8, gp); poke(st, pofs(u, L.off(UC, 'm_data')), 8, data); poke(st, pofs(e, L.off(EC, 'm_bv')), 8, bits('m_low_bits'))
def a_fe(g, *ex):
    def f(v):
        gp = mk(v, g); r = v.st.new_region('fe', size=v.env.layout(TU).size(g.fe)); put_fe(v.env, v.st, Ptr(r.rid), g, gp)
        return [Ptr(r.rid)] + [fresh(x) for x in ex]
    return f
def raw(v, g): return Ptr(v.st.new_region('fe', size=v.env.layout(TU).size(g.fe)).rid)
def ones_total(c, b, m):
    q = LShR(b.size, 6); k = b.size & 63
    c.assume([rw_step(b.A, q), pc_split(Select(b.A, q), k), PC(bv(0)) == 0])
    c.derive('ones in the words', RW(b.A, b.nw) == m)
def sp_fe_ctor(g):
    def sp(c):
        w = view(c, c.args[1], g); i = c.a(2); c.pre('start', ULE(i, w.N)); c.mod_objs.append(c.args[0]); c.st.ghost['i'] = i
        if c.mode == 'root': c.assume([cn_def(w.H.A, w.P(i) + 1), fresh('x') == Select(w.X, i), fresh('p') == CN(w.H.A, w.P(i) + 1)])
        def post(c, r):
            if c.mode == 'call': raise Undecided('enumerator construction is not used as a summary')
            f = FE(c, c.args[0], w)
            c.post('at the start', And(f.idx == i, bool(f.gp.r == c.args[1].r))); post_all(c, f.inv())
        return post
    return sp
def sp_fe_next(g):
    def sp(c):
        L = c.ex.env.layout(TU); gp = c.rd(pofs(c.args[0], L.off(g.fe, 'm_c')))
        if c.mode == 'root': w = view(c, gp, g)
        else: w = VW(c, gp, g, c.st.ghost['V'], c.st.ghost['X']); pre_all(c, w.wf())
        f = FE(c, c.args[0], w); c.mod_objs.append(c.args[0]); c.pre('not at the end', ULT(f.idx, w.N)); pre_all(c, f.inv())
        if c.mode == 'root':
            ones_total(c, w.H, w.N + 1); c.st.ghost.update(i=f.idx, f=f)
            c.assume([fresh('x') == Select(w.X, f.idx), fresh('p') == w.P(f.idx + 1), fresh('p') == w.P(f.idx)])
        def post(c, r):
            if c.mode == 'call': put_fe(c.ex.env, c.st, c.args[0], g)
            n = FE(c, c.args[0], w)
            c.post('the current integer', r == Select(w.X, f.idx)); c.post('moved on', And(n.idx == f.idx + 1, bool(n.gp.r == gp.r and n.gp.off == gp.off))); post_all(c, n.inv())
        return post
    return sp
def at_high(c, r):
    gh = c.st.ghost
    if 'f' not in gh: return
    w, i = gh['g'], gh['i']
    c.assume([cn_def(w.H.A, r), BIT(w.H.A, r) == bitx(w.H.A, r)])
    c.step('a one of rank i+1', And(BIT(w.H.A, r), CN(w.H.A, r) == i + 1, ULT(r, bv(1 << 57))))
    same_one(c, w, r, i + 1, 'position of the stop bit')
def sp_fe_skip(g):
    def sp(c):
        L = c.ex.env.layout(TU); gp = c.rd(pofs(c.args[0], L.off(g.fe, 'm_c'))); w = view(c, gp, g); k = c.a(1)
        f = FE(c, c.args[0], w); c.mod_objs.append(c.args[0]); c.pre('in range', ULE(k, w.N - f.idx)); pre_all(c, f.inv()); c.st.ghost.update(f0=f, k=k, gp=gp, fp=c.args[0])
        def post(c, r):
            n = FE(c, c.args[0], w); c.post('skipped k', And(n.idx == f.idx + k, bool(n.gp.r == gp.r and n.gp.off == gp.off))); post_all(c, n.inv())
        return post
    return sp
def skip_inv(g):
    def inv(x):
        gh = x.st.ghost; f0, w = gh['f0'], gh['g']
        if x.mode == 'assume': put_fe(x.ex.env, x.st, gh['fp'], g)
        n = FE(x.sc(), gh['fp'], w); k = x('k')
        return [('progress', And(ULE(k, gh['k']), n.idx == f0.idx + (gh['k'] - k), bool(n.gp.r == gh['gp'].r and n.gp.off == gh['gp'].off)))] + n.inv()
    return inv
# ---------------------------------------------------------------- construction
def v_def(g, V, X, i): return And(Select(V, bv(0)) == 0, Select(V, i + 1) == Select(V, i) + MSB(Select(X, i) + g.inc), msb_def(Select(X, i) + g.inc))
def at_msb(c, r):
    c.st.ghost['f0'] = list(c.st.facts)
    x = bv(c.args[0]); c.assume(msb_def(x)); c.step('the top bit', z3.ZeroExt(56, bv(r, 8)) == MSB(x), lem=())
def at_append(g):
    def f(c, r):
        gh = c.st.ghost
        if 'cur' not in gh: return
        t, o = gh['cur']; V = gh['V']; b = B64(c, c.args[0]); A = b.bb.A
        fs = [f for f in c.st.facts if f.name in ('cp', 'i', 'cn', 'ls')]
        pc = [p for p in c.st.pc if len(str(p)) < 300]
        P = lambda i: Select(V, i) if g.bit else Select(V, i) + i
        c.step('earlier positions', FA(lambda k: Implies(ULE(k, t), And(ULE(Select(V, k), Select(V, t)), ULT(P(k), b.bb.size), BIT(A, P(k)), CN(A, P(k)) == k)), sels(V), 'ep'), using=pc + fs)
        c.step('the new position', And(P(t + 1) + 1 == b.bb.size, BIT(A, P(t + 1)), CN(A, P(t + 1)) == t + 1))
        old = gh['f0']; c.st.facts = [f for f in c.st.facts if not (f.name in ('i', 'good', 'cn', 'cp') and any(f is h for h in old))]
    return f
def sp_ctor(g):
    def sp(c):
        v = c.st.mem[c.args[1].r].cells[0][1]; N = bv(v.size); X = c.st.mem[v.rid].arr; V = fresh_arr('V', 64)
        c.st.ghost.update(X=X, N=N, xrid=v.rid, V=V, abs=True)
        c.pre('length', And(ULT(N, bv(MAXN)), bv(c.st.mem[v.rid].ln) == N)); c.mod_objs.append(c.args[0])
        c.pre('codable', FA(lambda i: Implies(ULT(i, N), ULT(Select(X, i), bv(-g.inc))), sels(X), 'cod'))
        # V: the sum of the code lengths before i; at most 63 per integer (induction over V[i+1] = V[i] + MSB)
        c.assume(FA(lambda i: Implies(ULE(i, N), And(ULE(Select(V, i), Select(V, N)), ULE(Select(V, i), i << 6), ULE(Select(V, N), N << 6))), sels(V), 'ls'))
        c.assume([Select(V, bv(0)) == 0, Select(V, N) == Select(V, N)])
        def post(c, r):
            w = VW(c, c.args[0], g, V, X); o, lb = c.st.ghost['hb'], c.st.ghost['lb']
            c.assume([cn_def(w.H.A, w.H.size), cn_def(o.bb.A, o.bb.size)])
            c.post('length', w.N == N)
            i = fresh('i'); c.assume(v_def(g, V, X, i))
            for n, f in w.wf():
                if n not in ('codes',): c.post(n, f)
            c.post('codes', Implies(ULT(i, N), And(w.code(w.low.A, i, Select(V, i + 1) - Select(V, i)), w.pos(i + 1), ULE(Select(V, i + 1), w.low.size))))
        return post
    return sp
def ctor_inv(g):
    def inv(x):
        st = x.st; gh = st.ghost; X, N, V = gh['X'], gh['N'], gh['V']; t = itpos(x); p, q = x.addr('high_bits'), x.addr('low_bits')
        st.assume(v_def(g, V, X, t))
        if x.mode == 'assume': put_b64(x.ex.env, st, p); put_bb(x.ex.env, st, q, 'low')
        b = B64(x.sc(), p); lb = BB(x.sc(), q); A = b.bb.A
        if x.mode == 'assume': gh['hb'] = b; gh['lb'] = lb; gh['cur'] = (t, b)
        P = lambda i: Select(V, i) if g.bit else Select(V, i) + i
        pos = lambda i: And(ULT(P(i), b.bb.size), BIT(A, P(i)), CN(A, P(i)) == i)
        code = lambda i, l: And(ULT(l, bv(64)), ULE(bv(g.bit), l), LShR(Select(X, i) + g.inc, l) == 1, GB(lb.A, Select(V, i), l) == lo(Select(X, i) + g.inc, l))
        return [('progress', And(ULE(t, N), b.n == t + 1, lb.size == Select(V, t), b.bb.size == P(t) + 1)), ('code positions so far', FA(lambda k: Implies(ULE(k, t), And(pos(k), ULE(Select(V, k), lb.size))), sels(V), 'cp')),
                ('codes so far', FA(lambda k: Implies(ULT(k, t), And(code(k, MSB(Select(X, k) + g.inc)), ULE(Select(V, k) + MSB(Select(X, k) + g.inc), lb.size))), sels(X), 'cd'))] + [('low ' + a, f) for a, f in lb.wf()] + [('high ' + a, f) for a, f in b.wf(shr1(b.i.B, 10))]
    return inv
P_ = ('C09',)
def K(name, root, spec, args, pat=None, cuts=(), **k):
    o = k.pop('opts', {}); o['feas_ms'] = 300
    return Contract(name, TU, root, spec, args, pat, props=P_, lemmas=(L_cn, L_gb0), cuts=cuts, opts=o, **k)
AT = dict(cuts=('d64.select', 'ef.at#', 'bv.get_word#', 'lsb#', 'ef.get_bits#'), opts=dict(after={'d64.select': at_sel, 'bv.get_word#': at_word, 'lsb#': at_lsb}))
CT = dict(cuts=('d64.select', 'ue.ctor', 'en.ctor'), opts=dict(after={'d64.select': at_sel}))
NX = dict(cuts=('ue.next', 'en.take#'), opts=dict(after={'ue.next': at_high}))
NEW = lambda g: dict(cuts=('d64.builder', 'd64.append1', 'bb.append_bits#', 'msb#'), opts=dict(after={'msb#': at_msb, 'd64.append1': at_append(g)}))
FN = r'(?:unsigned long )?succinct::forward_enumerator<succinct::gamma_%svector>::next\(\)'
CONTRACTS = [
    K('gv.at', 'h_gv_at', sp_at(GV), lambda v: [mk(v, GV), fresh('i')], **AT),
    K('gv.size', 'h_gv_size', sp_size(GV), lambda v: [mk(v, GV)]),
    K('gb.at', 'h_gb_at', sp_at(GBV), lambda v: [mk(v, GBV), fresh('i')], **AT),
    K('gb.size', 'h_gb_size', sp_size(GBV), lambda v: [mk(v, GBV)]),
    K('fv.ctor', 'h_fv_ctor', sp_fe_ctor(GV), lambda v: [raw(v, GV), mk(v, GV), fresh('i')], **CT),
    K('fv.next', 'h_fv_next', sp_fe_next(GV), a_fe(GV), **NX),
    K('fb.ctor', 'h_fb_ctor', sp_fe_ctor(GBV), lambda v: [raw(v, GBV), mk(v, GBV), fresh('i')], **CT),
    K('fb.next', 'h_fb_next', sp_fe_next(GBV), a_fe(GBV), FN % 'bit_', **NX),
    K('fb.skip', 'h_fb_skip', sp_fe_skip(GBV), a_fe(GBV, 'k'), cuts=('fb.next',), loops=[LoopSpec(skip_inv(GBV), lambda x: x('k'))]),
    K('gv.ctor', 'h_gv_ctor', sp_ctor(GV), a_ctor(GV.cls, TU), loops=[LoopSpec(ctor_inv(GV), left)], **NEW(GV)),
    K('gb.ctor', 'h_gb_ctor', sp_ctor(GBV), a_ctor(GBV.cls, TU), loops=[LoopSpec(ctor_inv(GBV), left)], **NEW(GBV)),
]

from contracts.lists import list_obls
EXTRA_OBLS = list_obls
