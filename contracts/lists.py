"""elias_fano_list, elias_fano_compressed_list (C08), on the Elias-Fano contracts."""
from contracts.theory import *
from contracts.ef import *
from contracts import ef as E
TU = 'lists'
FL, CL = 'succinct::elias_fano_list', 'succinct::elias_fano_compressed_list'
PSF = z3.Function('PS', A64, S64, S64)       # PS(X,0) = 0, PS(X,i+1) = PS(X,i) + X[i]
LSF = z3.Function('LS', A64, S64, S64)       # LS(X,0) = 0, LS(X,i+1) = LS(X,i) + msb(X[i]+1)
def ps_def(X, i): return And(PSF(X, bv(0)) == 0, PSF(X, i + 1) == PSF(X, i) + Select(X, i))
def theX(c):
    if c.mode == 'root' and 'X' not in c.st.ghost: c.st.ghost['X'] = fresh_arr('X', 64)
    return c.st.ghost['X']
def fl_inv(e, X):
    return [('elements', FA(lambda i: Implies(ULT(i, e.m), Select(X, i) == Select(e.V, i) - If(i == 0, bv(0), Select(e.V, i - 1))), sels(X), 'el')),
            ('sum', e.n == If(e.m == 0, bv(0), Select(e.V, e.m - 1)) + 1)]
def fl_pre(c):
    p = pofs(c.args[0], c.ex.env.layout(TU).off(FL, 'm_ef'))
    e = ef_pre(c, p, False); X = theX(c); pre_all(c, fl_inv(e, X))
    return e, X
def a_fl(*ex):
    def f(v):
        r = v.st.new_region('fl', size=v.env.layout(TU).size(FL)); mk_ef(v, r, v.env.layout(TU).off(FL, 'm_ef'))
        return [Ptr(r.rid)] + [fresh(x) for x in ex]
    return f
def sp_fl_at(c):
    e, X = fl_pre(c); i = c.a(1); c.pre('index in range', ULT(i, e.m))
    def post(c, r): c.post('the i-th integer', r == Select(X, i))
    return post
def sp_fl_size(c):
    e, X = fl_pre(c)
    def post(c, r): c.post('length', r == e.m)
    return post
def sp_fl_sum(c):
    e, X = fl_pre(c)
    def post(c, r): c.post('sum', r == If(e.m == 0, bv(0), Select(e.V, e.m - 1)))
    return post
# ---- construction
def a_ctor(cls, tu=TU):
    def f(v):
        o = v.st.new_region('out', size=v.env.layout(tu).size(cls))
        q = v.st.new_region('range', size=24); n = fresh('range_n'); a = v.st.new_array('range_data', 8, n); q.cells[0] = (24, Vec(n, a.rid, 8)); a.ro = True
        return [Ptr(o.rid), Ptr(q.rid)]
    return f
def apps(name, A):
    return lambda ix: [(t.arg(1),) for t in ix.app(name) if t.arg(0).eq(A)]
def src(c):
    v = c.st.mem[c.args[1].r].cells[0][1]; N = bv(v.size); X = c.st.mem[v.rid].arr
    c.st.ghost.update(X=X, N=N, xrid=v.rid, V=fresh_arr('V', 64), abs=True)
    c.pre('length', And(ULT(N, bv(MAXM - 1)), bv(c.st.mem[v.rid].ln) == N)); c.mod_objs.append(c.args[0])
    return X, N
def itpos(x):
    it = None
    for nm in ('iter.coerce', 'iter', 'iter7.coerce'):
        try: it = x(nm); break
        except BindError: pass
    if not isinstance(it, Ptr) or it.r != x.st.ghost['xrid']: 
        c = [v for v, w in x.phi.values() if isinstance(v, Ptr) and v.r == x.st.ghost['xrid']]
        if len(c) != 1: raise BindError('iter')
        it = c[0]
    if it.sc == 8 and it.off == 0: return bv(it.idx)
    if is_c(as_c(it.idx)) and it.off % 8 == 0: return bv(sgn(as_c(it.idx), 64) * it.sc // 8 + it.off // 8)
    raise BindError('iter position')
def sp_fl_ctor(c):
    X, N = src(c)
    c.pre('total fits', FA(lambda i: Implies(ULE(i, N), And(ULE(PSF(X, i), PSF(X, N)), ULT(PSF(X, N), bv(-1)), Implies(i != 0, UGE(PSF(X, i), PSF(X, i - 1))))), apps('PS', X), 'fit'))
    c.assume(ps_def(X, N))
    def post(c, r):
        V = c.st.ghost['V']; p = pofs(c.args[0], c.ex.env.layout(TU).off(FL, 'm_ef')); e = EF(c, p, V); c.st.ghost['e'] = e; o = c.st.ghost['b']
        counted(c, e, o)
        c.post('length', e.m == N); c.post('sum', e.n == PSF(X, N) + 1)
        i = fresh('i'); c.assume([ps_def(X, i), ps_def(X, i - 1)])
        c.post('elements', Implies(ULT(i, N), Select(X, i) == Select(V, i) - If(i == 0, bv(0), Select(V, i - 1))))
        c.post('last', Implies(N != 0, Select(V, N - 1) == PSF(X, N)))
        final(c, e, o, z3.BoolVal(False))
    return post
def left(x): return x.st.ghost['N'] - itpos(x)
def fl_sum(x):
    g = x.st.ghost; t = itpos(x); x.st.assume(ps_def(g['X'], t))
    return [('position', ULE(t, g['N'])), ('sum so far', And(x('s') == PSF(g['X'], t), x('n') == t))]
def fl_push(x):
    st = x.st; g = st.ghost; X, N = g['X'], g['N']; t = itpos(x); p = x.addr('ef_builder')
    st.assume(ps_def(X, t))
    if x.mode == 'assume': put_eb(x.ex.env, st, p); st.ghost['V'] = fresh_arr('V', 64)
    V = st.ghost['V']; b = EB(x.sc(), p, V)
    if x.mode == 'assume': st.ghost['b'] = b; st.assume([cn_def(b.H.A, b.H.size)])
    return [('progress', And(ULE(t, N), b.pos == t, b.n == PSF(X, N) + 1, b.mm == N, x('cur_base') == PSF(X, t), b.last == PSF(X, t))), ('prefix sums so far', FA(lambda k: Implies(ULT(k, t), Select(V, k) == PSF(X, k + 1)), sels(V), 'ps'))] + b.wf()
# ---------------------------------------------------------------- compressed list
MSB = z3.Function('MSB', S64, S64)
def msb_def(x): return Implies(x != 0, And(ULT(MSB(x), bv(64)), LShR(x, MSB(x)) == 1))
def ls_def(X, i): return And(LSF(X, bv(0)) == 0, LSF(X, i + 1) == LSF(X, i) + MSB(Select(X, i) + 1), msb_def(Select(X, i) + 1))
def code(A, X, i, at, l): return And(ULT(l, bv(64)), LShR(Select(X, i) + 1, l) == 1, GB(A, at, l) == lo(Select(X, i) + 1, l))
def cl_inv(e, b, X):
    return [('bits ' + a, f) for a, f in b.wf()] + [('code boundaries', And(e.m != 0, Select(e.V, 0) == 0, Select(e.V, e.m - 1) == b.size)),
            ('codes', FA(lambda i: Implies(ULT(i, e.m - 1), code(b.A, X, i, Select(e.V, i), Select(e.V, i + 1) - Select(e.V, i))), sels(X), 'code'))]
def cl_pre(c):
    L = c.ex.env.layout(TU)
    e = ef_pre(c, pofs(c.args[0], L.off(CL, 'm_ef')), False); X = theX(c); b = BV(c, pofs(c.args[0], L.off(CL, 'm_bits')), TU)
    pre_all(c, cl_inv(e, b, X))
    return e, b, X
def a_cl(*ex):
    def f(v):
        L = v.env.layout(TU); r = v.st.new_region('cl', size=L.size(CL)); mk_ef(v, r, L.off(CL, 'm_ef')); mk_bv(v, v.st, r, L.off(CL, 'm_bits'), TU, 'bits')
        return [Ptr(r.rid)] + [fresh(x) for x in ex]
    return f
def sp_cl_at(c):
    e, b, X = cl_pre(c); i = c.a(1); c.pre('index in range', ULT(i, e.m - 1))
    if c.mode == 'root': c.assume(fresh('x') == Select(X, i))
    def post(c, r): c.post('the i-th integer', r == Select(X, i))
    return post
def sp_cl_size(c):
    e, b, X = cl_pre(c)
    def post(c, r): c.post('length', r == e.m - 1)
    return post
def at_msb(c, r):
    x = bv(c.args[0]); c.assume(msb_def(x)); c.step('the top bit', z3.ZeroExt(56, bv(r, 8)) == MSB(x), lem=())
def sp_cl_ctor(c):
    X, N = src(c)
    c.pre('codable', FA(lambda i: Implies(ULT(i, N), Select(X, i) != bv(-1)), sels(X), 'cod'))
    # the code lengths add up: LS is monotone, at most 63 per integer (induction over LS(i+1) = LS(i) + MSB)
    c.assume(FA(lambda i: Implies(ULE(i, N), And(ULE(LSF(X, i), LSF(X, N)), ULE(LSF(X, i), i << 6), ULE(LSF(X, N), N << 6))), apps('LS', X), 'ls')); c.assume(LSF(X, bv(0)) == 0)
    c.assume(LSF(X, N) == LSF(X, N))
    def post(c, r):
        L = c.ex.env.layout(TU); V = c.st.ghost['V']; e = EF(c, pofs(c.args[0], L.off(CL, 'm_ef')), V); c.st.ghost['e'] = e; o = c.st.ghost['b']; b = BV(c, pofs(c.args[0], L.off(CL, 'm_bits')), TU)
        counted(c, e, o)
        c.post('length', e.m == N + 1)
        post_all(c, b.wf(), 'bits ')
        c.post('code boundaries', And(e.m != 0, Select(e.V, 0) == 0, Select(e.V, N) == b.size))
        i = fresh('i'); c.assume(ls_def(X, i)); c.post('codes', Implies(ULT(i, N), code(b.A, X, i, Select(V, i), Select(V, i + 1) - Select(V, i))))
        final(c, e, o, z3.BoolVal(False))
    return post
def cl_sum(x):
    g = x.st.ghost; t = itpos(x); x.st.assume([ls_def(g['X'], t)])
    return [('position', ULE(t, g['N'])), ('sum so far', And(x('s') == LSF(g['X'], t), x('n') == t))]
def cl_push(x):
    st = x.st; g = st.ghost; X, N = g['X'], g['N']; t = itpos(x); p, q = x.addr('ef_builder'), x.addr('bits_builder')
    st.assume(ls_def(X, t))
    if x.mode == 'assume': put_eb(x.ex.env, st, p); put_bb(x.ex.env, st, q, 'codes'); st.ghost['V'] = fresh_arr('V', 64)
    V = st.ghost['V']; b = EB(x.sc(), p, V); bb = BB(x.sc(), q)
    if x.mode == 'assume': st.ghost['b'] = b; st.assume([cn_def(b.H.A, b.H.size)])
    return [('progress', And(ULE(t, N), b.pos == t + 1, b.n == LSF(X, N) + 1, b.mm == N + 1, bb.size == LSF(X, t), b.last == LSF(X, t))), ('boundaries so far', FA(lambda k: Implies(ULE(k, t), Select(V, k) == LSF(X, k)), sels(V), 'bd')),
            ('codes so far', FA(lambda k: Implies(ULT(k, t), And(code(bb.A, X, k, LSF(X, k), MSB(Select(X, k) + 1)), ULE(LSF(X, k) + MSB(Select(X, k) + 1), bb.size))), sels(X), 'cd'))] + [('bits ' + a, f) for a, f in bb.wf()] + b.wf()
P = ('C08',)
def K(name, root, spec, args, cuts=(), **k):
    o = k.pop('opts', {}); o['ufmul'] = True
    return Contract(name, TU, root, spec, args, None, props=P, lemmas=ABS, cuts=cuts, opts=o, **k)
N_ = r'(?:bool |unsigned long |std::pair<unsigned long, unsigned long> )?succinct::elias_fano::'
CONTRACTS = [
    K('fl.at', 'h_fl_at', sp_fl_at, a_fl('i'), cuts=('ef.delta',)),
    K('fl.size', 'h_fl_size', sp_fl_size, a_fl()),
    K('fl.sum', 'h_fl_sum', sp_fl_sum, a_fl()),
    K('fl.ctor', 'h_fl_ctor', sp_fl_ctor, a_ctor(FL), cuts=('da1.build', 'da0.build', 'ef.builder', 'ef.push_back'), loops=[LoopSpec(fl_sum, left), LoopSpec(fl_push, left)]),
    K('cl.at', 'h_cl_at', sp_cl_at, a_cl('i'), cuts=('ef.select_range', 'ef.get_bits#')),
    K('cl.size', 'h_cl_size', sp_cl_size, a_cl()),
    K('cl.ctor', 'h_cl_ctor', sp_cl_ctor, a_ctor(CL), cuts=('da1.build', 'da0.build', 'ef.builder', 'ef.push_back', 'msb#', 'bb.append_bits#'), loops=[LoopSpec(cl_sum, left), LoopSpec(cl_push, left)], opts=dict(after={'msb#': at_msb})),
]
def list_obls():
    """the induction steps behind the stated monotonicity facts"""
    i, s, m, k = z3.BitVecs('i s m k', 64)
    return [('code lengths: s <= 64 i and m < 64 give s + m <= 64 (i + 1), no wrap', [ULT(i, bv(1 << 56)), ULE(s, i << 6), ULT(m, bv(64)), Not(And(ULE(s + m, (i + 1) << 6), ULE(s, s + m)))]),
            ('prefix sums: S(k) <= S(i) and no wrap at i give S(k) <= S(i + 1)', [ULE(k, s), Not(ULT(s + m, s)), Not(ULE(k, s + m))])]
EXTRA_OBLS = list_obls
