"""vbyte, signed folding, ceiling division, nibble_vector (C15)."""
from contracts.theory import *
TU = 'codec'
NV = 'succinct::nibble_vector'
def b8(x): return z3.Extract(7, 0, x)
def vsize_ok(r, v):
    """r is the number of 7-bit chunks of v (1 for v = 0)"""
    return And(UGE(r, bv(1)), ULE(r, bv(10)), *[Implies(r == k, And(LShR(v, 7 * k) == 0 if 7 * k < 64 else True, True if k == 1 else LShR(v, 7 * (k - 1)) != 0)) for k in range(1, 11)])
def chunk(v, c, k):
    """byte k of the c-byte code of v"""
    return b8((LShR(v, (c - 1 - k) * 7) & 0x7F) | If(c - 1 == k, bv(0), bv(0x80)))
def sp_vbyte_size(c):
    v = c.a(0)
    def post(c, r): c.post('number of 7-bit chunks', vsize_ok(r, v))
    return post
def vecp(c, p):
    v = c.st.mem[p.r].cells[p.off][1]
    c.pre('vector storage', And(ULT(bv(v.size), bv(1 << 50)), bv(c.st.mem[v.rid].ln) == bv(v.size)))
    return v, c.st.mem[v.rid].arr
def a_vec(v, es=1, name='vec'):
    q = v.st.new_region(name, size=24); n = fresh(name + '_n'); a = v.st.new_array(name + '_data', es, n)
    q.cells[0] = (24, Vec(n, a.rid, es)); return Ptr(q.rid)
def sp_append(c):
    v, A = vecp(c, c.args[0]); x = c.a(1); c.mod_objs.append(c.args[0])
    def post(c, r):
        w = c.st.mem[c.args[0].r].cells[0][1]; B = c.st.mem[w.rid].arr
        c.post('appended bytes = announced size', And(bv(w.size) == bv(v.size) + r, vsize_ok(r, x)))
        for k in range(10): c.post('byte %d of the code' % k, Implies(ULT(bv(k), r), Select(B, bv(v.size) + k) == chunk(x, r, bv(k))))
        c.post('earlier bytes unchanged', FA(lambda i: Implies(ULT(i, bv(v.size)), Select(B, i) == Select(A, i)), lambda ix: [], 'i'))
    return post
def code_at(A, off, x, n): return And(*[Implies(ULT(bv(k), n), Select(A, off + k) == chunk(x, n, bv(k))) for k in range(10)])
def sp_decode(mv):
    def sp(c):
        off = c.a(1); x = fresh('x'); n = fresh('n')
        if mv:
            m = MVV(c.ex, c.st, c.args[0], TU, 'unsigned char', 1); A, size = m.A, m.n
            c.pre('storage', And(ULT(size, bv(1 << 50)), bv(m.ln) == size))
        else: v, A = vecp(c, c.args[0]); size = bv(v.size)
        c.pre('a code of x lies at the offset', And(vsize_ok(n, x), ULE(n, size), ULE(off, size - n), code_at(A, off, x, n)))
        c.modifies(c.args[2], 8)
        def post(c, r):
            c.post('length of the code', r == n); c.post('the value', c.rd(c.args[2]) == x)
        return post
    return sp
def cellp(v):
    r = v.st.new_region('val', size=8); r.cells[0] = (8, fresh('val0')); return Ptr(r.rid)
def a_dec(mv):
    def f(v):
        if mv:
            r = v.st.new_region('mv', size=v.env.layout(TU).size(MV % 'unsigned char')); mk_mv(v, v.st, r, 0, TU, 'unsigned char', 1); p = Ptr(r.rid)
        else: p = a_vec(v)
        return [p, fresh('off'), cellp(v)]
    return f
def fold(x): return If(x < 0, (~x << 1) + 1, x << 1)     # 2x for x >= 0, -2x-1 for x < 0, modulo 2^64
def unfold(n): return If((n & 1) == 1, ~LShR(n, 1), LShR(n, 1))
def sp_int2nat(c):
    x = c.a(0)
    def post(c, r): c.post('zigzag', r == fold(x)); c.post('inverted by unfold', unfold(r) == x)
    return post
def sp_nat2int(c):
    n = c.a(0)
    def post(c, r): c.post('inverse zigzag', r == unfold(n)); c.post('inverted by fold', fold(r) == n)
    return post
def sp_ceil_div(w2):
    def sp(c):
        a, b = c.a(0), c.a(1, w2)
        if w2 == 32: c.pre('positive divisor', b > 0); b = z3.SignExt(32, b)
        c.pre('positive divisor, sum fits', And(b != 0, z3.BVAddNoOverflow(a, b - 1, False)))
        X = lambda t: z3.ZeroExt(64, t)
        def post(c, r): c.post('least r with r*divisor >= dividend', And(UGE(X(r) * X(b), X(a)), ULT(X(r) * X(b), X(a) + X(b))))
        return post
    return sp

# ---------------------------------------------------------------- nibble_vector
class NB:
    def __init__(s, c, ptr):
        L = c.ex.env.layout(TU)
        s.size = peek(c.ex, c.st, pofs(ptr, L.off(NV, 'm_size')))
        s.m = MVV(c.ex, c.st, pofs(ptr, L.off(NV, 'm_nibbles')), TU, 'unsigned char', 1); s.A = s.m.A
    def wf(s): return [('bytes = ceil(size/2)', And(ULT(s.size, bv(1 << 50)), s.m.n == LShR(s.size + 1, 1), UGE(bv(s.m.ln), s.m.n)))]
def nib(A, i): return LShR(Select(A, LShR(i, 1)), z3.Extract(7, 0, (i & 1) << 2)) & 15
def a_nib(v, *ex):
    L = v.env.layout(TU); r = v.st.new_region('nv', size=L.size(NV))
    r.cells[L.off(NV, 'm_size')] = (8, fresh('size')); mk_mv(v, v.st, r, L.off(NV, 'm_nibbles'), TU, 'unsigned char', 1)
    return [Ptr(r.rid)] + [fresh(x) for x in ex]
def sp_nib_at(c):
    b = NB(c, c.args[0]); i = c.a(1); pre_all(c, b.wf()); c.pre('in range', ULT(i, b.size))
    def post(c, r): c.post('nibble i', r == nib(b.A, i))
    return post
def sp_nib_size(c):
    b = NB(c, c.args[0])
    def post(c, r): c.post('size', r == b.size)
    return post
def sp_nib_ctor(c):
    v, A = vecp(c, c.args[1]); c.mod_objs.append(c.args[0])
    c.pre('values are nibbles', FA(lambda i: Implies(ULT(i, bv(v.size)), ULT(Select(A, i), z3.BitVecVal(16, 8))), lambda ix: [(t,) for t in ix.selects(A)], 'nib'))
    c.st.ghost.update(v=v, A=A, p=c.args[0])
    def post(c, r):
        b = NB(c, c.args[0]); c.post('size', b.size == bv(v.size)); post_all(c, b.wf())
        c.post('nibble i is input i', FA(lambda i: Implies(ULT(i, bv(v.size)), nib(b.A, i) == Select(A, i)), lambda ix: [], 'i'))
    return post
def nib_inv(x):
    g = x.st.ghost; v, A, p = g['v'], g['A'], g['p']
    L = x.ex.env.layout(TU)
    n = peek(x.ex, x.st, pofs(p, L.off(NV, 'm_size')))
    it, par, cur = x('iter'), x('parity'), x('cur_byte')
    nv = x('nibbles')
    if not isinstance(nv, Vec): raise BindError('nibbles')
    B = x.st.mem[nv.rid].arr
    i = bv(binop('add', binop('mul', it.idx, it.sc, 64), it.off & MASK[64], 64))
    odd = (n & 1) == 1
    b = lambda j: Select(A, j)
    return [('position', And(i == n, ULE(n, bv(v.size)))), ('same input', bool(it.r == v.rid)), ('parity', bo(par) == odd if par.sort() == z3.BoolSort() else par == If(odd, z3.BitVecVal(1, par.size()), z3.BitVecVal(0, par.size()))), ('bytes so far', bv(nv.size) == LShR(n, 1)),
            ('pending nibble', cur == If(odd, b(n - 1), z3.BitVecVal(0, 8))), ('storage', bv(x.st.mem[nv.rid].ln) == bv(nv.size)),
            ('packed', FA(lambda k: Implies(ULT(k, LShR(n, 1)), Select(B, k) == (b(k << 1) | (b((k << 1) + 1) << 4))), lambda ix: [(t,) for t in ix.selects(B)], 'pk'))]
def a_nib_ctor(v): return [Ptr(v.st.new_region('nv', size=v.env.layout(TU).size(NV)).rid), a_vec(v)]
def sp_nib_default(c):
    c.mod_objs.append(c.args[0])
    def post(c, r): b = NB(c, c.args[0]); c.post('empty', b.size == 0); post_all(c, b.wf())
    return post
def sp_nib_swap(c):
    a, b = NB(c, c.args[0]), NB(c, c.args[1]); pre_all(c, a.wf()); pre_all(c, b.wf()); c.mod_objs += [c.args[0], c.args[1]]
    def post(c, r):
        x, y = NB(c, c.args[0]), NB(c, c.args[1])
        for n, o in ((x, b), (y, a)): c.post('exchanged', And(n.size == o.size, bool(n.m.rid == o.m.rid), n.m.n == o.m.n))
    return post
P = ('C15',)
CONTRACTS = [
    Contract('vbyte_size', TU, 'h_vbyte_size', sp_vbyte_size, lambda v: [fresh('v')], r'(?:unsigned long )?succinct::vbyte_size\(unsigned long\)', props=P),
    Contract('append_vbyte', TU, 'h_append_vbyte', sp_append, lambda v: [a_vec(v), fresh('x')], props=P, cuts=('vbyte_size',)),
    Contract('decode_vbyte', TU, 'h_decode_vbyte', sp_decode(0), a_dec(0), props=P),
    Contract('decode_vbyte.mapped', TU, 'h_decode_vbyte_mv', sp_decode(1), a_dec(1), props=P),
    Contract('int2nat', TU, 'h_int2nat', sp_int2nat, lambda v: [fresh('x')], props=P),
    Contract('nat2int', TU, 'h_nat2int', sp_nat2int, lambda v: [fresh('n')], props=P),
    Contract('ceil_div', TU, 'h_ceil_div', sp_ceil_div(64), lambda v: [fresh('a'), fresh('b')], props=P),
    Contract('ceil_div.int', TU, 'h_ceil_div_int', sp_ceil_div(32), lambda v: [fresh('a'), fresh('b', 32)], props=P),
    Contract('nibble.ctor', TU, 'h_nib_ctor', sp_nib_ctor, a_nib_ctor, props=P, loops=[LoopSpec(nib_inv, lambda x: bv(1 << 51) - bv(binop('add', binop('mul', x('iter').idx, x('iter').sc, 64), x('iter').off & MASK[64], 64)))]),
    Contract('nibble.default', TU, 'h_nib_default', sp_nib_default, lambda v: a_nib_ctor(v)[:1], props=P),
    Contract('nibble.at', TU, 'h_nib_at', sp_nib_at, lambda v: a_nib(v, 'i'), props=P),
    Contract('nibble.size', TU, 'h_nib_size', sp_nib_size, lambda v: a_nib(v), props=P),
    Contract('nibble.swap', TU, 'h_nib_swap', sp_nib_swap, lambda v: [a_nib(v)[0], a_nib(v)[0]], props=P),
]
