"""bit_vector_builder (C03): every operation against the abstract bit sequence."""
from contracts.theory import *
from contracts.bvec import getbits
TU = 'bv'
CLS = 'succinct::bit_vector_builder'
MAXB = 1 << 56

def mk_bb(v, st, name='bb', tu=TU):
    L = v.env.layout(tu)
    r = st.new_region(name, size=L.size(CLS))
    put_bb(v.env, st, Ptr(r.rid), name, tu)
    return Ptr(r.rid)
def put_bb(env, st, p, name='bb', tu=TU):
    L = env.layout(tu)
    n = fresh(name + '_nw'); sz = fresh(name + '_size')
    a = st.new_array(name + '_data', 8, n)
    poke(st, pofs(p, L.off(CLS, 'm_bits')), 24, Vec(n, a.rid, 8))
    poke(st, pofs(p, L.off(CLS, 'm_size')), 8, sz)
    poke(st, pofs(p, L.off(CLS, 'm_cur_word')), 8, Ptr(a.rid, 0, n - 1, 8))

class BB:
    def __init__(s, c, ptr, st=None, tu=TU):
        st = st or c.st; L = c.ex.env.layout(tu)
        v = peek(c.ex, st, pofs(ptr, L.off(CLS, 'm_bits')), 0)
        if not isinstance(v, Vec): raise Undecided('builder storage is not a std::vector value')
        s.v = v; s.nw = bv(v.size); s.A = st.mem[v.rid].arr; s.alive = st.mem[v.rid].alive
        s.size = peek(c.ex, st, pofs(ptr, L.off(CLS, 'm_size')))
        s.cur = st.mem[ptr.r].cells.get(ptr.off + L.off(CLS, 'm_cur_word'), (8, UNDEF))[1]
        s.rid = v.rid
    def padding(s): return PAD(s.A, s.size, s.nw)
    def wf(s):
        return [('size bound', ULT(s.size, bv(MAXB))), ('words = ceil(size/64)', s.nw == wfor(s.size)), ('padding is zero', s.padding()), ('current word pointer', s.curok())]
    def curok(s):
        c = s.cur
        if isinstance(c, Ptr) and c.r == s.rid:
            return Or(s.nw == 0, bv(binop('add', binop('mul', c.idx, c.sc, 64), c.off & MASK[64], 64)) == (s.nw - 1) << 3)
        return s.nw == 0

def mod_bb(c, ptr):
    """frame: the builder object itself"""
    L = c.ex.env.layout(TU)
    c.mod_objs.append(ptr)
    c.mod_arrs.append(BB(c, ptr).rid)
def begin_post(c, ptr, name='bb'):
    if c.mode == 'call':
        o = BB(c, ptr)
        r = c.st.wr(o.rid); r.alive = False
        put_bb(c.ex.env, c.st, ptr, name)
    return BB(c, ptr)

def seq_post(c, n, newsize, bit_of, olds):
    """n: new view; every bit i < newsize is bit_of(i)"""
    c.post('size', n.size == newsize)
    post_all(c, n.wf(), 'wf: ')
    c.post('contents', FA(lambda i: Implies(ULT(i, newsize), BIT(n.A, i) == bit_of(i)), bits_of(n.A, *olds), 'i'))

def a_bb(v, *ex):
    out = [mk_bb(v, v.st)]
    for x in ex: out.append(fresh_bool(x[:-1]) if x.endswith('?') else fresh(x))
    return out

def sp_push_back(c):
    o = BB(c, c.args[0]); b = bo(c.args[1])
    pre_all(c, o.wf()); c.pre('room', ULT(o.size, bv(MAXB - 1))); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size + 1, lambda i: If(i == o.size, b, BIT(o.A, i)), (o.A,))
    return post
def sp_append_bits(c):
    o = BB(c, c.args[0]); x, l = c.a(1), c.a(2)
    pre_all(c, o.wf()); c.pre('room', ULT(o.size, bv(MAXB - 64))); c.pre('len <= 64', ULE(l, bv(64)))
    c.pre('no spurious bits', Implies(ULT(l, bv(64)), LShR(x, l) == 0)); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size + l, lambda i: If(UGE(i, o.size), wbit(x, i - o.size), BIT(o.A, i)), (o.A,))
    return post
def sp_set(c):
    o = BB(c, c.args[0]); p = c.a(1); b = bo(c.args[2])
    pre_all(c, o.wf()); c.pre('pos < size', ULT(p, o.size)); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size, lambda i: If(i == p, b, BIT(o.A, i)), (o.A,))
    return post
def sp_set_bits(c):
    o = BB(c, c.args[0]); p, x, l = c.a(1), c.a(2), c.a(3)
    pre_all(c, o.wf()); c.pre('len <= 64', ULE(l, bv(64))); c.pre('in range', And(ULE(p, o.size), ULE(l, o.size - p)))
    c.pre('no spurious bits', Implies(ULT(l, bv(64)), LShR(x, l) == 0)); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size, lambda i: If(And(UGE(i, p), ULT(i - p, l)), wbit(x, i - p), BIT(o.A, i)), (o.A,))
    return post
def sp_zero_extend(c):
    o = BB(c, c.args[0]); k = c.a(1)
    pre_all(c, o.wf()); c.pre('room', And(ULT(k, bv(MAXB)), ULT(o.size + k, bv(MAXB)))); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size + k, lambda i: And(ULT(i, o.size), BIT(o.A, i)), (o.A,))
    return post
def sp_one_extend(c):
    o = BB(c, c.args[0]); k = c.a(1)
    pre_all(c, o.wf()); c.pre('room', And(ULT(k, bv(MAXB)), ULT(o.size + k, bv(MAXB - 64)))); mod_bb(c, c.args[0])
    c.st.ghost['o'] = o; c.st.ghost['k'] = k; c.st.ghost['p'] = c.args[0]
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size + k, lambda i: Or(UGE(i, o.size), BIT(o.A, i)), (o.A,))
    return post
class XC:
    """LoopCtx as a spec context"""
    def __init__(s, x): s.ex = x.ex; s.st = x.st
def loop_bb(x, ptr):
    """view of the builder at a loop head; in assume mode the havocked object is re-created in well-formed shape"""
    if x.mode == 'assume':
        put_bb(x.ex.env, x.st, ptr)
    return BB(XC(x), ptr)
def one_extend_inv(x):
    g = x.st.ghost; o, k = g['o'], g['k']
    b = loop_bb(x, g['p'])
    n = x('n')
    done = k - n
    return b.wf() + [('progress', And(ULE(n, k), b.size == o.size + done)),
            ('contents', FA(lambda i: Implies(ULT(i, b.size), BIT(b.A, i) == Or(UGE(i, o.size), BIT(o.A, i))), bits_of(b.A, o.A), 'i'))]
def sp_reserve(c):
    o = BB(c, c.args[0]); k = c.a(1)
    pre_all(c, o.wf()); c.pre('size', ULT(k, bv(MAXB))); mod_bb(c, c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size, lambda i: BIT(o.A, i), (o.A,))
    return post
def sp_size(c):
    o = BB(c, c.args[0])
    def post(c, r): c.post('size', r == o.size)
    return post
def a_ctor(v):
    L = v.env.layout(TU)
    r = v.st.new_region('bb', size=L.size(CLS))
    return [Ptr(r.rid), fresh('n'), fresh_bool('init')]
def sp_ctor(c):
    n, b = c.a(1), bo(c.args[2])
    c.pre('size', ULT(n, bv(MAXB)))
    c.mod_objs.append(c.args[0])
    def post(c, r):
        if c.mode == 'call': put_bb(c.ex.env, c.st, c.args[0])
        o = BB(c, c.args[0])
        seq_post(c, o, n, lambda i: b, ())
    return post
def sp_swap(c):
    x, y = BB(c, c.args[0]), BB(c, c.args[1])
    pre_all(c, x.wf(), 'a '); pre_all(c, y.wf(), 'b ')
    c.mod_objs.append(c.args[0]); c.mod_objs.append(c.args[1])
    def post(c, r):
        if c.mode == 'call': raise Undecided('builder swap in call mode')
        n, m = BB(c, c.args[0]), BB(c, c.args[1])
        seq_post(c, n, y.size, lambda i: BIT(y.A, i), (y.A,))
        seq_post(c, m, x.size, lambda i: BIT(x.A, i), (x.A,))
    return post
def sp_append(c):
    o, q = BB(c, c.args[0]), BB(c, c.args[1])
    pre_all(c, o.wf()); pre_all(c, q.wf(), 'rhs ')
    c.pre('room', ULT(o.size + q.size, bv(MAXB))); mod_bb(c, c.args[0])
    c.st.ghost.update(o=o, q=q, p=c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size + q.size, lambda i: If(ULT(i, o.size), BIT(o.A, i), BIT(q.A, i - o.size)), (o.A,))
    return post
def append_inv(x):
    g = x.st.ghost; o, q = g['o'], g['q']
    b = BB(XC(x), g['p'])       # storage identity is unchanged by the loop; its contents are havocked
    i = x('i'); cur = x('cur_word')
    s = o.size & 63
    k = cur.idx if cur.sc == 8 else None
    if k is None or cur.r != b.rid: raise BindError('cur_word')
    k = bv(k) + (cur.off // 8)
    W = lambda j: Select(q.A, j)
    return [('index', And(ULE(i, q.nw - 1), k == o.nw - 1 + i)),
            ('rest zero', FA(lambda j: Implies(And(UGT(j, k), ULT(j, b.nw)), Select(b.A, j) == 0), sels(b.A), 'z')),
            ('old words', FA(lambda j: Implies(And(ULT(j, o.nw), j != o.nw - 1), Select(b.A, j) == Select(o.A, j)), sels(b.A), 'old')),
            ('done words', FA(lambda j: Implies(And(UGE(j, o.nw - 1), ULT(j, k)),
                 Select(b.A, j) == (If(j + 1 == o.nw, Select(o.A, j), LShR(W(j - o.nw), 64 - s)) | (W(j + 1 - o.nw) << s))), sels(b.A), 'done')),
            ('current word', Select(b.A, k) == If(i == 0, Select(o.A, k), LShR(W(i - 1), 64 - s)))]
def sp_reverse(c):
    o = BB(c, c.args[0])
    pre_all(c, o.wf()); mod_bb(c, c.args[0])
    c.st.ghost.update(o=o, p=c.args[0])
    def post(c, r):
        n = begin_post(c, c.args[0])
        seq_post(c, n, o.size, lambda i: BIT(o.A, o.size - 1 - i), (o.A,))
    return post
def rev64(x): return z3.Concat(*[z3.Extract(i, i, x) for i in range(64)])
def reverse_inv(x):
    g = x.st.ghost; o = g['o']
    b = BB(XC(x), g['p'])
    i, rem = x('i'), x('remainder')
    s = o.size & 63            # shift = 64 - s
    prev = lambda j: If(j == 0, bv(0), LShR(Select(o.A, j - 1), s))
    newword = lambda j: If(s == 0, Select(o.A, j), prev(j) | (Select(o.A, j) << (64 - s)))
    return [('index', ULE(i, o.nw)), ('remainder', rem == If(s == 0, bv(0), prev(i))),
            ('done', FA(lambda j: Implies(ULT(j, i), Select(b.A, j) == rev64(newword(j))), sels(b.A), 'done')),
            ('rest', FA(lambda j: Implies(And(UGE(j, i), ULT(j, o.nw)), Select(b.A, j) == Select(o.A, j)), sels(b.A), 'rest'))]

P = ('C03',)
CB = r'(?:void |unsigned long )?succinct::bit_vector_builder::'
def K(name, root, spec, args, pat=None, **k):
    return Contract('bb.' + name, TU, root, spec, args, (CB + pat) if pat else None, props=P, lemmas=BASE, **k)
CONTRACTS = [
    K('ctor', 'h_bb_ctor', sp_ctor, a_ctor, r'bit_vector_builder\(unsigned long, bool\)'),
    K('size', 'h_bb_size', sp_size, lambda v: a_bb(v)),
    K('push_back', 'h_bb_push_back', sp_push_back, lambda v: a_bb(v, 'b?'), r'push_back\(bool\)'),
    K('append_bits', 'h_bb_append_bits', sp_append_bits, lambda v: a_bb(v, 'bits', 'len'), r'append_bits\(unsigned long, unsigned long\)'),
    K('set', 'h_bb_set', sp_set, lambda v: a_bb(v, 'pos', 'b?'), r'set\(unsigned long, bool\)'),
    K('set_bits', 'h_bb_set_bits', sp_set_bits, lambda v: a_bb(v, 'pos', 'bits', 'len'), r'set_bits\(unsigned long, unsigned long, unsigned long\)'),
    K('zero_extend', 'h_bb_zero_extend', sp_zero_extend, lambda v: a_bb(v, 'n'), r'zero_extend\(unsigned long\)'),
    K('one_extend', 'h_bb_one_extend', sp_one_extend, lambda v: a_bb(v, 'n'), r'one_extend\(unsigned long\)', cuts=('bb.append_bits',),
      loops=[LoopSpec(one_extend_inv, lambda x: x('n'))]),
    K('reserve', 'h_bb_reserve', sp_reserve, lambda v: a_bb(v, 'n'), r'reserve\(unsigned long\)'),
    K('swap', 'h_bb_swap', sp_swap, lambda v: [mk_bb(v, v.st, 'a'), mk_bb(v, v.st, 'b')], r'swap\(.*\)'),
    K('append', 'h_bb_append', sp_append, lambda v: [mk_bb(v, v.st, 'bb'), mk_bb(v, v.st, 'rhs')], r'append\(.*\)',
      loops=[LoopSpec(append_inv, lambda x: bv(1 << 60) - x('i'))], opts={'slow': True}),
    K('reverse', 'h_bb_reverse', sp_reverse, lambda v: a_bb(v), r'reverse\(\)', cuts=('reverse_bits',),
      loops=[LoopSpec(reverse_inv, lambda x: bv(1 << 60) - x('i'))], opts={'slow': True}),
]
