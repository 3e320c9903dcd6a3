"""bit_vector construction: from a builder (storage stolen), from a range of booleans, default (C03)."""
from contracts.theory import *
from contracts.builder import BB, mk_bb
TU = 'bv'
BVC = 'succinct::bit_vector'
def new_bv(v): return Ptr(v.st.new_region('out', size=v.env.layout(TU).size(BVC)).rid)
def put_bv(c, p, name='bits', tu=TU):
    """call mode: a fresh bit_vector value at p"""
    L = c.ex.env.layout(tu); st = c.st
    t = MV % 'unsigned long'; n = fresh(name + '_n'); a = st.new_array(name, 8, n); a.ro = True
    b = pofs(p, L.off(BVC, 'm_bits'))
    poke(st, pofs(p, L.off(BVC, 'm_size')), 8, fresh(name + '_size'))
    poke(st, pofs(b, L.off(t, 'm_data')), 8, Ptr(a.rid)); poke(st, pofs(b, L.off(t, 'm_size')), 8, n); poke(st, pofs(b, L.off(t, 'm_deleter')), 32, Del())
def sp_from_builder(c):
    o = BB(c, c.args[1]); pre_all(c, o.wf()); c.mod_objs += [c.args[0], c.args[1]]; c.mod_arrs.append(o.rid)
    def post(c, r):
        if c.mode == 'call': raise Undecided('bit_vector(builder) is not used as a summary')
        n = BV(c, c.args[0], TU)
        c.post('size', n.size == o.size); post_all(c, n.wf(), 'wf: ')
        c.post('contents', FA(lambda i: Implies(ULT(i, o.size), BIT(n.A, i) == BIT(o.A, i)), bits_of(n.A, o.A), 'i'))
        e = BB(c, c.args[1]); c.post('the builder gave its storage away', e.nw == 0)
    return post
def a_range(v):
    q = v.st.new_region('range', size=24); n = fresh('range_n'); a = v.st.new_array('range_data', 1, n); q.cells[0] = (24, Vec(n, a.rid, 1)); a.ro = True
    return [new_bv(v), Ptr(q.rid)]
def sp_from_range(c):
    v = c.st.mem[c.args[1].r].cells[0][1]; n = bv(v.size); src = c.st.mem[v.rid].arr
    c.pre('size', And(ULT(n, bv(1 << 56)), bv(c.st.mem[v.rid].ln) == n)); c.mod_objs.append(c.args[0])
    c.st.ghost.update(src=src, n=n, rid=v.rid, p=c.args[0])
    def post(c, r):
        b = BV(c, c.args[0], TU)
        c.post('size', b.size == n); post_all(c, b.wf(), 'wf: ')
        c.post('contents', FA(lambda i: Implies(ULT(i, n), BIT(b.A, i) == (Select(src, i) != 0)), bits_of(b.A), 'i'))
    return post
def range_inv(x):
    st = x.st; g = st.ghost; it = None
    for nm in ('iter.coerce', 'iter'):
        try: it = x(nm); break
        except BindError: pass
    if not isinstance(it, Ptr) or it.r != g['rid']: raise BindError('iter')
    t = bv(it.idx) + it.off if it.sc == 1 else None
    b, mask, cur = x('bits'), x('mask'), x('cur_val')
    L = x.ex.env.layout(TU); ms = bv(peek(x.ex, st, pofs(g['p'], L.off(BVC, 'm_size'))))
    A = st.mem[b.rid].arr; full = t & ~bv(63)
    return [('position', ULE(t, g['n'])), ('counted', ms == t), ('mask', mask == bv(1) << (t & 63)), ('words', And(bv(b.size) == LShR(t, 6), bv(st.mem[b.rid].ln) == bv(b.size))),
            ('nothing above the mask', LShR(cur, t & 63) == 0),
            ('bits so far', FA(lambda i: Implies(ULT(i, t), (If(ULT(i, full), BIT(A, i), wbit(cur, i & 63))) == (Select(g['src'], i) != 0)), lambda ix: sels(g['src'])(ix) + bits_of(A)(ix), 'i'))]
def sp_default(c):
    c.mod_objs.append(c.args[0])
    def post(c, r):
        b = BV(c, c.args[0], TU); c.post('empty', And(b.size == 0, b.nw == 0)); post_all(c, b.wf(), 'wf: ')
    return post
P = ('C03',)
CONTRACTS = [
    Contract('bv.from_builder', TU, 'h_bv_from_builder', sp_from_builder, lambda v: [new_bv(v), mk_bb(v, v.st)], props=P, lemmas=BASE),
    Contract('bv.from_range', TU, 'h_bv_from_range', sp_from_range, a_range, props=P, lemmas=BASE, loops=[LoopSpec(range_inv)]),
    Contract('bv.default', TU, 'h_bv_default', sp_default, lambda v: [new_bv(v)], props=P, lemmas=BASE),
]
