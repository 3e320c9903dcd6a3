"""bit_vector reads (C02)."""
from contracts.theory import *
TU = 'bv'

def a_bv(v, *extra):
    L = v.env.layout(TU)
    r = v.st.new_region('bv', size=L.size('succinct::bit_vector'))
    mk_bv(v, v.st, r, 0, TU)
    return [Ptr(r.rid)] + [fresh(x) for x in extra]

def sp_at(c):
    b = BV(c, c.args[0], TU); p = c.a(1)
    pre_all(c, b.wf()); c.pre('pos < size', ULT(p, b.size))
    def post(c, r): c.post('is bit pos', bo(r) == bitx(b.A, p))
    return post
def sp_size(c):
    b = BV(c, c.args[0], TU)
    def post(c, r): c.post('size', r == b.size)
    return post
def getbits(A, p, l):
    """bits [p,p+l) of A as an integer, 0<=l<=64"""
    w, s = LShR(p, 6), p & 63
    full = LShR(Select(A, w), s) | If(s == 0, bv(0), Select(A, w + 1) << (64 - s))
    one = LShR(Select(A, w), s)
    x = If(ULE(s + l, bv(64)), one, full)
    return If(l == 64, x, x & lowm(l))
def sp_get_bits(c):
    b = BV(c, c.args[0], TU); p, l = c.a(1), c.a(2)
    pre_all(c, b.wf()); c.pre('len <= 64', ULE(l, bv(64))); c.pre('in range', And(ULE(p, b.size), ULE(l, b.size - p)))
    def post(c, r):
        c.post('value', r == getbits(b.A, p, l))
        c.post('bit j is bit pos+j', FA(lambda j: Implies(ULT(j, bv(64)), wbit(r, j) == And(ULT(j, l), bitx(b.A, p + j))), lambda ix: [], 'bitwise'))
    return post
def sp_get_word(c):
    b = BV(c, c.args[0], TU); p = c.a(1)
    pre_all(c, b.wf()); c.pre('pos < size', ULT(p, b.size))
    def post(c, r):
        c.post('bit j is bit pos+j, 0 past the end', FA(lambda j: Implies(ULT(j, bv(64)), wbit(r, j) == And(ULT(p + j, b.size), bitx(b.A, p + j))), lambda ix: [], 'bitwise'))
    return post
def sp_get_word56(c):
    b = BV(c, c.args[0], TU); p = c.a(1)
    pre_all(c, b.wf()); c.pre('in range', And(ULT(p, b.size), ULE(LShR(p, 3) + 8, b.nw << 3)))
    def post(c, r):
        c.post('the 56 low bits are bits pos..pos+55', FA(lambda j: Implies(And(ULT(j, bv(56)), ULT(p + j, b.nw << 6)), wbit(r, j) == bitx(b.A, p + j)), lambda ix: [], 'bitwise'))
    return post

def search(one, fwd):
    def sp(c):
        b = BV(c, c.args[0], TU); p = c.a(1)
        pre_all(c, b.wf()); c.pre('pos < size', ULT(p, b.size))
        w = fresh('witness')
        want = (lambda i: bitx(b.A, i)) if one else (lambda i: Not(bitx(b.A, i)))
        c.pre('one exists', And(ULT(w, b.size), want(w), UGE(w, p) if fwd else ULE(w, p)))
        c.st.ghost['w'] = w; c.st.ghost['pos'] = p; c.st.ghost['b'] = b; c.st.ghost['want'] = want
        def post(c, r):
            c.post('found', want(r))
            c.post('side', And(UGE(r, p), ULE(r, w)) if fwd else And(ULE(r, p), UGE(r, w)))
            c.post('nearest', FA(lambda j: Implies(And(ULE(p, j), ULT(j, r)) if fwd else And(ULT(r, j), ULE(j, p)), Not(want(j))), lambda ix: [], 'near'))
        return post
    return sp
def search_loop(one, fwd):
    def inv(x):
        g = x.st.ghost; b, p, w, want = g['b'], g['pos'], g['w'], g['want']
        blk, word = x('block'), x('word')
        W = lambda i: Select(b.A, i) if one else ~Select(b.A, i)
        pb, ps = LShR(p, 6), p & 63
        first = (LShR(W(pb), ps) << ps) if fwd else LShR(W(pb) << (63 - ps), 63 - ps)
        rng = lambda j: And(ULE(p, j), ULT(j, blk << 6)) if fwd else And(UGE(j, (blk + 1) << 6), ULE(j, p))
        return [('range', And(UGE(blk, pb), ULE(blk, LShR(w, 6))) if fwd else And(ULE(blk, pb), UGE(blk, LShR(w, 6)))),
                ('word', word == If(blk == pb, first, W(blk))),
                ('nothing before', FA(lambda j: Implies(rng(j), Not(want(j))), lambda ix: [], 'scan'))]
    def dec(x): return (bv(1 << 60) - x('block')) if fwd else x('block')
    return LoopSpec(inv, dec)

P = ('C02',)
CB = r'(?:bool |unsigned long )?succinct::bit_vector::'
CONTRACTS = [
    Contract('bv.at', TU, 'h_bv_at', sp_at, lambda v: a_bv(v, 'pos'), CB + r'operator\[\]\(unsigned long\) const', props=P, lemmas=BASE),
    Contract('bv.size', TU, 'h_bv_size', sp_size, lambda v: a_bv(v), props=P, lemmas=BASE),
    Contract('bv.get_bits', TU, 'h_bv_get_bits', sp_get_bits, lambda v: a_bv(v, 'pos', 'len'), CB + r'get_bits\(unsigned long, unsigned long\) const', props=P, lemmas=BASE),
    Contract('bv.get_word', TU, 'h_bv_get_word', sp_get_word, lambda v: a_bv(v, 'pos'), CB + r'get_word\(unsigned long\) const', props=P, lemmas=BASE),
    Contract('bv.get_word56', TU, 'h_bv_get_word56', sp_get_word56, lambda v: a_bv(v, 'pos'), props=P, lemmas=BASE),
    Contract('bv.successor1', TU, 'h_bv_succ1', search(1, 1), lambda v: a_bv(v, 'pos'), loops=[search_loop(1, 1)], props=P, lemmas=BASE),
    Contract('bv.successor0', TU, 'h_bv_succ0', search(0, 1), lambda v: a_bv(v, 'pos'), loops=[search_loop(0, 1)], props=P, lemmas=BASE),
    Contract('bv.predecessor1', TU, 'h_bv_pred1', search(1, 0), lambda v: a_bv(v, 'pos'), loops=[search_loop(1, 0)], props=P, lemmas=BASE),
    Contract('bv.predecessor0', TU, 'h_bv_pred0', search(0, 0), lambda v: a_bv(v, 'pos'), loops=[search_loop(0, 0)], props=P, lemmas=BASE),
]
