"""bit_vector::enumerator and unary_enumerator (C04)."""
from contracts.theory import *
from contracts.builder import XC
TU = 'bv'
EC = 'succinct::bit_vector::enumerator'
UC = 'succinct::bit_vector::unary_enumerator'

def win(b, p):
    """the 64 bits from position p, zero past the end of the storage"""
    w, s = LShR(p, 6), p & 63
    lo = If(ULT(w, b.nw), LShR(Select(b.A, w), s), bv(0))
    hi = If(And(s != 0, ULT(w + 1, b.nw)), Select(b.A, w + 1) << (64 - s), bv(0))
    return lo | hi

class EN:
    def __init__(s, c, ptr, st=None, tu=TU):
        st = st or c.st; L = c.ex.env.layout(tu)
        s.ptr = ptr; s.L = L
        s.bvp = peek(c.ex, st, pofs(ptr, L.off(EC, 'm_bv')))
        nm = getattr(c, 'nm', lambda e, n: e)
        s.pos = nm(peek(c.ex, st, pofs(ptr, L.off(EC, 'm_pos'))), 'pos')
        s.buf = nm(peek(c.ex, st, pofs(ptr, L.off(EC, 'm_buf'))), 'buf')
        s.avail = peek(c.ex, st, pofs(ptr, L.off(EC, 'm_avail')))
        s.b = BV(c, s.bvp, tu, st)
    def inv(s):
        return [('position in range', ULE(s.pos, s.b.size)), ('avail <= 64', ULE(s.avail, bv(64))), ('buffer holds the next bits', Dual(FA(lambda j: Implies(ULT(j, bv(64)), wbit(s.buf, j) == And(ULT(j, s.avail), ULT(s.pos + j, s.b.nw << 6), bitx(s.b.A, s.pos + j))), lambda ix: [], 'bufbit'), [s.buf == (win(s.b, s.pos) & LM(s.avail))]))]
    def cells(s, tu=TU): return [(pofs(s.ptr, s.L.off(EC, f)), 8) for f in ('m_pos', 'm_buf', 'm_avail')]
def a_en(v, *extra):
    L = v.env.layout(TU)
    r = v.st.new_region('bv', size=L.size('succinct::bit_vector')); mk_bv(v, v.st, r, 0, TU)
    e = v.st.new_region('en', size=L.size(EC))
    e.cells[L.off(EC, 'm_bv')] = (8, Ptr(r.rid))
    for f in ('m_pos', 'm_buf', 'm_avail'): e.cells[L.off(EC, f)] = (8, fresh(f))
    return [Ptr(e.rid)] + [fresh(x) for x in extra]
def en_pre(c):
    e = EN(c, c.args[0])
    pre_all(c, e.b.wf(), 'bv '); pre_all(c, e.inv(), 'enumerator ')
    for p, n in e.cells(): c.modifies(p, n)
    return e
def en_post(c, pos):
    n = EN(c, c.args[0])
    c.post('new position', n.pos == pos)
    post_all(c, n.inv(), 'inv: ')
    return n
def sp_en_ctor(c):
    b = BV(c, c.args[1], TU); p = c.a(2)
    pre_all(c, b.wf(), 'bv '); c.pre('pos <= size', ULE(p, b.size))
    c.mod_objs.append(c.args[0])
    if c.mode == 'call':
        L = c.ex.env.layout(TU)
        poke(c.st, pofs(c.args[0], L.off(EC, 'm_bv')), 8, c.args[1])
        for f in ('m_pos', 'm_buf', 'm_avail'): poke(c.st, pofs(c.args[0], L.off(EC, f)), 8, fresh(f))
    def post(c, r):
        n = en_post(c, p)
        c.post('over the same vector', bool(isinstance(n.bvp, Ptr) and n.bvp.r == c.args[1].r and n.bvp.off == c.args[1].off))
    return post
def a_en_ctor(v):
    L = v.env.layout(TU)
    r = v.st.new_region('bv', size=L.size('succinct::bit_vector')); mk_bv(v, v.st, r, 0, TU)
    e = v.st.new_region('en', size=L.size(EC))
    return [Ptr(e.rid), Ptr(r.rid), fresh('pos')]
def sp_en_next(c):
    e = en_pre(c); c.pre('not at the end', ULT(e.pos, e.b.size))
    def post(c, r):
        c.post('is the bit at the position', bo(r) == bitx(e.b.A, e.pos))
        en_post(c, e.pos + 1)
    return post
def sp_en_take(c):
    e = en_pre(c); l = c.a(1); c.pre('len <= 64', ULE(l, bv(64))); c.pre('in range', ULE(l, e.b.size - e.pos))
    def post(c, r):
        c.post('value', r == (win(e.b, e.pos) & LM(l)))
        c.post('bit j is bit pos+j', FA(lambda j: Implies(ULT(j, bv(64)), wbit(r, j) == And(ULT(j, l), bitx(e.b.A, e.pos + j))), lambda ix: [], 'bitwise'))
        en_post(c, e.pos + l)
    return post
def sp_en_take_gb(c):
    """take, as an integer of the sequence"""
    e = en_pre(c); l = c.a(1); c.pre('len <= 64', ULE(l, bv(64))); c.pre('in range', ULE(l, e.b.size - e.pos))
    def post(c, r):
        c.post('value', r == GB(e.b.A, e.pos, l))
        en_post(c, e.pos + l)
    return post
def sp_en_skip_zeros(c):
    e = en_pre(c); w = fresh('witness')
    c.pre('a one is ahead', And(ULE(e.pos, w), ULT(w, e.b.size), bitx(e.b.A, w)))
    c.st.ghost.update(e=e, w=w, p=c.args[0])
    def post(c, r):
        c.post('stops at a one', And(bitx(e.b.A, e.pos + r), ULE(e.pos + r, w)))
        c.post('only zeros before it', FA(lambda j: Implies(And(ULE(e.pos, j), ULT(j, e.pos + r)), Not(bitx(e.b.A, j))), lambda ix: [], 'z'))
        en_post(c, e.pos + r + 1)
    return post
def skip_zeros_inv(x):
    g = x.st.ghost; o, w = g['e'], g['w']
    e = EN(XC(x), g['p'])
    zs = x('zs')
    return e.inv() + [('progress', And(UGE(e.pos, o.pos), zs == e.pos - o.pos, ULE(e.pos, w))),
        ('zeros so far', FA(lambda j: Implies(And(ULE(o.pos, j), ULT(j, e.pos)), Not(bitx(o.b.A, j))), lambda ix: [], 'z'))]
def skip_zeros_dec(x):
    e = EN(XC(x), x.st.ghost['p'])
    return ((e.b.size - e.pos) << 1) + If(e.avail == 0, bv(1), bv(0))
def sp_en_position(c):
    e = EN(c, c.args[0])
    def post(c, r): c.post('position', r == e.pos)
    return post

# ---------------------------------------------------------------- unary
class UN:
    def __init__(s, c, ptr, st=None, tu=TU, A=None):
        st = st or c.st; L = c.ex.env.layout(tu)
        s.ptr = ptr; s.L = L
        d = peek(c.ex, st, pofs(ptr, L.off(UC, 'm_data')))
        s.data = d
        if not isinstance(d, Ptr) or d.r is None or st.mem[d.r].arr is None or not (is_c(as_c(d.idx)) and as_c(d.idx) == 0 and d.off == 0): raise Undecided('unary_enumerator data pointer')
        s.A = st.mem[d.r].arr; s.nw = bv(st.mem[d.r].ln)
        nm = getattr(c, 'nm', lambda e, n: e)
        s.pos = nm(peek(c.ex, st, pofs(ptr, L.off(UC, 'm_position'))), 'pos')
        s.buf = nm(peek(c.ex, st, pofs(ptr, L.off(UC, 'm_buf'))), 'buf')
        s.w = LShR(s.pos, 6); s.s = s.pos & 63
        s.word = Select(s.A, s.w)
        s.full = s.word & ~LM(s.s)                       # everything from position on
        s.used = s.word & ~LM(s.s + 1)                   # position itself consumed
        s.frm = If(s.buf == s.full, s.pos, s.pos + 1)    # first position not consumed
        s.before = RW(s.A, s.w + 1) - PC(s.buf)          # ones before frm
    def inv(s):
        return [('position in the storage', And(ULT(s.w, s.nw), ULE(s.nw, bv(1 << 50)))), ('buffer holds the rest of the word', Or(s.buf == s.full, s.buf == s.used))]
    def facts(s):
        """lemma instances: the count before frm, read off the buffer"""
        return [pc_split(s.word, s.s), pc_split(s.word, s.s + 1)]
    def cells(s): return [(pofs(s.ptr, s.L.off(UC, f)), 8) for f in ('m_position', 'm_buf')]
def ones_before(u, p):
    return RK(u.A, p)
def a_ue(v, *extra):
    L = v.env.layout(TU)
    n = fresh('bits_n')
    a = v.st.new_array('bits', 8, n); a.ro = True
    e = v.st.new_region('ue', size=L.size(UC))
    e.cells[L.off(UC, 'm_data')] = (8, Ptr(a.rid))
    for f in ('m_position', 'm_buf'): e.cells[L.off(UC, f)] = (8, fresh(f))
    return [Ptr(e.rid)] + [fresh(x) for x in extra]
def ue_pre(c, mod=True):
    e = UN(c, c.args[0])
    pre_all(c, e.inv(), 'enumerator ')
    for f in e.facts(): c.fact(f)
    if mod:
        for p, n in e.cells(): c.modifies(p, n)
    return e
def nth(c, e, r, k, neg=False):
    """r is the k-th one (zero) from e's front"""
    W, s = LShR(r, 6), r & 63
    if not neg:
        return [('a one is there', bitx(e.A, r)), ('exactly k ones are passed', RK(e.A, r) == e.before + k)]
    return [('a zero is there', Not(bitx(e.A, r))), ('exactly k zeros are passed', (r - RK(e.A, r)) == e.before0 + k)]
def sp_ue_ctor(c):
    b = BV(c, c.args[1], TU); p = c.a(2)
    pre_all(c, b.wf(), 'bv '); c.pre('pos in the storage', ULT(LShR(p, 6), b.nw))
    c.mod_objs.append(c.args[0])
    if c.mode == 'call':
        L = c.ex.env.layout(TU)
        poke(c.st, pofs(c.args[0], L.off(UC, 'm_data')), 8, MVV(c.ex, c.st, pofs(c.args[1], L.off('succinct::bit_vector', 'm_bits')), TU).data)
        for f in ('m_position', 'm_buf'): poke(c.st, pofs(c.args[0], L.off(UC, f)), 8, fresh(f))
    def post(c, r):
        n = UN(c, c.args[0])
        c.fact(pc_split(n.word, n.s))
        c.post('over the same vector', bool(n.data.r == b.rid))
        c.post('position', n.pos == p)
        c.post('nothing consumed', n.buf == n.full)
        post_all(c, n.inv(), 'inv: ')
        c.post('ones before', n.before == RK(b.A, p))
    return post
def a_ue_ctor(v):
    L = v.env.layout(TU)
    r = v.st.new_region('bv', size=L.size('succinct::bit_vector')); mk_bv(v, v.st, r, 0, TU)
    e = v.st.new_region('ue', size=L.size(UC))
    return [Ptr(e.rid), Ptr(r.rid), fresh('pos')]
def before_is_rank(c, e):
    """what `before` means: the ones before the first unconsumed position"""
    c.post('before = rank of the first unconsumed position', e.before == RK(e.A, e.frm))
def sp_ue_next(c):
    e = ue_pre(c)
    c.pre('a one is ahead', ULT(e.before, RW(e.A, e.nw)))
    c.st.ghost.update(e=e, p=c.args[0], A=e.A, w0=e.w)
    def post(c, r):
        c.fact(pc_split(Select(e.A, LShR(r, 6)) & LM(r & 63), e.s)); c.fact(pc_split(Select(e.A, LShR(r, 6)) & LM(r & 63), e.s + 1))
        c.fact(pc_split(Select(e.A, LShR(r, 6)), r & 63)); c.fact(pc_split(Select(e.A, LShR(r, 6)), (r & 63) + 1))
        c.fact(pc_split(Select(e.A, LShR(r, 6)) & ~LM(r & 63), (r & 63) + 1)); c.fact(pc_bit(r & 63))
        before_is_rank(c, e)
        c.post('not before the front', UGE(r, e.frm))
        post_all(c, nth(c, e, r, bv(0)), chain=True)
        c.post('nothing between', FA(lambda j: Implies(And(ULE(e.frm, j), ULT(j, r)), Not(bitx(e.A, j))), lambda ix: [], 'z'))
        n = UN(c, c.args[0])
        c.post('position', n.pos == r, chain=True); c.post('consumed', n.buf == n.used, chain=True); post_all(c, n.inv(), 'inv: ')
        c.post('ones before', n.before == e.before + 1)
    return post
def next_inv(x):
    g = x.st.ghost; e = g['e']; n = UN(XC(x), g['p'])
    buf = x('buf')
    return [('range', And(UGE(n.w, e.w), ULT(n.w, e.nw), n.s == e.s)), ('buffer', buf == If(n.w == e.w, e.buf, Select(e.A, n.w))),
            ('none so far', RW(e.A, n.w + 1) == e.before + PC(buf)),
            ('nothing between', FA(lambda j: Implies(And(ULE(e.frm, j), ULT(j, n.w << 6)), Not(bitx(e.A, j))), lambda ix: [], 'z'))]
def sp_ue_skip(move):
    def sp(c):
        e = ue_pre(c, move); k = c.a(1)
        c.pre('k ones are ahead', And(ULT(k, bv(1 << 58)), ULT(e.before + k, RW(e.A, e.nw))))
        c.st.ghost.update(e=e, p=c.args[0], k=k, move=move)
        def post(c, r):
            if c.mode == 'call' and move: r = UN(c, c.args[0]).pos
            n = UN(c, c.args[0])
            if move: r = n.pos
            w = Select(e.A, LShR(r, 6))
            for f in (pc_split(w & LM(r & 63), e.s), pc_split(w & LM(r & 63), e.s + 1), pc_split(w, r & 63)): c.fact(f)
            before_is_rank(c, e)
            c.post('not before the front', UGE(r, e.frm))
            post_all(c, nth(c, e, r, k), chain=True)
            if move:
                c.post('not consumed', n.buf == n.full, chain=True); post_all(c, n.inv(), 'inv: ')
                c.post('ones before', n.before == e.before + k)
        return post
    return sp
def skip_inv(x):
    g = x.st.ghost; e, k = g['e'], g['k']
    pos = UN(XC(x), g['p']).pos if g['move'] else x('position')
    buf, sk = x('buf'), x('skipped')
    W = LShR(pos, 6)
    return [('range', And(UGE(W, e.w), ULT(W, e.nw), (pos & 63) == e.s, ULT(pos, bv(1 << 57)))), ('buffer', buf == If(W == e.w, e.buf, Select(e.A, W))),
            ('count', And(sk + PC(buf) == RW(e.A, W + 1) - e.before, ULE(sk, k)))]
def skip_dec(x):
    g = x.st.ghost
    pos = UN(XC(x), g['p']).pos if g['move'] else x('position')
    return bv(1 << 57) - pos
def sp_ue_skip0(c):
    e = ue_pre(c); k = c.a(1)
    sz = fresh('size')   # number of bits of the vector; only zeros before it count
    e.word0 = ~e.word & ~LM(e.s)
    e.before0 = e.pos - RK(e.A, e.pos)
    for f in (pc_split(~e.word, e.s), pc_not(e.word), pc_not(e.word & LM(e.s)), pc_split(e.word, e.s)): c.fact(f)
    c.fact(pc_low0(e.word, e.s))
    c.pre('bits', And(wfor(sz) == e.nw, ULT(e.pos, sz), ULT(sz, bv(1 << 56))))
    lw = Select(e.A, LShR(sz, 6))
    c.fact(pc_split(lw, sz & 63)); c.fact(pc_low0(lw, sz & 63)); c.fact(rw_step(e.A, LShR(sz, 6)))
    c.pre('padding is zero', Implies((sz & 63) != 0, LShR(lw, sz & 63) == 0))
    c.pre('k zeros are ahead', And(ULT(k, bv(1 << 58)), ULT(e.before0 + k, sz - RK(e.A, sz))))
    c.derive('the storage holds no ones past the end', RW(e.A, e.nw) == RK(e.A, sz))
    c.derive('enough zeros in the storage', ULT(e.before0 + k, (e.nw << 6) - RW(e.A, e.nw)))
    c.st.ghost.update(e=e, p=c.args[0], k=k, sz=sz)
    def post(c, r):
        n = UN(c, c.args[0]); r = n.pos
        w = Select(e.A, LShR(r, 6))
        for f in (pc_split(~w & LM(r & 63), e.s), pc_split(w, r & 63), pc_low0(w, r & 63), pc_split(~w, r & 63), pc_not(w)): c.fact(f)
        c.post('not before the front', UGE(r, e.pos))
        post_all(c, nth(c, e, r, k, True), chain=True)
        c.post('not consumed', n.buf == n.full, chain=True); post_all(c, n.inv(), 'inv: ')
        c.post('inside the vector', ULT(r, sz))
    return post
def skip0_inv(x):
    g = x.st.ghost; e, k = g['e'], g['k']
    pos = UN(XC(x), g['p']).pos
    buf, sk = x('buf'), x('skipped')
    W = LShR(pos, 6)
    x.st.assume(pc_not(Select(e.A, W)))
    return [('range', And(UGE(W, e.w), ULT(W, e.nw), (pos & 63) == e.s, ULT(pos, bv(1 << 57)))), ('buffer', buf == If(W == e.w, e.word0, ~Select(e.A, W))),
            ('count', And(sk + PC(buf) == ((W + 1) << 6) - RW(e.A, W + 1) - e.before0, ULE(sk, k)))]
def skip0_dec(x): return bv(1 << 57) - UN(XC(x), x.st.ghost['p']).pos
def sp_ue_position(c):
    e = UN(c, c.args[0])
    def post(c, r): c.post('position', r == e.pos)
    return post

def L_gbdef(ix):
    from contracts.bvec import getbits
    for t in list(ix.app('GB')): yield ('g', t.get_id()), (lambda t=t: t == getbits(t.arg(0), t.arg(1), t.arg(2)))
P = ('C04',)
RL = (L_bit, L_pc, L_rw)
CE = r'(?:bool |void |unsigned long )?succinct::bit_vector::enumerator::'
CU = r'(?:bool |void |unsigned long )?succinct::bit_vector::unary_enumerator::'
def K(name, root, spec, args, pat=None, lemmas=RL, **k):
    return Contract(name, TU, root, spec, args, pat, props=P, lemmas=lemmas, **k)
SEL = ('popcount#', 'select_in_word#')
CONTRACTS = [
    K('en.ctor', 'h_en_ctor', sp_en_ctor, a_en_ctor, CE + r'enumerator\(succinct::bit_vector const&, unsigned long\)'),
    K('en.next', 'h_en_next', sp_en_next, lambda v: a_en(v), CE + r'next\(\)'),
    K('en.take', 'h_en_take', sp_en_take, lambda v: a_en(v, 'l'), CE + r'take\(unsigned long\)'),
    Contract('en.take#', TU, 'h_en_take', sp_en_take_gb, lambda v: a_en(v, 'l'), CE + r'take\(unsigned long\)', props=P, lemmas=RL + (L_gbdef,)),
    K('en.skip_zeros', 'h_en_skip_zeros', sp_en_skip_zeros, lambda v: a_en(v), CE + r'skip_zeros\(\)', loops=[LoopSpec(skip_zeros_inv, skip_zeros_dec)]),
    K('en.position', 'h_en_position', sp_en_position, lambda v: a_en(v)),
    K('ue.ctor', 'h_ue_ctor', sp_ue_ctor, a_ue_ctor, CU + r'unary_enumerator\(succinct::bit_vector const&, unsigned long\)'),
    K('ue.next', 'h_ue_next', sp_ue_next, lambda v: a_ue(v), CU + r'next\(\)', loops=[LoopSpec(next_inv, lambda x: bv(1 << 57) - UN(XC(x), x.st.ghost['p']).w)]),
    K('ue.skip', 'h_ue_skip', sp_ue_skip(True), lambda v: a_ue(v, 'k'), CU + r'skip\(unsigned long\)', cuts=SEL, loops=[LoopSpec(skip_inv, skip_dec)]),
    K('ue.skip_no_move', 'h_ue_skip_no_move', sp_ue_skip(False), lambda v: a_ue(v, 'k'), CU + r'skip_no_move\(unsigned long\)', cuts=SEL, loops=[LoopSpec(skip_inv, skip_dec)]),
    K('ue.skip0', 'h_ue_skip0', sp_ue_skip0, lambda v: a_ue(v, 'k'), CU + r'skip0\(unsigned long\)', cuts=SEL, loops=[LoopSpec(skip0_inv, skip0_dec)]),
    K('ue.position', 'h_ue_position', sp_ue_position, lambda v: a_ue(v)),
]
