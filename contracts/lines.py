"""line readers (C16): trim_newline_chars, fast_getline, line_iterator, buffer_line_iterator, mmap_lines.
The text is T[0..N) without NUL; a line is a maximal T[p..q) whose only newline, if any, is its last character."""
from contracts.theory import *
TU = 'lines'
U = 'succinct::util::'
LI, BI, ML = U + 'line_iterator', U + 'buffer_line_iterator', U + 'mmap_lines'
C8 = lambda x: z3.BitVecVal(x, 8)
def nlc(x): return Or(x == C8(10), x == C8(13))
def string(v, name='s'):
    r = v.st.new_region(name, size=32); put_string(v.st, Ptr(r.rid), name); return Ptr(r.rid)
def put_string(st, p, name='s'):
    n = fresh(name + '_n'); a = st.new_array(name + '_chars', 1, n); poke(st, p, 24, Vec(n, a.rid, 1)); return n
def sv(c, p):
    v = peek(c.ex, c.st, p, 0); return bv(v.size), c.st.mem[v.rid].arr
def is_line(T, N, p, q): return [('a line', And(ULT(p, q), ULE(q, N), Or(Select(T, q - 1) == 10, q == N))), ('no newline inside', FA(lambda i: Implies(And(ULE(p, i), ULT(i, q - 1)), Select(T, i) != 10), sels(T), 'nl'))]
def holds(T, p, q, n, A, trim):
    """the string is T[p..q), without its trailing newline characters if trim"""
    return [('length', And(ULE(n, q - p), Or(bo(trim), n == q - p))), ('characters', FA(lambda i: Implies(ULT(i, n), Select(A, i) == Select(T, p + i)), lambda ix: [(t,) for t in ix.selects(A)] + [(t - p,) for t in ix.selects(T)], 'ch')),
            ('nothing but newline characters removed', FA(lambda i: Implies(And(UGE(i, n), ULT(i, q - p)), nlc(Select(T, p + i))), lambda ix: [(t - p,) for t in ix.selects(T)], 'tr')),
            ('all of them', Implies(And(bo(trim), n != 0), Not(nlc(Select(T, p + n - 1)))))]
def sp_trim(c):
    p = c.args[0]; n, A = sv(c, p); c.modifies_vec(p); c.pre('length', ULT(n, bv(1 << 56))); c.st.ghost.update(n=n, A=A, p=p)
    def post(c, r):
        m, B = sv(c, p)
        c.post('not longer', ULE(m, n)); c.post('prefix', FA(lambda i: Implies(ULT(i, m), Select(B, i) == Select(A, i)), lambda ix: [(t,) for t in ix.selects(A)] + [(t,) for t in ix.selects(B)], 'px'))
        c.post('only newline characters removed', FA(lambda i: Implies(And(UGE(i, m), ULT(i, n)), nlc(Select(A, i))), sels(A), 'rm'))
        c.post('all of them', Implies(m != 0, Not(nlc(Select(A, m - 1)))))
    return post
def trim_inv(x):
    g = x.st.ghost; l = x('l'); n, A = g['n'], g['A']; m, B = sv(x.sc(), g['p'])
    return [('scan', And(ULE(l, n), m == n, bool(B.eq(A)))), ('newlines so far', FA(lambda i: Implies(And(UGE(i, l), ULT(i, n)), nlc(Select(A, i))), sels(A), 'sc'))]
# ---------------------------------------------------------------- stdio
def text(v):
    r = v.st.new_region('file'); T = fresh_arr('text', 8); N = fresh('text_n')
    v.st.ghost[('text', r.rid)] = (T, N); v.st.ghost[('fpos', r.rid)] = fresh('fpos')
    return Ptr(r.rid)
def stream(c, f):
    T, N = c.st.ghost[('text', f.r)]; p = c.st.ghost[('fpos', f.r)]
    c.pre('position', And(ULE(p, N), ULT(N, bv(1 << 55)))); 
    if c.mode == 'root': c.assume(FA(lambda i: Implies(ULT(i, N), Select(T, i) != 0), sels(T), 'nonul'))
    return T, N, p
def sp_getline(c):
    s, f, trim = c.args; T, N, p = stream(c, f); c.modifies_vec(s); n, A = sv(c, s); c.pre('length', ULT(n, bv(1 << 56)))
    c.st.ghost.update(s=s, f=f, p0=p); tr = bo(trim) if z3.is_bool(bo(trim)) else trim
    tr = c.a(2, 1) == 1 if not z3.is_bool(tr) else tr
    def post(c, r):
        if c.mode == 'call': c.st.ghost[('fpos', f.r)] = fresh('fpos')
        q = c.st.ghost[('fpos', f.r)]; n, A = sv(c, s); ok = bo(r)
        c.post('ends with the text', And(ok == (p != N), Implies(Not(ok), q == N)))
        for nm, g in is_line(T, N, p, q) + holds(T, p, q, n, A, tr):
            c.post(nm, FA(lambda *i, g=g: Implies(ok, g.body(*i)), g.trig, g.name) if isinstance(g, Forall) else Implies(ok, g))
    return post
def gl_inv(x):
    g = x.st.ghost; f, p = g['f'], g['p0']; T, N = x.st.ghost[('text', f.r)]; q = x.st.ghost[('fpos', f.r)]
    try: d = x('done'); d = d if z3.is_bool(d) else (d & 1) == 1
    except BindError: d = z3.BoolVal(False)
    if x.mode == 'assume': poke(x.st, g['s'], 24, Vec(fresh('line_n'), x.st.new_array('line', 1, fresh('line_ln')).rid, 1))
    n, A = sv(x.sc(), g['s']); v = peek(x.ex, x.st, g['s'], 0)
    return [('read so far', And(ULE(p, q), ULE(q, N), n == q - p, bv(x.st.mem[v.rid].ln) == n)), ('characters', FA(lambda i: Implies(ULT(i, n), Select(A, i) == Select(T, p + i)), lambda ix: [(t,) for t in ix.selects(A)] + [(t - p,) for t in ix.selects(T)], 'ch')),
            ('no newline yet', FA(lambda i: Implies(And(ULE(p, i), ULT(i, q), Or(Not(d), i != q - 1)), Select(T, i) != 10), sels(T), 'nny')), ('newline reached', Implies(d, And(ULT(p, q), Select(T, q - 1) == 10)))]
class LIV:
    def __init__(s, c, p):
        L = c.ex.env.layout(TU); s.sp = pofs(p, L.off(LI, 'm_line')); s.fp, s.tp = pofs(p, L.off(LI, 'm_file')), pofs(p, L.off(LI, 'm_trim_newline'))
        s.file = c.rd(s.fp)
def li_step(c, p, f, tr, T, N, q0):
    v = LIV(c, p); q = c.st.ghost[('fpos', f.r)]; n, A = sv(c, v.sp)
    more = q0 != N
    c.post('at the end exactly when the text is', Implies(bool(isinstance(v.file, Ptr) and v.file.r is not None) != more, False))
    for nm, g in is_line(T, N, q0, q) + holds(T, q0, q, n, A, tr):
        c.post(nm, FA(lambda *i, g=g: Implies(more, g.body(*i)), g.trig, g.name) if isinstance(g, Forall) else Implies(more, g))
def sp_li_ctor(c):
    o, f, trim = c.args; T, N, p = stream(c, f); c.mod_objs.append(o); tr = bo(trim) if not z3.is_bv(trim) else c.a(2, 1) == 1
    def post(c, r): li_step(c, o, f, tr, T, N, p)
    return post
def sp_li_next(c):
    o = c.args[0]; v = LIV(c, o); f = v.file; T, N, p = stream(c, f); c.mod_objs.append(o); n, A = sv(c, v.sp); c.pre('line', ULT(n, bv(1 << 56)))
    t = c.rd(v.tp, 8); tr = (t & 1) == 1; c.pre('flag', ULE(t, C8(1)))
    def post(c, r): li_step(c, o, f, tr, T, N, p)
    return post
def a_li(v, open_=True):
    L = v.env.layout(TU); r = v.st.new_region('li', size=L.size(LI)); p = Ptr(r.rid); put_string(v.st, pofs(p, L.off(LI, 'm_line')), 'line')
    poke(v.st, pofs(p, L.off(LI, 'm_file')), 8, text(v) if open_ else NULL); poke(v.st, pofs(p, L.off(LI, 'm_trim_newline')), 1, fresh('trim', 8))
    return p
def sp_li_end(c):
    c.mod_objs.append(c.args[0])
    def post(c, r): v = LIV(c, c.args[0]); c.post('the end', bool(isinstance(v.file, Ptr) and v.file.r is None))
    return post
def sp_li_eq(c):
    a, b = LIV(c, c.args[0]), LIV(c, c.args[1])
    def post(c, r): c.post('equal exactly when both are at the end or read the same file', bo(r) == z3.BoolVal(a.file.r == b.file.r))
    return post
def sp_get(cls, f):
    def sp(c):
        L = c.ex.env.layout(TU)
        def post(c, r): c.post('the current line', bool(isinstance(r, Ptr) and r.r == c.args[0].r and r.off == L.off(cls, f) and is_c(as_c(r.idx)) and as_c(r.idx) == 0))
        return post
    return sp
# ---------------------------------------------------------------- buffer
def mem(v):
    n = fresh('size'); a = v.st.new_array('text', 1, n); a.ro = True
    return Ptr(a.rid), n
class BIV:
    def __init__(s, c, p):
        L = c.ex.env.layout(TU); o = lambda f: pofs(p, L.off(BI, f))
        s.buf, s.end, s.cur, s.sp = c.rd(o('m_buffer')), c.rd(o('m_end')), c.rd(o('m_cur_pos')), o('m_cur_value')
    def pos(s, p): return bv(binop('add', binop('mul', p.idx, p.sc, 64), p.off & MASK[64], 64))
def bi_post(c, o, T, N, p, rid):
    v = BIV(c, o); done = isinstance(v.cur, Ptr) and v.cur.r is None
    c.post('at the end exactly when the text is', UGE(p, N) if done else ULT(p, N))
    if not done:
        if not isinstance(v.cur, Ptr): raise Undecided('m_cur_pos')
        q = v.pos(v.cur); e = If(UGT(q, N), N, q); n, A = sv(c, v.sp); nl = Select(T, q - 1) == 10
        if rid is not None: c.post('in the same buffer', bool(v.cur.r == rid and v.end.r == rid) and v.pos(v.end) == N)
        c.post('a line', And(ULT(p, q), Or(And(ULE(q, N), nl), q == N + 1)))
        c.post('no newline inside', FA(lambda i: Implies(And(ULE(p, i), ULT(i, q - 1)), Select(T, i) != 10), sels(T), 'nl'))
        cr = And(q - 1 != p, Select(T, q - 2) == 13)
        c.post('length without the line terminator', n == If(cr, q - 2 - p, q - 1 - p))
        c.post('characters', FA(lambda i: Implies(ULT(i, n), Select(A, i) == Select(T, p + i)), lambda ix: [(t,) for t in ix.selects(A)], 'ch'))
def sp_bi_ctor(c):
    o, b, n = c.args; c.mod_objs.append(o); N = bv(n); T = c.st.mem[b.r].arr; c.pre('size', ULT(N, bv(1 << 55))); c.st.ghost.update(o=o, p0=bv(0), N=N, T=T)
    def post(c, r): bi_post(c, o, T, N, bv(0), b.r)
    return post
def sp_bi_next(c):
    o = c.args[0]; v = BIV(c, o); r0 = c.st.mem[v.buf.r]; T, N, p = r0.arr, bv(r0.ln), v.pos(v.cur); c.mod_objs.append(o); n, A = sv(c, v.sp)
    c.pre('position', And(ULE(p, N + 1), ULT(N, bv(1 << 55)), ULT(n, bv(1 << 56)))); c.st.ghost.update(o=o, p0=p, N=N, T=T)
    def post(c, r): bi_post(c, o, T, N, p, r0.rid)
    return post
def bi_inv(x):
    g = x.st.ghost; v = BIV(x.sc(), g['o']); p, N, T = g['p0'], g['N'], g['T']; q = v.pos(v.cur)
    return [('scan', And(ULE(p, q), ULE(q, N))), ('no newline so far', FA(lambda i: Implies(And(ULE(p, i), ULT(i, q)), Select(T, i) != 10), sels(T), 'nn'))]
def bi_left(x): g = x.st.ghost; v = BIV(x.sc(), g['o']); return g['N'] - v.pos(v.cur)
def a_bi(v):
    L = v.env.layout(TU); r = v.st.new_region('bi', size=L.size(BI)); p = Ptr(r.rid); b, n = mem(v); o = lambda f: pofs(p, L.off(BI, f))
    poke(v.st, o('m_buffer'), 8, b); poke(v.st, o('m_end'), 8, Ptr(b.r, 0, n, 1)); poke(v.st, o('m_cur_pos'), 8, Ptr(b.r, 0, fresh('cur'), 1)); put_string(v.st, o('m_cur_value'), 'value')
    return p
def a_bi_end(v):
    p = a_bi(v); L = v.env.layout(TU)
    for f in ('m_buffer', 'm_end', 'm_cur_pos'): poke(v.st, pofs(p, L.off(BI, f)), 8, NULL)
    return p
def raw(v, cls): return Ptr(v.st.new_region('out', size=v.env.layout(TU).size(cls)).rid)
def sp_bi_end(c):
    c.mod_objs.append(c.args[0])
    def post(c, r): v = BIV(c, c.args[0]); c.post('the end', bool(isinstance(v.cur, Ptr) and v.cur.r is None))
    return post
def sp_bi_eq(c):
    a, b = BIV(c, c.args[0]), BIV(c, c.args[1])
    def post(c, r): c.post('equal exactly at the same position', bo(r) == (z3.BoolVal(a.cur.r == b.cur.r) if a.cur.r is None or b.cur.r is None or a.cur.r != b.cur.r else a.pos(a.cur) == b.pos(b.cur)))
    return post
def sp_ml_begin(c):
    o = c.args[0]; b, n = c.st.ghost['mapped']; N = bv(n); T = c.st.mem[b].arr; c.mod_objs.append(o); c.pre('size', ULT(N, bv(1 << 55))); c.st.ghost.update(o=o, p0=bv(0), N=N, T=T)
    def post(c, r): bi_post(c, o, T, N, bv(0), b)
    return post
def a_ml(v):
    b, n = mem(v); v.st.ghost['mapped'] = (b.r, n); return Ptr(v.st.new_region('mmap_lines', size=v.env.layout(TU).size(ML)).rid)
P = ('C16',)
BL = [LoopSpec(bi_inv, bi_left)]
CONTRACTS = [
    Contract('trim', TU, 'h_trim', sp_trim, lambda v: [string(v)], r'(?:void )?succinct::util::trim_newline_chars\(.*', props=P, loops=[LoopSpec(trim_inv, lambda x: x('l'))]),
    Contract('getline', TU, 'h_getline', sp_getline, lambda v: [string(v), text(v), fresh_bool('trim')], r'(?:bool )?succinct::util::fast_getline\(.*', props=P, cuts=('trim',), loops=[LoopSpec(gl_inv, lambda x: x.st.ghost[('text', x.st.ghost['f'].r)][1] - x.st.ghost[('fpos', x.st.ghost['f'].r)])]),
    Contract('li.ctor', TU, 'h_li_ctor', sp_li_ctor, lambda v: [raw(v, LI), text(v), fresh_bool('trim')], props=P, cuts=('getline',)),
    Contract('li.next', TU, 'h_li_next', sp_li_next, lambda v: [a_li(v)], props=P, cuts=('getline',)),
    Contract('li.end', TU, 'h_li_end', sp_li_end, lambda v: [raw(v, LI)], props=P),
    Contract('li.eq', TU, 'h_li_eq', sp_li_eq, lambda v: [a_li(v), a_li(v, False)], props=P),
    Contract('li.eq.end', TU, 'h_li_eq', sp_li_eq, lambda v: [a_li(v, False), a_li(v, False)], props=P),
    Contract('li.get', TU, 'h_li_get', sp_get(LI, 'm_line'), lambda v: [a_li(v)], props=P),
    Contract('bi.ctor', TU, 'h_bi_ctor', sp_bi_ctor, lambda v: [raw(v, BI)] + list(mem(v)), props=P, loops=BL),
    Contract('bi.next', TU, 'h_bi_next', sp_bi_next, lambda v: [a_bi(v)], props=P, loops=BL),
    Contract('bi.end', TU, 'h_bi_end', sp_bi_end, lambda v: [raw(v, BI)], props=P),
    Contract('bi.eq', TU, 'h_bi_eq', sp_bi_eq, lambda v: [a_bi(v), a_bi_end(v)], props=P),
    Contract('bi.eq.end', TU, 'h_bi_eq', sp_bi_eq, lambda v: [a_bi_end(v), a_bi_end(v)], props=P),
    Contract('bi.get', TU, 'h_bi_get', sp_get(BI, 'm_cur_value'), lambda v: [a_bi(v)], props=P),
    Contract('ml.begin', TU, 'h_ml_begin', sp_ml_begin, lambda v: [raw(v, BI), a_ml(v)], props=P, loops=BL),
    Contract('ml.end', TU, 'h_ml_end', sp_bi_end, lambda v: [raw(v, BI), a_ml(v)], props=P),
]
