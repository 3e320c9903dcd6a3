"""mappable_vector: contents and ownership through construction, stealing, assignment, swap, clear and destruction (C14)."""
from contracts.theory import *
TU = 'codec'
T = MV % 'unsigned long'

def own(v, reg, off, kind, name):
    """a mappable_vector in one of its states: 'none' (default), 'map' (not owned), 'array' (new[]), 'vec' (stolen std::vector)"""
    L = v.env.layout(TU); st = v.st
    D, S, DL = (off + L.off(T, f) for f in ('m_data', 'm_size', 'm_deleter'))
    if kind == 'none':
        reg.cells[D] = (8, NULL); reg.cells[S] = (8, 0); reg.cells[DL] = (32, Del()); return None
    n = fresh(name + '_n')
    a = st.new_array(name, 8, n)
    reg.cells[D] = (8, Ptr(a.rid)); reg.cells[S] = (8, n)
    d = Del()
    if kind == 'array': d = Del('array', Ptr(a.rid))
    if kind == 'vec':
        h = st.new_region(name + '_vec', size=24); h.cells[0] = (24, Vec(n, a.rid, 8)); d = Del('ptr', Ptr(h.rid))
    reg.cells[DL] = (32, d)
    return a.rid
def a_mv(kind, *extra):
    def f(v):
        r = v.st.new_region('mv', size=v.env.layout(TU).size(T))
        own(v, r, 0, kind, 'old')
        out = [Ptr(r.rid)]
        for e in extra:
            if e == 'vec':
                q = v.st.new_region('vec', size=24); n = fresh('vec_n'); a = v.st.new_array('vec_data', 8, n)
                q.cells[0] = (24, Vec(n, a.rid, 8)); out.append(Ptr(q.rid))
            elif e in ('none', 'map', 'array', 'vecm'):
                q = v.st.new_region('mv2', size=v.env.layout(TU).size(T)); own(v, q, 0, 'vec' if e == 'vecm' else e, 'old2'); out.append(Ptr(q.rid))
            else: out.append(fresh(e))
        return out
    return f
def a_new(*extra):
    def f(v):
        r = v.st.new_region('mv', size=v.env.layout(TU).size(T))
        return [Ptr(r.rid)] + a_mv('none', *extra)(v)[1:]
    return f
class OW:
    """ownership view"""
    def __init__(s, c, ptr, st=None):
        st = st or c.st; L = c.ex.env.layout(TU)
        s.n = peek(c.ex, st, pofs(ptr, L.off(T, 'm_size')))
        s.data = peek(c.ex, st, pofs(ptr, L.off(T, 'm_data')))
        s.d = peek(c.ex, st, pofs(ptr, L.off(T, 'm_deleter')), 0)
        s.rid = s.data.r if isinstance(s.data, Ptr) else None
        s.A = st.mem[s.rid].arr if s.rid is not None else None
        s.ln = st.mem[s.rid].ln if s.rid is not None else bv(0)
        s.alive = s.rid is None or st.mem[s.rid].alive
        s.kind = s.d.kind if isinstance(s.d, Del) else '?'
        s.owned = None
        if s.kind == 'array': s.owned = s.d.p.r
        elif s.kind == 'ptr':
            v = st.mem[s.d.p.r].cells.get(0)
            s.owned = v[1].rid if v and isinstance(v[1], Vec) else '?'
    def start(s):
        d = s.data
        return isinstance(d, Ptr) and d.off == 0 and is_c(as_c(d.idx)) and as_c(d.idx) == 0
def vsz(n): return ULT(bv(n), bv(1 << 50))
def state(c, o):
    """well-formed state of an existing mappable_vector"""
    if o.rid is not None: c.pre('storage', And(vsz(o.n), bv(o.ln) == bv(o.n)))
def dead(c, o, name='the old storage is freed'):
    if o.owned is not None: c.post(name, bool(not c.st.mem[o.owned].alive))
    elif o.rid is not None: c.post('storage it does not own is kept', bool(c.st.mem[o.rid].alive))
def holds(c, n, size, A, kinds, name):
    """n holds the size elements of A, in live storage it owns"""
    c.post(name + ': size', bv(n.n) == bv(size))
    ok = n.start() and n.alive and n.kind in kinds and (n.owned == n.rid)
    if n.rid is None: c.post(name + ': no storage only when empty', And(bv(size) == 0, n.kind is None)); return
    c.post(name + ': live storage with its own deleter', bool(ok))
    c.post(name + ': capacity', UGE(bv(n.ln), bv(size)))
    c.post(name + ': elements', FA(lambda i: Implies(ULT(i, bv(size)), Select(n.A, i) == Select(A, i)), lambda ix: [], 'i'))
def sp_default(c):
    c.mod_objs.append(c.args[0])
    def post(c, r):
        n = OW(c, c.args[0]); c.post('empty', bool(n.rid is None and n.kind is None)); c.post('size', bv(n.n) == 0)
    return post
def vec_of(c, p): 
    v = c.st.mem[p.r].cells[p.off][1]
    c.pre('vector storage', And(vsz(v.size), bv(c.st.mem[v.rid].ln) == bv(v.size)))
    return v, c.st.mem[v.rid].arr
def sp_range(c):
    v, A = vec_of(c, c.args[1]); c.mod_objs.append(c.args[0])
    def post(c, r): holds(c, OW(c, c.args[0]), v.size, A, ('array',), 'copy')
    return post
def sp_steal(c):
    o = OW(c, c.args[0]); state(c, o); v, A = vec_of(c, c.args[1])
    c.mod_objs += [c.args[0], c.args[1]]
    def post(c, r):
        holds(c, OW(c, c.args[0]), v.size, A, ('ptr',), 'stolen'); dead(c, o)
        w = c.st.mem[c.args[1].r].cells[c.args[1].off][1]
        c.post('the source is left empty and separate', Or(bv(v.size) == 0, And(bv(w.size) == 0, bool(w.rid != v.rid))))
    return post
def sp_assign(c):
    o = OW(c, c.args[0]); state(c, o); v, A = vec_of(c, c.args[1]); c.mod_objs.append(c.args[0])
    if o.owned is not None: c.mod_arrs.append(o.owned)
    def post(c, r): holds(c, OW(c, c.args[0]), v.size, A, ('array',), 'assigned'); dead(c, o)
    return post
def sp_clear(c):
    o = OW(c, c.args[0]); state(c, o); c.mod_objs.append(c.args[0])
    def post(c, r):
        n = OW(c, c.args[0]); c.post('empty', bool(n.rid is None and n.kind is None)); c.post('size', bv(n.n) == 0); dead(c, o)
    return post
def sp_dtor(c):
    o = OW(c, c.args[0]); state(c, o); c.mod_objs.append(c.args[0])
    def post(c, r): dead(c, o)
    return post
def same(a, b): return a.rid == b.rid and a.d is b.d
def sp_swap(c):
    a, b = OW(c, c.args[0]), OW(c, c.args[1]); state(c, a); state(c, b); c.mod_objs += [c.args[0], c.args[1]]
    def post(c, r):
        x, y = OW(c, c.args[0]), OW(c, c.args[1])
        c.post('exchanged', bool(same(x, b) and same(y, a))); c.post('sizes', And(bv(x.n) == bv(b.n), bv(y.n) == bv(a.n)))
        c.post('nothing freed', bool(x.alive and y.alive))
        for n, o in ((x, b), (y, a)):
            if n.A is not None: c.post('elements', bool(n.A is o.A))
    return post
def sp_at(c):
    o = OW(c, c.args[0]); state(c, o); i = c.a(1); c.pre('in range', ULT(i, bv(o.n)))
    def post(c, r): c.post('element i', r == Select(o.A, i))
    return post
def sp_size(c):
    o = OW(c, c.args[0])
    def post(c, r): c.post('size', r == bv(o.n))
    return post
P = ('C14',)
KINDS = ('none', 'map', 'array', 'vec')
CONTRACTS = [Contract('mv.default', TU, 'h_mv_default', sp_default, a_new(), props=P), Contract('mv.range', TU, 'h_mv_range', sp_range, a_new('vec'), props=P),
             Contract('mv.at', TU, 'h_mv_at', sp_at, a_mv('map', 'i'), props=P), Contract('mv.size', TU, 'h_mv_size', sp_size, a_mv('map'), props=P)]
for k in KINDS:
    CONTRACTS += [Contract('mv.steal.' + k, TU, 'h_mv_steal', sp_steal, a_mv(k, 'vec'), props=P), Contract('mv.assign.' + k, TU, 'h_mv_assign', sp_assign, a_mv(k, 'vec'), props=P),
                  Contract('mv.clear.' + k, TU, 'h_mv_clear', sp_clear, a_mv(k), props=P), Contract('mv.dtor.' + k, TU, 'h_mv_dtor', sp_dtor, a_mv(k), props=P)]
    for k2 in ('none', 'map', 'array', 'vecm'):
        CONTRACTS.append(Contract('mv.swap.%s.%s' % (k, k2), TU, 'h_mv_swap', sp_swap, a_mv(k, k2), props=P))
