"""Whole-object contracts, for every mappable structure: swap exchanges every member, freeze then map reproduces every member
(as a view of the image), the byte counts agree with size_of (C14; swap also for the structure's own property).
The members are read off the compiler's record layout, so the contracts do not depend on member order or names."""
import re
from contracts.theory import *
from engine.models import ESZ
TU = 'obj'
INT = {'size_t': 8, 'uint64_t': 8, 'int64_t': 8, 'uint32_t': 4, 'int32_t': 4, 'uint16_t': 2, 'int16_t': 2, 'uint8_t': 1, 'int8_t': 1, '_Bool': 1}
for k, v in ESZ.items(): INT.setdefault(k, v)

def leaves(L, cls):
    """[(offset, 'mv', element size) | (offset, 'int', size)] of a record"""
    if cls.startswith('succinct::mapper::mappable_vector<'): return [(0, 'mv', ESZ[cls[34:-1]])]
    out = []; skip = None
    for off, d, decl in L.raw[cls][1]:
        if skip is not None and d > skip: continue
        skip = None
        m = re.match(r'class succinct::mapper::mappable_vector<([\w ]+)>', decl)
        if m: out.append((off, 'mv', ESZ[m.group(1)])); skip = d; continue
        if re.match(r'(class|struct) ', decl): continue
        t = decl.rsplit(' ', 1)[0].replace('const ', '')
        if t not in INT: raise Undecided('member %s of %s' % (decl, cls))
        out.append((off, 'int', INT[t]))
    return out
def fill(v, cls, name, kind):
    L = v.env.layout(TU); st = v.st
    lv = leaves(L, cls)
    size = L.size(cls)
    r = st.new_region(name, size=size)
    for off, k, es in lv:
        if k == 'int': r.cells[off] = (es, fresh('%s_%d' % (name, off), es * 8)); continue
        if kind == 'none': r.cells[off] = (8, NULL); r.cells[off + 8] = (8, 0); r.cells[off + 16] = (32, Del()); continue
        n = fresh('%s_n%d' % (name, off)); a = st.new_array('%s_%d' % (name, off), es, n)
        d = Del()
        if kind == 'vec':
            h = st.new_region(name + '_vec', size=24); h.cells[0] = (24, Vec(n, a.rid, es)); d = Del('ptr', Ptr(h.rid))
        r.cells[off] = (8, Ptr(a.rid)); r.cells[off + 8] = (8, n); r.cells[off + 16] = (32, d)
    return Ptr(r.rid)
def snap(c, cls, p):
    """[(leaf, value)] with value = term or (data pointer, size, deleter)"""
    r = c.st.mem[p.r]; out = []
    for off, k, es in leaves(c.ex.env.layout(TU), cls):
        def g(o): return r.cells[o][1] if o in r.cells else None
        out.append(((off, k, es), bv(g(off), es * 8) if k == 'int' and g(off) is not None else g(off) if k == 'int' else (g(off), g(off + 8), g(off + 16))))
    return out
def sizes(c, s):
    for (off, k, es), v in s:
        if k == 'mv': c.pre('vector sizes', ULT(bv(v[1]), bv(1 << 50)))
def mvname(cls): return cls

def sp_swap(cls):
    def sp(c):
        a, b = snap(c, cls, c.args[0]), snap(c, cls, c.args[1]); c.mod_objs += [c.args[0], c.args[1]]
        sizes(c, a); sizes(c, b)
        def post(c, r):
            x, y = snap(c, cls, c.args[0]), snap(c, cls, c.args[1])
            for new, old in ((x, b), (y, a)):
                for ((off, k, es), v), (_, o) in zip(new, old):
                    if k == 'int': c.post('member at +%d exchanged' % off, bool(v is not None) if v is None else v == o); continue
                    ok = isinstance(v[0], Ptr) and v[0].r == o[0].r and v[0].off == 0 and is_c(as_c(v[0].idx)) and as_c(v[0].idx) == 0 and v[2] is o[2]
                    c.post('vector at +%d exchanged with its ownership' % off, bool(ok)); c.post('size of vector at +%d exchanged' % off, bv(v[1]) == bv(o[1]))
                    c.post('storage at +%d kept' % off, bool(c.st.mem[o[0].r].alive))
        return post
    return sp
def a_swap(cls): return lambda v: [fill(v, cls, 'a', 'vec'), fill(v, cls, 'b', 'vec')]
def a_rt(cls, mflags, ka='map', kb='vec'):
    def f(v):
        a = fill(v, cls, 'a', ka); b = fill(v, cls, 'b', kb)
        fo = v.st.new_region('ofstream', size=512); o = v.st.new_region('out', size=24)
        for k in (0, 8, 16): o.cells[k] = (8, fresh('out'))
        return [a, b, Ptr(fo.rid), fresh('flags'), mflags if mflags is not None else fresh('mflags'), Ptr(o.rid)]
    return f
def sp_rt(cls):
    def sp(c):
        a, b = snap(c, cls, c.args[0]), snap(c, cls, c.args[1]); sizes(c, a); sizes(c, b)
        c.mod_objs += [c.args[1], c.args[5]]
        for _, v in b:
            if isinstance(v, tuple) and v[0].r is not None: c.mod_arrs.append(v[0].r)
        def post(c, r):
            w, rd, so = (c.rd(pofs(c.args[5], k)) for k in (0, 8, 16))
            want = bv(0)
            for (off, k, es), v in a: want = want + (bv(es) if k == 'int' else bv(8) + bv(binop('mul', v[1], es, 64)))
            c.post('size_of counts every member', so == want)
            c.post('bytes written are size_of plus the flags word', w == want + 8)
            c.post('bytes read equal bytes written', rd == w)
            n = snap(c, cls, c.args[1])
            for ((off, k, es), v), (_, o) in zip(n, a):
                if k == 'int': c.post('member at +%d' % off, False if v is None else v == o); continue
                c.post('size of vector at +%d' % off, bv(v[1]) == bv(o[1]))
                ok = isinstance(v[0], Ptr) and ('img', v[0].r) in c.st.ghost and isinstance(v[2], Del) and v[2].kind is None
                c.post('vector at +%d is a view of the image' % off, bool(ok))
                if not ok: continue
                seg = c.ex.img_at(c.st, v[0])
                hit = seg is not None and seg[0] == 'arr' and seg[1][1] == es and o[0].r is not None and seg[1][0].eq(c.st.mem[o[0].r].arr)
                c.post('vector at +%d holds the frozen elements' % off, UGE(bv(seg[2]), bv(binop('mul', o[1], es, 64))) if hit else bv(o[1]) == 0)
            for (off, k, es), v in b:
                if k == 'mv' and v[0].r is not None: c.post('storage held at +%d before is freed' % off, bool(not c.st.mem[v[0].r].alive))
        return post
    return sp
T = {'mv64': MV % 'unsigned long', 'mv16': MV % 'unsigned short', 'mv8': MV % 'unsigned char', 'bv': 'succinct::bit_vector', 'rs': 'succinct::rs_bit_vector',
     'da1': 'succinct::detail::darray<struct succinct::detail::identity_getter>', 'da0': 'succinct::detail::darray<struct succinct::detail::negating_getter>',
     'da64': 'succinct::darray64', 'ef': 'succinct::elias_fano', 'efl': 'succinct::elias_fano_list', 'efc': 'succinct::elias_fano_compressed_list',
     'gv': 'succinct::gamma_vector', 'gbv': 'succinct::gamma_bit_vector', 'bp': 'succinct::bp_vector', 'ct': 'succinct::cartesian_tree', 'nib': 'succinct::nibble_vector',
     'topk': 'succinct::topk_vector<struct succinct::elias_fano_compressed_list>'}
OWN = {'bv': ('C03',), 'rs': ('C05',), 'da1': ('C06',), 'da0': ('C06',), 'da64': ('C06',), 'ef': ('C07',), 'efl': ('C08',), 'efc': ('C08',), 'gv': ('C08',), 'gbv': ('C09',),
       'bp': ('C10', 'C11'), 'ct': ('C12',), 'topk': ('C13',)}
CONTRACTS = []
for n, cls in T.items():
    CONTRACTS += [Contract('swap.' + n, TU, 'h_swap_' + n, sp_swap(cls), a_swap(cls), props=('C14',) + OWN.get(n, ())),
                  Contract('image.' + n, TU, 'h_rt_' + n, sp_rt(cls), a_rt(cls, None), props=('C14',), loops=[LoopSpec(lambda x: [])] * 16)]
for n in ('mv64', 'rs', 'ef', 'bp'):
    CONTRACTS += [Contract('image.empty.' + n, TU, 'h_rt_' + n, sp_rt(T[n]), a_rt(T[n], 0, 'none', 'none'), props=('C14',), loops=[LoopSpec(lambda x: [])] * 16)]
