"""Models of library functions (assumed contracts): LLVM intrinsics, std::vector, boost::function, operator new/delete,
memcpy and friends.  Everything here is part of the trusted base and is listed in the evidence."""
import re, z3
from .vc import *
from . import ir as IR
from .spec import peek, poke, pofs

ESZ = {'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8, 'unsigned int': 4, 'int': 4, 'unsigned short': 2, 'short': 2, 'unsigned char': 1, 'signed char': 1, 'char': 1, 'double': 8}

INTRIN = {}
def intrin(pat):
    def d(f):
        INTRIN[re.compile(pat)] = f
        return f
    return d

# ---- bit intrinsics are interpreted by the spec functions registered here
UFS = {}

def ctz_def(x, w):
    r = bv(w, w)
    for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
    return r
def clz_def(x, w):
    r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r
def pop_def(x, w=64):
    """SWAR-free definition: sum of bits, as a balanced tree of narrow adders"""
    parts = [z3.ZeroExt(6, z3.Extract(i, i, x)) for i in range(w)]
    while len(parts) > 1:
        parts = [parts[i] + parts[i + 1] if i + 1 < len(parts) else parts[i] for i in range(0, len(parts), 2)]
    return z3.ZeroExt(w - 7, parts[0])

def m_ctpop(c):
    x = c.args[0]
    if is_c(as_c(x)): return bin(as_c(x)).count('1')
    f = c.ex.models.get('ctpop')
    return f(x) if f else pop_def(x, x.size())
def m_cttz(c):
    x = c.args[0]; w = c.tys[0].w
    if c.args[1] is True or c.args[1] == 1: c.oblige('ctz-argument-nonzero', icmp('ne', x, 0, w), 'safety')
    f = c.ex.models.get('cttz')
    if is_c(as_c(x)): v = as_c(x); return (v & -v).bit_length() - 1 if v else w
    return f(x) if f else ctz_def(x, w)
def m_ctlz(c):
    x = c.args[0]; w = c.tys[0].w
    if c.args[1] is True or c.args[1] == 1: c.oblige('clz-argument-nonzero', icmp('ne', x, 0, w), 'safety')
    f = c.ex.models.get('ctlz')
    if is_c(as_c(x)): return w - as_c(x).bit_length()
    return f(x) if f else clz_def(x, w)
def m_bswap(c):
    x = c.args[0]; w = c.tys[0].w
    if is_c(as_c(x)): return int.from_bytes(as_c(x).to_bytes(w // 8, 'little'), 'big')
    return z3.Concat(*[z3.Extract(i * 8 + 7, i * 8, x) for i in range(w // 8)])
def m_minmax(pred):
    def f(c):
        a, b = c.args; w = c.tys[0].w
        k = icmp(pred, a, b, w)
        if isinstance(k, bool): return a if k else b
        return z3.If(k, bv(a, w), bv(b, w))
    return f
def m_fsh(left):
    def f(c):
        a, b, n = [bv(x, c.tys[0].w) for x in c.args]; w = c.tys[0].w
        n = n & (w - 1)
        if left: return z3.If(n == 0, a, (a << n) | z3.LShR(b, w - n))
        return z3.If(n == 0, b, z3.LShR(b, n) | (a << (w - n)))
    return f
def m_nop(c): return None

def m_memcpy(c):
    dst, src, n = c.args[0], c.args[1], as_c(c.args[2])
    ex, st = c.ex, c.st
    if is_c(n) and n == 0: return
    rs = ex.norm(st, src, c.ins); rd = ex.norm(st, dst, c.ins, True)
    if is_c(n) and rs.arr is None and rd.arr is None and is_c(as_c(src.idx)) and is_c(as_c(dst.idx)):
        so = src.off + sgn(as_c(src.idx), 64) * src.sc; do = dst.off + sgn(as_c(dst.idx), 64) * dst.sc
        cells = {o: v for o, v in rs.cells.items() if so <= o < so + n}
        r = st.wr(dst.r)
        for o in [o for o in r.cells if do <= o < do + n]: del r.cells[o]
        for o, (sz, v) in cells.items(): st.setcell(dst.r, o - so + do, sz, v)
        return
    raise Undecided('memcpy')
def m_memset(c):
    dst, v, n = c.args[0], as_c(c.args[1]), as_c(c.args[2])
    ex, st = c.ex, c.st
    if is_c(n) and n == 0: return
    rd = ex.norm(st, dst, c.ins, True)
    if is_c(n) and is_c(v) and rd.arr is None and is_c(as_c(dst.idx)):
        do = dst.off + sgn(as_c(dst.idx), 64) * dst.sc
        r = st.wr(dst.r)
        for o in [o for o in r.cells if do <= o < do + n]: del r.cells[o]
        o = do
        while o < do + n:
            k = 8 if do + n - o >= 8 else 1
            st.setcell(dst.r, o, k, int.from_bytes(bytes([v]) * k, 'little')); o += k
        return
    raise Undecided('memset')

INTR = [
    (r'llvm\.ctpop\..*', m_ctpop), (r'llvm\.cttz\..*', m_cttz), (r'llvm\.ctlz\..*', m_ctlz), (r'llvm\.bswap\..*', m_bswap),
    (r'llvm\.umax\..*', m_minmax('ugt')), (r'llvm\.umin\..*', m_minmax('ult')), (r'llvm\.smax\..*', m_minmax('sgt')), (r'llvm\.smin\..*', m_minmax('slt')),
    (r'llvm\.umul\.with\.overflow\..*', lambda c: m_umulo(c)), (r'llvm\.fshl\..*', m_fsh(True)), (r'llvm\.fshr\..*', m_fsh(False)),
    (r'llvm\.prefetch.*', m_nop), (r'llvm\.(assume|lifetime.*|dbg.*|experimental.*)', m_nop),
    (r'llvm\.memcpy\..*', m_memcpy), (r'llvm\.memmove\..*', m_memcpy), (r'llvm\.memset\..*', m_memset),
]

# ------------------------------------------------------------------ std::vector
def vec_at(c, p=None):
    """(pointer, Vec) of the vector object p"""
    p = p if p is not None else c.args[0]
    c.ex.norm(c.st, p, c.ins)
    off = p.off + (sgn(as_c(p.idx), 64) * p.sc if is_c(as_c(p.idx)) else 0)
    cell = c.st.mem[p.r].cells.get(off)
    if cell is None or not isinstance(cell[1], Vec): raise Undecided('no std::vector value at %r' % p)
    return p, cell[1]
def vec_set(c, p, v): poke(c.st, p, 24, v)

def deref(c, p, es):
    """value behind a const T& argument"""
    return c.ex.load(c.st, p, IR.Ty('int', es * 8), c.ins)

def vec_new(c, es, name='vec'):
    r = c.st.new_array(name, es, 0)
    return Vec(0, r.rid, es)

def realloc(c, v, n, arr):
    """contents arr, size n in fresh storage; the old storage is dead"""
    old = c.st.mem[v.rid]
    r = c.st.new_array(old.name.split('!')[0], v.es, n, arr)
    o = c.st.wr(v.rid); o.alive = False
    if c.st.wlog is not None: c.st.wlog.add(('arr', v.rid))
    return Vec(n, r.rid, v.es)

def v_ctor(c, es): vec_set(c, c.args[0], vec_new(c, es))
def v_ctor_n(c, es):
    n = c.args[1]
    r = c.st.new_array('vec', es, n, z3.K(z3.BitVecSort(64), z3.BitVecVal(0, es * 8)))
    vec_set(c, c.args[0], Vec(n, r.rid, es))
def v_ctor_nv(c, es):
    n = c.args[1]; x = deref(c, c.args[2], es)
    r = c.st.new_array('vec', es, n, z3.K(z3.BitVecSort(64), bv(x, es * 8)))
    vec_set(c, c.args[0], Vec(n, r.rid, es))
def v_copy(c, es):
    p, v = vec_at(c, c.args[1])
    r = c.st.new_array('vec', es, v.size, c.st.mem[v.rid].arr)
    vec_set(c, c.args[0], Vec(v.size, r.rid, es))
def v_move(c, es):
    p, v = vec_at(c, c.args[1])
    vec_set(c, c.args[0], v); vec_set(c, p, vec_new(c, es))
def v_assign_copy(c, es):
    v_copy(c, es); return c.args[0]
def v_assign_move(c, es):
    v_move(c, es); return c.args[0]
def v_dtor(c, es):
    try: p, v = vec_at(c)
    except Undecided: return
    o = c.st.wr(v.rid); o.alive = False
def v_size(c, es): return vec_at(c)[1].size
def v_empty(c, es): return icmp('eq', vec_at(c)[1].size, 0, 64)
def v_index(c, es):
    p, v = vec_at(c)
    i = c.args[1]
    return Ptr(v.rid, 0, i, es) if not is_c(as_c(i)) else Ptr(v.rid, as_c(i) * es)
def v_at(c, es):
    p, v = vec_at(c)
    c.oblige('vector::at in range', icmp('ult', c.args[1], v.size, 64), 'safety')
    return v_index(c, es)
def v_back(c, es):
    p, v = vec_at(c)
    c.oblige('vector::back non-empty', icmp('ne', v.size, 0, 64), 'safety')
    i = binop('sub', v.size, 1, 64)
    return Ptr(v.rid, 0, i, es) if not is_c(as_c(i)) else Ptr(v.rid, as_c(i) * es)
def v_front(c, es):
    p, v = vec_at(c)
    c.oblige('vector::front non-empty', icmp('ne', v.size, 0, 64), 'safety')
    return Ptr(v.rid)
def v_data(c, es): return Ptr(vec_at(c)[1].rid)
def v_end(c, es):
    p, v = vec_at(c)
    return Ptr(v.rid, 0, v.size, es) if not is_c(as_c(v.size)) else Ptr(v.rid, as_c(v.size) * es)
def v_push(c, es):
    p, v = vec_at(c)
    x = c.args[1]
    x = deref(c, x, es) if isinstance(x, Ptr) else x
    arr = z3.Store(c.st.mem[v.rid].arr, bv(v.size), bv(x, es * 8))
    vec_set(c, p, realloc(c, v, binop('add', v.size, 1, 64), arr))
def v_emplace(c, es):
    v_push(c, es); return v_back(c, es)
def v_pop(c, es):
    p, v = vec_at(c)
    c.oblige('vector::pop_back non-empty', icmp('ne', v.size, 0, 64), 'safety')
    n = binop('sub', v.size, 1, 64)
    r = c.st.wr(v.rid); r.ln = n
    vec_set(c, p, Vec(n, v.rid, es))
def v_resize(c, es, val=None):
    p, v = vec_at(c)
    n = c.args[1]
    x = deref(c, c.args[2], es) if len(c.args) > 2 else 0
    old = c.st.mem[v.rid].arr
    cn, co = as_c(n), as_c(v.size)
    if is_c(co) and co == 0: arr = z3.K(z3.BitVecSort(64), bv(x, es * 8))
    else:
        arr = fresh_arr('resized', es * 8)
        osz = bv(v.size)
        new = arr
        c.st.assume(Forall(lambda i: z3.Select(new, i) == z3.If(z3.ULT(i, osz), z3.Select(old, i), bv(x, es * 8)),
                           trig=lambda ix: [(t,) for t in ix.selects(new)] + [(t,) for t in ix.selects(old)], name='resize'))
    vec_set(c, p, realloc(c, v, n, arr))
def v_reserve(c, es):
    p, v = vec_at(c)
    vec_set(c, p, realloc(c, v, v.size, c.st.mem[v.rid].arr))
def v_shrink(c, es): v_reserve(c, es)
def v_clear(c, es):
    p, v = vec_at(c)
    vec_set(c, p, realloc(c, v, 0, c.st.mem[v.rid].arr))
def v_swap(c, es):
    p, v = vec_at(c); q, w = vec_at(c, c.args[1])
    vec_set(c, p, w); vec_set(c, q, v)
def v_cap(c, es):
    p, v = vec_at(c)
    k = fresh('capacity'); c.st.assume(z3.UGE(k, bv(v.size))); return k

def v_insert_n(c, es):
    # iterator insert(const_iterator pos, size_type n, const T& val), only at end()
    p, v = vec_at(c)
    it = c.args[1]
    if isinstance(it, Ptr) and it.r != v.rid: raise Undecided('insert: foreign iterator')
    pos = binop('add', binop('mul', it.idx, it.sc, 64), it.off & MASK[64], 64)
    c.require('insert at end()', icmp('eq', pos, binop('mul', v.size, es, 64), 64))
    n = c.args[2]; x = deref(c, c.args[3], es)
    old = c.st.mem[v.rid].arr
    arr = fresh_arr('inserted', es * 8); osz = bv(v.size)
    c.st.assume(Forall(lambda i: z3.Select(arr, i) == z3.If(z3.ULT(i, osz), z3.Select(old, i), bv(x, es * 8)),
                       trig=lambda ix: [(t,) for t in ix.selects(arr)] + [(t,) for t in ix.selects(old)], name='insert'))
    v2 = realloc(c, v, binop('add', v.size, n, 64), arr)
    vec_set(c, p, v2)
    return Ptr(v2.rid, 0, v.size, es)

VECM = [
    (r'vector\(\)', v_ctor), (r'vector\(std::allocator<.*> const&\)', v_ctor),
    (r'vector\(unsigned long, std::allocator<.*> const&\)', v_ctor_n),
    (r'vector\(unsigned long, [^,]* const&, std::allocator<.*> const&\)', v_ctor_nv),
    (r'vector\(std::vector<.*> const&\)', v_copy), (r'vector\(std::vector<.*>&&\)', v_move),
    (r'operator=\(std::vector<.*> const&\)', v_assign_copy), (r'operator=\(std::vector<.*>&&\)', v_assign_move),
    (r'~vector\(\)', v_dtor), (r'size\(\) const', v_size), (r'empty\(\) const', v_empty),
    (r'operator\[\]\(unsigned long\)( const)?', v_index), (r'at\(unsigned long\)( const)?', v_at),
    (r'back\(\)( const)?', v_back), (r'front\(\)( const)?', v_front), (r'c?begin\(\)( const)?', v_data), (r'data\(\)( const)?', v_data),
    (r'c?end\(\)( const)?', v_end), (r'push_back\(.*\)', v_push), (r'emplace_back<.*>\(.*\)', v_emplace), (r'pop_back\(\)', v_pop),
    (r'resize\(unsigned long\)', v_resize), (r'resize\(unsigned long, .*\)', v_resize), (r'reserve\(unsigned long\)', v_reserve),
    (r'insert\(__gnu_cxx::__normal_iterator<.*>, unsigned long, .* const&\)', v_insert_n),
    (r'shrink_to_fit\(\)', v_shrink), (r'clear\(\)', v_clear), (r'swap\(std::vector<.*>&\)', v_swap), (r'capacity\(\) const', v_cap),
]
VECM = [(re.compile(p), f) for p, f in VECM]

def split_vec(d):
    """'RET std::vector<T, std::allocator<T>>::method(args)' -> (T, method) """
    i = d.find('std::vector<')
    if i < 0: return None
    if '(' in d[:i] : return None
    j = i + len('std::vector<'); k = j; depth = 1; comma = None
    while depth:
        ch = d[k]
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == ',' and depth == 1 and comma is None: comma = k
        k += 1
    T = d[j:comma if comma else k - 1].strip()
    if d[k:k + 2] != '::': return None
    return T, d[k + 2:]

def vec_model(d):
    tm = split_vec(d)
    if not tm: return None
    T, m = tm
    if T == 'bool': return None
    for p, f in VECM:
        if p.fullmatch(m):
            es = ESZ.get(T)
            if es is None: return lambda c, m=m, T=T: _und('std::vector<%s>::%s' % (T, m))
            return lambda c, f=f, es=es: f(c, es)
    return None
def _und(w): raise Undecided(w)

# ------------------------------------------------------------------ allocation, boost::function
def m_new(c):
    n = as_c(c.args[0])
    if not is_c(n):
        r = c.st.new_region('heap[]'); c.st.ghost[('heapsz', r.rid)] = n
        return Ptr(r.rid)
    r = c.st.new_region('heap', size=n)
    return Ptr(r.rid)
def as_array(c, rid, es):
    """give a heap block of symbolic byte size its element type on first use"""
    r = c.st.mem[rid]
    if r.arr is None and ('heapsz', rid) in c.st.ghost:
        r = c.st.wr(rid); r.es = es; r.arr = fresh_arr('heap', es * 8)
        r.ln = z3.LShR(bv(c.st.ghost[('heapsz', rid)]), {1: 0, 2: 1, 4: 2, 8: 3}[es])
    return r
def m_umulo(c):
    a, b = c.args; w = c.tys[0].w
    A, B = bv(a, w), bv(b, w)
    return [binop('mul', a, b, w), z3.Not(z3.BVMulNoOverflow(A, B, False))]
def m_delete(c):
    p = c.args[0]
    if isinstance(p, Ptr) and p.r is not None and p.r in c.st.mem:
        r = c.st.wr(p.r); r.alive = False

PAT = [
    (r'operator new(\[\])?\(unsigned long\)', m_new), (r'operator delete(\[\])?\(void\*(, unsigned long)?\)', m_delete),
]
# boost::function<void()> deleters: empty, or bound to delete_array / delete_ptr of one pointer
def dget(c, p):
    off = p.off + (sgn(as_c(p.idx), 64) * p.sc if is_c(as_c(p.idx)) else 0)
    cell = c.st.mem[p.r].cells.get(off)
    return cell[1] if cell is not None and isinstance(cell[1], Opaque) else None
def dset(c, p, n, v):
    off = p.off + (sgn(as_c(p.idx), 64) * p.sc if is_c(as_c(p.idx)) else 0)
    r = c.st.wr(p.r)
    for o in [o for o in r.cells if off < o < off + n]: del r.cells[o]
    c.st.setcell(p.r, off, n, v)
def m_bf_none(c): dset(c, c.args[0], 32, Del())
def m_bind(c):
    d = c.ex.models['demangle'](c.name)
    k = 'array' if 'bind<boost::lambda::delete_array' in d else 'ptr' if 'bind<boost::lambda::delete_ptr' in d else None
    if k is None: raise Undecided('boost::lambda::bind of something else')
    dset(c, c.args[0], 16, Del(k, c.ex.load(c.st, c.args[2], IR.PTR, c.ins)))
def m_lf_copy(c):
    v = dget(c, c.args[1])
    if v is None: raise Undecided('lambda_functor copy')
    dset(c, c.args[0], 16, v)
def m_bf_from(c):
    v = dget(c, c.args[1])
    if v is None: raise Undecided('boost::function from unknown functor')
    dset(c, c.args[0], 32, v)
def m_bf_swap(c):
    a, b = dget(c, c.args[0]), dget(c, c.args[1])
    if a is None or b is None: raise Undecided('boost::function::swap operands')
    dset(c, c.args[0], 32, b); dset(c, c.args[1], 32, a)
def m_bf_bool(c):
    d = dget(c, c.args[0])
    if not isinstance(d, Del): raise Undecided('unknown deleter')
    return [1 if d.kind else 0, 0]
def m_bf_call(c):
    d = dget(c, c.args[0])
    if not isinstance(d, Del): raise Undecided('unknown deleter')
    c.oblige('deleter is not empty', bool(d.kind), 'safety')
    rid = d.p.r
    if rid is None: return
    r = c.st.mem[rid]
    c.oblige('storage freed once', bool(r.alive), 'safety')
    if not r.alive: return
    r = c.st.wr(rid); r.alive = False
    if c.st.wlog is not None: c.st.wlog.add(('arr', rid))
    if d.kind == 'ptr':
        for o, (n, v) in r.cells.items():
            if isinstance(v, Vec): q = c.st.wr(v.rid); q.alive = False
def eidx(c, p, es):
    i = c.ex.arr_index(c.st.mem[p.r], p)
    if i is None: raise Undecided('iterator alignment')
    return i
def m_copy(c):
    f, l, d = c.args
    for q in (f, l, d):
        if not isinstance(q, Ptr) or q.r is None: raise Undecided('std::copy arguments')
    rs = c.ex.norm(c.st, f, c.ins)
    if rs.arr is not None: as_array(c, d.r, rs.es)
    rd = c.ex.norm(c.st, d, c.ins, True)
    if f.r == d.r or f.r != l.r or rs.arr is None or rd.arr is None or rs.es != rd.es: raise Undecided('std::copy operands')
    a, b, o = bv(eidx(c, f, rs.es)), bv(eidx(c, l, rs.es)), bv(eidx(c, d, rd.es))
    c.require('copy: source range valid', z3.And(z3.ULE(a, b), z3.ULE(b, bv(rs.ln))))
    c.require('copy: destination in bounds', z3.And(z3.ULE(o, bv(rd.ln)), z3.ULE(b - a, bv(rd.ln) - o)))
    new = fresh_arr('copied', rd.es * 8); old = rd.arr; src = rs.arr
    c.st.assume(Forall(lambda i: z3.Select(new, i) == z3.If(z3.And(z3.UGE(i, o), z3.ULT(i - o, b - a)), z3.Select(src, a + (i - o)), z3.Select(old, i)),
                       trig=lambda ix: [(t,) for t in ix.selects(new)], name='copy'))
    c.st.setarr(d.r, new)
    return Ptr(d.r, 0, o + (b - a), rd.es)
def m_reverse(c):
    f, l = c.args
    r = c.ex.norm(c.st, f, c.ins, True)
    if f.r != l.r or r.arr is None: raise Undecided('std::reverse operands')
    a, b = bv(eidx(c, f, r.es)), bv(eidx(c, l, r.es))
    c.require('reverse: range valid', z3.And(z3.ULE(a, b), z3.ULE(b, bv(r.ln))))
    new = fresh_arr('reversed', r.es * 8); old = r.arr
    c.st.assume(Forall(lambda i: z3.Select(new, i) == z3.If(z3.And(z3.UGE(i, a), z3.ULT(i, b)), z3.Select(old, a + b - 1 - i), z3.Select(old, i)),
                       trig=lambda ix: [(t,) for t in ix.selects(new)], name='reverse'))
    c.st.setarr(f.r, new)
def m_swapw(c):
    for w in (64,):
        a = c.ex.load(c.st, c.args[0], IR.I64, c.ins); b = c.ex.load(c.st, c.args[1], IR.I64, c.ins)
        c.ex.store(c.st, c.args[0], IR.I64, b, c.ins); c.ex.store(c.st, c.args[1], IR.I64, a, c.ins)
PAT += [(r'(.* )?std::copy<(__gnu_cxx::__normal_iterator<)?(unsigned )?(long|short|int|char).*', m_copy), (r'(.* )?std::reverse<__gnu_cxx::__normal_iterator<.*', m_reverse)]
def m_ostream_write(c):
    """std::ostream::write(p, n): the stream receives the n bytes at p"""
    f, p, n = c.args; st = c.st; key = ('file', f.r)
    segs = st.ghost.get(key, ()); cn = as_c(n)
    if is_c(cn) and cn == 0: return f
    if isinstance(p, Ptr) and p.r is None:
        c.require('write: null source only for zero bytes', bv(n) == 0); return f
    r = c.ex.norm(st, p, c.ins)
    if r.arr is not None:
        i = as_c(p.idx)
        if not (is_c(i) and i == 0 and p.off == 0): raise Undecided('ostream::write from the middle of an array')
        c.require('write: source in bounds', z3.ULE(bv(n), bv(binop('mul', r.ln, r.es, 64))))
        seg = ('arr', (r.arr, r.es), n)
    elif is_c(cn) and cn in (1, 2, 4, 8): seg = ('val', c.ex.load(st, p, IR.Ty('int', cn * 8), c.ins), cn)
    else: raise Undecided('ostream::write of an object')
    st.ghost[key] = segs + (seg,)
    if st.wlog is not None: st.wlog.add(('ghost', key))
    return f
def m_image(c):
    r = c.st.new_region('image'); r.ro = True
    c.st.ghost[('img', r.rid)] = c.st.ghost.get(('file', c.args[0].r), ())
    return Ptr(r.rid)
PAT += [(r'(std::ostream|std::basic_ostream<char, .*>)::write\(char const\*, long\)', m_ostream_write), (r'vp_image', m_image)]
PAT += [(r'boost::function<void \(\)>::function\(\)', m_bf_none), (r'boost::function<void \(\)>::~function\(\)', m_nop),
        (r'boost::function<void \(\)>::function<boost::lambda::.*', m_bf_from), (r'boost::function<void \(\)>::function\(boost::function<void \(\)> const&\)', m_bf_from),
        (r'boost::function0<void>::swap\(.*', m_bf_swap), (r'boost::function0<void>::operator void .*', m_bf_bool), (r'boost::function0<void>::operator\(\)\(\) const', m_bf_call),
        (r'boost::function0<void>::~function0\(\)', m_nop),
        (r'boost::lambda::lambda_functor<.*const boost::lambda::bind<.*', m_bind), (r'boost::lambda::lambda_functor<.*>::lambda_functor\(boost::lambda::.* const&\)', m_lf_copy)]
def m_mapped_data(c):
    return Ptr(c.st.ghost['mapped'][0])
def m_mapped_size(c): return c.st.ghost['mapped'][1]
PAT += [(r'boost::iostreams::mapped_file_source::data\(\) const', m_mapped_data), (r'boost::iostreams::mapped_file_source::size\(\) const', m_mapped_size)]
PAT = [(re.compile(p), f) for p, f in PAT]
INTR = [(re.compile(p), f) for p, f in INTR]

def lookup(mangled, demangled):
    if mangled == 'fgets': return m_fgets
    if mangled.startswith('llvm.'):
        for p, f in INTR:
            if p.fullmatch(mangled): return f
        return None
    d = re.sub(r'^(void|bool|unsigned long|auto|decltype\(auto\)) (?=std::|boost::)', '', demangled)
    v = vec_model(d) or str_model(demangled)
    if v: return v
    for p, f in PAT:
        if p.fullmatch(d) or p.fullmatch(demangled): return f
    return None

# ------------------------------------------------------------------ std::string (a vector of chars without its terminator)
CS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
def s_copy_in(c, A, n, src, m):
    """array: A[0..n) followed by m chars read at src"""
    r = c.ex.norm(c.st, src, c.ins)
    if r.arr is None: raise Undecided('string from a non-array')
    o = bv(eidx(c, src, 1))
    c.require('source of a string in bounds', z3.And(z3.ULE(o, bv(r.ln)), z3.ULE(bv(m), bv(r.ln) - o)))
    new = fresh_arr('str', 8); S = r.arr; n, m = bv(n), bv(m)
    c.st.assume(Forall(lambda i: z3.Select(new, i) == z3.If(z3.ULT(i, n), z3.Select(A, i), z3.If(z3.ULT(i - n, m), z3.Select(S, o + (i - n)), z3.Select(A, i))),
                       trig=lambda ix: [(t,) for t in ix.selects(new)], name='str'))
    return new
def s_cstr(c, src):
    """length of the C string at src"""
    r = c.ex.norm(c.st, src, c.ins)
    if r.arr is None: raise Undecided('C string in a non-array')
    o = bv(eidx(c, src, 1)); L = fresh('strlen'); S = r.arr; h = c.st.ghost.get('nul')
    z = h(r.rid) if h else None
    if z is not None: c.require('terminated', z3.And(z3.ULE(o, z), z3.ULT(z, bv(r.ln)), z3.Select(S, z) == 0)); c.st.assume(z3.ULE(L, z - o))
    else: raise Undecided('C string of unknown extent')
    c.st.assume(z3.Select(S, o + L) == 0)
    c.st.assume(Forall(lambda i: z3.Implies(z3.ULT(i, L), z3.Select(S, o + i) != 0), trig=lambda ix: [(t - o,) for t in ix.selects(S)], name='strlen'))
    return L
def s_new(c, A, n):
    r = c.st.new_array('str', 1, n, A); vec_set(c, c.args[0], Vec(n, r.rid, 1))
def s_empty(c): return z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
def s_ctor(c, es): s_new(c, s_empty(c), 0)
def s_ctor_pn(c, es): s_new(c, s_copy_in(c, s_empty(c), 0, c.args[1], c.args[2]), c.args[2])
def s_ctor_p(c, es):
    n = s_cstr(c, c.args[1]); s_new(c, s_copy_in(c, s_empty(c), 0, c.args[1], n), n)
def s_append_pn(c, es):
    p, v = vec_at(c); n = c.args[2]
    vec_set(c, p, realloc(c, v, binop('add', v.size, n, 64), s_copy_in(c, c.st.mem[v.rid].arr, v.size, c.args[1], n)))
    return c.args[0]
def s_append_p(c, es):
    p, v = vec_at(c); n = s_cstr(c, c.args[1])
    vec_set(c, p, realloc(c, v, binop('add', v.size, n, 64), s_copy_in(c, c.st.mem[v.rid].arr, v.size, c.args[1], n)))
    return c.args[0]
def s_append_s(c, es):
    p, v = vec_at(c); q, w = vec_at(c, c.args[1])
    vec_set(c, p, realloc(c, v, binop('add', v.size, w.size, 64), s_copy_in(c, c.st.mem[v.rid].arr, v.size, Ptr(w.rid), w.size)))
    return c.args[0]
def s_assign_pn(c, es):
    p, v = vec_at(c); n = c.args[2]
    vec_set(c, p, realloc(c, v, n, s_copy_in(c, s_empty(c), 0, c.args[1], n))); return c.args[0]
def s_push(c, es):
    p, v = vec_at(c); x = c.args[1]
    vec_set(c, p, realloc(c, v, binop('add', v.size, 1, 64), z3.Store(c.st.mem[v.rid].arr, bv(v.size), bv(x, 8))))
def s_pluseq_c(c, es):
    s_push(c, es); return c.args[0]
def s_rend(c, es):                                  # reverse_iterator returned through its first argument
    p, v = vec_at(c, c.args[1]); e = Ptr(v.rid, 0, v.size, 1) if not is_c(as_c(v.size)) else Ptr(v.rid, as_c(v.size))
    poke(c.st, c.args[0], 8, e)
def s_index(c, es):
    p, v = vec_at(c); c.oblige('string index in range', icmp('ule', c.args[1], v.size, 64), 'safety')
    return v_index(c, es)
def s_resize(c, es):
    p, v = vec_at(c); n = c.args[1]
    if len(c.args) == 2 or is_c(as_c(c.args[2])):
        old = c.st.mem[v.rid].arr; osz = bv(v.size); new = fresh_arr('resized', 8); x = bv(as_c(c.args[2]) if len(c.args) > 2 else 0, 8)
        c.st.assume(Forall(lambda i: z3.Select(new, i) == z3.If(z3.ULT(i, osz), z3.Select(old, i), x), trig=lambda ix: [(t,) for t in ix.selects(new)], name='resize'))
        return vec_set(c, p, realloc(c, v, n, new))
    raise Undecided('string::resize')
def s_clear(c, es):
    p, v = vec_at(c); vec_set(c, p, realloc(c, v, 0, s_empty(c)))
def s_copy(c, es):
    p, v = vec_at(c, c.args[1]); s_new(c, c.st.mem[v.rid].arr, v.size)
def s_move(c, es):
    p, v = vec_at(c, c.args[1]); vec_set(c, c.args[0], v); r = c.st.new_array('str', 1, 0, s_empty(c)); vec_set(c, p, Vec(0, r.rid, 1))
def s_assign_copy(c, es): s_copy(c, es); return c.args[0]
def s_assign_move(c, es): s_move(c, es); return c.args[0]
STRM = [
    (r'basic_string\(\)', s_ctor), (r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)', s_ctor_pn), (r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', s_ctor_p),
    (r'basic_string\(@S const&\)', s_copy), (r'basic_string\(@S&&\)', s_move), (r'~basic_string\(\)', v_dtor), (r'(size|length)\(\) const', v_size), (r'empty\(\) const', v_empty),
    (r'operator\[\]\(unsigned long\)( const)?', s_index), (r'at\(unsigned long\)( const)?', v_at), (r'(back)\(\)( const)?', v_back), (r'front\(\)( const)?', v_front),
    (r'(c?begin|data|c_str)\(\)( const)?', v_data), (r'c?end\(\)( const)?', v_end), (r'c?rbegin\(\)( const)?', s_rend), (r'push_back\(char\)', s_push), (r'operator\+=\(char\)', s_pluseq_c), (r'pop_back\(\)', v_pop),
    (r'(operator\+=|append)\(char const\*\)', s_append_p), (r'(operator\+=|append)\(@S const&\)', s_append_s), (r'append\(char const\*, unsigned long\)', s_append_pn), (r'assign\(char const\*, unsigned long\)', s_assign_pn),
    (r'resize\(unsigned long(, char)?\)', s_resize), (r'clear\(\)', s_clear), (r'reserve\(unsigned long\)', v_reserve), (r'swap\(@S&\)', v_swap), (r'operator=\(@S const&\)', s_assign_copy), (r'operator=\(@S&&\)', s_assign_move),
]
STRM = [(re.compile(p.replace('@S', re.escape(CS))), f) for p, f in STRM]
def str_model(d):
    i = d.find(CS + '::')
    if i < 0 or '(' in d[:i]: return None
    m = d[i + len(CS) + 2:]
    for p, f in STRM:
        if p.fullmatch(m): return lambda c, f=f: f(c, 1)
    return lambda c, m=m: _und('std::string::%s' % m)
def m_fgets(c):
    """fgets(buf, n, f): up to and including the next newline, at most n - 1 chars; the stream is the ghost text (T, N) read up to pos"""
    buf, n, f = c.args; st = c.st; key = ('fpos', f.r)
    if key not in st.ghost: raise Undecided('fgets on an unknown stream')
    T, N = st.ghost[('text', f.r)]; pos = st.ghost[key]; n = bv(n, 32) if not z3.is_bv(as_c(n)) else n
    n = z3.ZeroExt(32, n) if n.size() == 32 else n
    r = c.ex.norm(st, buf, c.ins, True)
    if r.arr is None: r = as_bytes(c, buf.r)
    o = bv(eidx(c, buf, 1))
    c.require('fgets: room for n chars', z3.And(n != 0, z3.ULT(n, bv(1 << 31)), z3.ULE(o, bv(r.ln)), z3.ULE(n, bv(r.ln) - o)))
    k = fresh('got'); new = fresh_arr('buf', 8); old = r.arr
    st.assume(Forall(lambda i: z3.And(z3.Implies(z3.ULT(i - o, k), z3.Select(new, i) == z3.Select(T, pos + (i - o))), z3.Implies(i - o == k, z3.Implies(k != 0, z3.Select(new, i) == 0))),
                     trig=lambda ix: [(t,) for t in ix.selects(new)], name='fgets'))
    st.assume(Forall(lambda i: z3.Implies(z3.And(z3.ULE(pos, i), z3.ULT(i + 1, pos + k)), z3.Select(T, i) != 10), trig=lambda ix: [(t,) for t in ix.selects(T)], name='fgets1'))
    nl = z3.Select(T, pos + k - 1) == 10
    st.assume(z3.And(z3.ULE(k, n - 1), z3.ULE(k, N - pos), (k == 0) == z3.Or(pos == N, n == 1), z3.Implies(k != 0, z3.Or(nl, k == n - 1, k == N - pos)), z3.Implies(k != 0, z3.Select(new, o + k) == 0)))
    st.setarr(buf.r, new); st.ghost[key] = z3.simplify(pos + k); st.ghost['nul'] = lambda rid, b=buf.r, z=o + k: z if rid == b else None
    if st.wlog is not None: st.wlog.add(('ghost', key))
    return Fork([(k == 0, lambda call: NULL), (k != 0, lambda call: buf)])
def as_bytes(c, rid):
    r = c.st.wr(rid); r.es = 1; r.arr = fresh_arr('chars', 8); r.ln = r.size; return r
