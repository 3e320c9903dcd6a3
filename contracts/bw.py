"""broadword.hpp / intrinsics.hpp: exact word primitives (C01)."""
from engine.spec import *
from engine.models import pop_def, ctz_def, clz_def
import z3

B8 = lambda x, i: z3.Extract(8 * i + 7, 8 * i, x)
def bits(x): return [z3.Extract(i, i, x) for i in range(x.size())]
def lowmask(n):
    """(1<<n)-1 for n<64, all ones for n>=64"""
    return z3.If(z3.UGE(n, bv(64)), bv(-1), (bv(1) << n) - 1)
def pc8(b):
    s = z3.BitVecVal(0, 8)
    for i in range(8): s = s + z3.ZeroExt(7, z3.Extract(i, i, b))
    return s

def pcw(x):
    """popcount as the sum of the popcounts of the bytes"""
    r = bv(0)
    for i in range(8): r = r + z3.ZeroExt(56, pc8(B8(x, i)))
    return r
def rankw(x, r):
    """number of ones of x below position r (r < 64), by bytes"""
    out = bv(0); S = bv(0); res = []
    for j in range(8):
        part = B8(x, j) & ((z3.BitVecVal(1, 8) << (z3.Extract(7, 0, r) & 7)) - 1)
        res.append((j, S + z3.ZeroExt(56, pc8(part))))
        S = S + z3.ZeroExt(56, pc8(B8(x, j)))
    e = res[7][1]
    for j, t in reversed(res[:7]): e = z3.If(z3.LShR(r, 3) == j, t, e)
    return e
def rank_case(x, r, j):
    S = bv(0)
    for i in range(j): S = S + z3.ZeroExt(56, pc8(B8(x, i)))
    part = B8(x, j) & ((z3.BitVecVal(1, 8) << (z3.Extract(7, 0, r) & 7)) - 1)
    return S + z3.ZeroExt(56, pc8(part))

def sel8(byte, rank):
    """position of the rank-th one of an 8-bit byte (8 if there is none), rank 3 bits: as a circuit"""
    r = z3.BitVecVal(8, 8)
    for i in reversed(range(8)):
        cnt = z3.BitVecVal(0, 4)
        for j in range(i): cnt = cnt + z3.ZeroExt(3, z3.Extract(j, j, byte))
        r = z3.If(z3.And(z3.Extract(i, i, byte) == 1, cnt == rank), z3.BitVecVal(i, 8), r)
    return r

def select_table(ex, st, r, p, t, ins):
    """symbolic read of tables::select_in_byte: every entry is checked, then the read is its meaning"""
    cells = r.cells
    ok = True
    for rank in range(8):
        for b in range(256):
            pos = [i for i in range(8) if b >> i & 1]
            c = cells.get(rank * 256 + b)
            if c is None or c[0] != 1 or not is_c(c[1]): raise Undecided('select_in_byte table layout')
            if rank < len(pos) and c[1] != pos[rank]: ok = False
    ex.oblige(st, 'table select_in_byte: all 2048 entries', 'table', ok, ins)
    i = bv(p.idx)
    if p.sc != 1 or p.off != 0: raise Undecided('select_in_byte access')
    ex.oblige(st, 'in-bounds-table-read', 'safety', z3.ULT(i, bv(2048)), ins)
    byte = z3.Extract(7, 0, i); rank = z3.Extract(11, 8, i)
    s = sel8(byte, rank)
    u = fresh('selu', 8)   # entries with rank >= popcount are unspecified
    return z3.If(z3.ULT(z3.ZeroExt(4, rank), pc8(byte)), s, u)

GI = {('symload', '@_ZN8succinct6tablesL14select_in_byteE'): select_table}

def x1(v): return [fresh('x')]
def xy(v): return [fresh('x'), fresh('y')]
def xptr(v):
    r = v.st.new_region('out', size=8); r.cells[0] = (8, fresh('out0'))
    return [fresh('x'), Ptr(r.rid)]

def sp_popcount(c):
    x = c.a(0)
    def post(c, r): c.post('number of ones', r == pcw(x))
    return post
def sp_byte_counts(c):
    x = c.a(0)
    def post(c, r):
        for i in range(8): c.post('byte %d holds its popcount' % i, B8(r, i) == pc8(B8(x, i)))
    return post
def sp_bytes_sum(c):
    x = c.a(0)
    tot = bv(0)
    for i in range(8): tot = tot + z3.ZeroExt(56, B8(x, i))
    c.pre('sum of bytes fits a byte', z3.ULT(tot, bv(256)))
    def post(c, r):
        c.post('sum of bytes', r == tot)
    return post
def sp_revbytes(c):
    x = c.a(0)
    def post(c, r): c.post('bytes reversed', r == z3.Concat(*[B8(x, i) for i in range(8)]))
    return post
def sp_revbits(c):
    x = c.a(0)
    def post(c, r): c.post('bits reversed', r == z3.Concat(*bits(x)))
    return post
def sp_select(c):
    x, k = c.a(0), c.a(1)
    c.pre('k < popcount', z3.ULT(k, pcw(x)))
    S = [bv(0)]
    for j in range(8): S.append(S[-1] + z3.ZeroExt(56, pc8(B8(x, j))))
    def post(c, r):
        # exhaustive case split on the byte that holds the answer (S_j <= k < S_{j+1})
        for j in range(8):
            g = z3.And(z3.ULE(S[j], k), z3.ULT(k, S[j + 1]))
            c.post('answer in byte %d' % j, z3.Implies(g, z3.LShR(r, 3) == j))
            c.post('a one is there, byte %d' % j, z3.Implies(g, (z3.LShR(B8(x, j), z3.Extract(7, 0, r) & 7) & 1) == 1))
            c.post('exactly k ones before it, byte %d' % j, z3.Implies(g, rank_case(x, r, j) == k))
        c.post('cases exhaustive', z3.Or(*[z3.And(z3.ULE(S[j], k), z3.ULT(k, S[j + 1])) for j in range(8)]))
    return post
def sp_same_msb(c):
    x, y = c.a(0), c.a(1)
    def post(c, r): c.post('same msb', (r == 1) == z3.Or(z3.And(x == 0, y == 0), z3.And(x != 0, y != 0, clz_def(x, 64) == clz_def(y, 64)))); c.post('bool', z3.ULE(r, bv(1)))
    return post
def sp_msb2(hi):
    def sp(c):
        x, p = c.a(0), c.args[1]
        old = c.rd(p)
        c.modifies(p, 8)
        def post(c, r):
            n = c.rd(p)
            c.post('returns whether non-zero', bo(r) == (x != 0))
            c.post('position', z3.Implies(x != 0, n == (bv(63) - clz_def(x, 64) if hi else ctz_def(x, 64))))
            c.post('untouched on zero', z3.Implies(x == 0, n == old))
        return post
    return sp
def sp_msb(hi):
    def sp(c):
        x = c.a(0)
        c.pre('non-zero', x != 0)
        def post(c, r): c.post('position', z3.ZeroExt(56, bv(r, 8)) == (bv(63) - clz_def(x, 64) if hi else ctz_def(x, 64)))
        return post
    return sp
def sp_msbx(c):
    x = c.a(0); c.pre('non-zero', x != 0)
    def post(c, r):
        n = z3.ZeroExt(56, bv(r, 8)); c.post('the top bit', z3.And(z3.ULT(n, bv(64)), z3.LShR(x, n) == 1))
    return post
def sp_bitpos(c):
    x = c.a(0)
    c.pre('one bit', z3.And(x != 0, (x & (x - 1)) == 0))
    def post(c, r): c.post('position', (bv(1) << z3.ZeroExt(56, bv(r, 8))) == x); c.post('<64', z3.ULT(bv(r, 8), 64))
    return post
def stepcmp(rel, seven=False):
    def sp(c):
        x, y = c.a(0), c.a(1)
        if seven: c.pre('7-bit fields', ((x | y) & 0x8080808080808080) == 0)
        def post(c, r):
            for i in range(8):
                c.post('byte %d' % i, B8(r, i) == z3.If(rel(B8(x, i), B8(y, i)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        return post
    return sp
def sp_zcompare(c):
    x = c.a(0)
    def post(c, r):
        for i in range(8): c.post('byte %d' % i, B8(r, i) == z3.If(B8(x, i) != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    return post
def sp_uleq9(c):
    x, y = c.a(0), c.a(1)
    def post(c, r):
        for i in range(7):
            f = lambda v: z3.Extract(9 * i + 8, 9 * i, v)
            c.post('field %d' % i, f(r) == z3.If(z3.ULE(f(x), f(y)), z3.BitVecVal(1, 9), z3.BitVecVal(0, 9)))
        c.post('bit 63', z3.Extract(63, 63, r) == 0)
    return post

# ---- the same facts in the vocabulary of the callers: PC is popcount, uninterpreted at call sites; here it is unfolded
from contracts.theory import PC, L_pcdef, LM
def sp_popcount_pc(c):
    x = c.a(0)
    def post(c, r): c.post('number of ones', r == PC(x)); c.post('<= 64', z3.ULE(r, bv(64)))
    return post
def sp_select_pc(c):
    x, k = c.a(0), c.a(1)
    c.pre('k < popcount', z3.ULT(k, PC(x)))
    def post(c, r):
        if c.mode == 'call':
            c.post('select', z3.And(z3.ULT(r, bv(64)), (z3.LShR(x, r) & 1) == 1, PC(x & LM(r)) == k)); return
        c.post('in the word', z3.ULT(r, bv(64)))
        c.post('a one is there', (z3.LShR(x, r) & 1) == 1)
        for j in range(8): c.post('exactly k ones before it, byte %d' % j, z3.Implies(z3.LShR(r, 3) == j, PC(x & LM(r)) == k))
    return post
def sp_lsb_pc(c):
    x, p = c.a(0), c.args[1]; old = c.rd(p); c.modifies(p, 8)
    def post(c, r):
        n = c.rd(p)
        c.post('returns whether non-zero', (bo(r) if not z3.is_bv(r) else r != 0) == (x != 0)); c.post('untouched on zero', z3.Implies(x == 0, n == old))
        c.post('lowest one', z3.Implies(x != 0, z3.And(z3.ULT(n, bv(64)), (z3.LShR(x, n) & 1) == 1, x & LM(n) == 0)))
    return post

def sp_lsbx(c):
    x = c.a(0); c.pre('non-zero', x != 0)
    def post(c, r):
        n = z3.ZeroExt(56, bv(r, 8))
        c.post('lowest one', z3.And(z3.ULT(n, bv(64)), (z3.LShR(x, n) & 1) == 1, x & LM(n) == 0))
    return post

P = ('C01',)
NS = r'(?:unsigned (?:long|char) |bool )?succinct::broadword::'
def K(*a, **k):
    o = {'glob_init': GI, 'feas_ms': 50}; o.update(k.pop('opts', {}))
    return Contract(*a, props=P, opts=o, **k)
CONTRACTS = [
    K('popcount', 'bw', 'h_popcount', sp_popcount, x1, NS + r'popcount\(unsigned long\)'),
    K('byte_counts', 'bw', 'h_byte_counts', sp_byte_counts, x1, NS + r'byte_counts\(unsigned long\)'),
    K('bytes_sum', 'bw', 'h_bytes_sum', sp_bytes_sum, x1, NS + r'bytes_sum\(unsigned long\)'),
    K('reverse_bytes', 'bw', 'h_reverse_bytes', sp_revbytes, x1),
    K('reverse_bits', 'bw', 'h_reverse_bits', sp_revbits, x1, NS + r'reverse_bits\(unsigned long\)'),
    K('select_in_word', 'bw', 'h_select_in_word', sp_select, xy, cuts=('byte_counts', 'popcount'), pat= NS + r'select_in_word\(unsigned long, unsigned long\)', opts={'slow': True}),
    Contract('popcount#', 'bw', 'h_popcount', sp_popcount_pc, x1, NS + r'popcount\(unsigned long\)', cuts=('popcount',), lemmas=(L_pcdef,), props=P),
    Contract('select_in_word#', 'bw', 'h_select_in_word', sp_select_pc, xy, NS + r'select_in_word\(unsigned long, unsigned long\)', cuts=('select_in_word',), lemmas=(L_pcdef,), props=P),
    K('same_msb', 'bw', 'h_same_msb', sp_same_msb, xy),
    K('msb2', 'bw', 'h_msb2', sp_msb2(True), xptr),
    K('lsb2', 'bw', 'h_lsb2', sp_msb2(False), xptr),
    K('lsb2#', 'bw', 'h_lsb2', sp_lsb_pc, xptr, NS + r'lsb\(unsigned long, unsigned long&\)'),
    K('msb', 'bw', 'h_msb', sp_msb(True), x1),
    K('msb#', 'bw', 'h_msb', sp_msbx, x1, r'(?:unsigned char )?succinct::broadword::msb\(unsigned long\)'),
    K('lsb', 'bw', 'h_lsb', sp_msb(False), x1),
    K('lsb#', 'bw', 'h_lsb', sp_lsbx, x1, r'(?:unsigned char )?succinct::broadword::lsb\(unsigned long\)'),
    K('bit_position', 'bw', 'h_bit_position', sp_bitpos, x1),
    K('leq_step_8', 'bw', 'h_leq_step_8', stepcmp(z3.ULE, True), xy),
    K('uleq_step_8', 'bw', 'h_uleq_step_8', stepcmp(z3.ULE), xy),
    K('zcompare_step_8', 'bw', 'h_zcompare_step_8', sp_zcompare, x1),
    K('uleq_step_9', 'bw', 'h_uleq_step_9', sp_uleq9, xy, NS + r'uleq_step_9\(unsigned long, unsigned long\)'),
]
