"""bp_vector: matching parentheses and excess range minima (C10, C11).

  E(A,p)      excess: ones minus zeros before position p
  PM(A,a,b)   minimum of E over a..b (inclusive), AM(A,a,b) its leftmost position
  WE/WM/WA    the same for one word x: excess of its first j bits, minimum over 0..j, leftmost position of it; WB(x,j): minimum over j..64
  BE/BM/BA/BB the same for one byte
Signed 64-bit values; all defined by recursion on the last position; the lemmas are proved in bp_obls()."""
from contracts.theory import *
from contracts.rs import mk_rs, RS, mulc, subterms
TU = 'bp'
CLS = 'succinct::bp_vector'
B64 = S64
EF = z3.Function('E', A64, B64, B64); PMF = z3.Function('PM', A64, B64, B64, B64); AMF = z3.Function('AM', A64, B64, B64, B64)
WE = z3.Function('WE', B64, B64, B64); WM = z3.Function('WM', B64, B64, B64); WA = z3.Function('WA', B64, B64, B64); WB = z3.Function('WB', B64, B64, B64)
BE = z3.Function('BE', B64, B64, B64); BM = z3.Function('BM', B64, B64, B64); BA = z3.Function('BA', B64, B64); BB = z3.Function('BB', B64, B64, B64)
def smin(a, b): return If(b < a, b, a)
def sx(x): return z3.SignExt(64 - x.size(), x) if x.size() < 64 else x
def zx(x): return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
def byte(x, b): return z3.ZeroExt(56, z3.Extract(8 * b + 7, 8 * b, x))
def within(x, lo, hi): return And(x >= lo, x <= hi)

# ------------------------------------------------------------------ word lemmas (proved in bp_obls)
def be_rng(c): return And(within(BE(c, bv(8)), -8, 8), within(BM(c, bv(8)), -8, 0), BM(c, bv(8)) <= BE(c, bv(8)), within(BB(c, bv(0)), -8, 0), BB(c, bv(0)) <= BE(c, bv(8)), BE(c, bv(8)) - BB(c, bv(0)) <= 8, ULE(BA(c), bv(8)), (BA(c) == 0) == (BM(c, bv(8)) == 0))
def lk_e(x, b, k): return Implies(ULE(k, bv(8)), WE(x, 8 * b + k) == WE(x, bv(8 * b)) + BE(byte(x, b), k))
def lk_m(x, b, k): return Implies(ULE(k, bv(8)), And(within(BM(byte(x, b), k), -8, 0), WM(x, 8 * b + k) == smin(WM(x, bv(8 * b)), WE(x, bv(8 * b)) + BM(byte(x, b), k))))
def lk_a(x, b): return WA(x, bv(8 * b + 8)) == If(WE(x, bv(8 * b)) + BM(byte(x, b), bv(8)) < WM(x, bv(8 * b)), 8 * b + BA(byte(x, b)), WA(x, bv(8 * b)))
def lk_b(x, b, k): return Implies(ULE(k, bv(8)), And(within(BB(byte(x, b), k), -8, 8), WB(x, 8 * b + k) == smin(WB(x, bv(8 * b + 8)), WE(x, bv(8 * b)) + BB(byte(x, b), k))))
def w_base(x): return And(WE(x, bv(0)) == 0, WM(x, bv(0)) == 0, WA(x, bv(0)) == 0, WB(x, bv(64)) == WE(x, bv(64)))
def w_rng(x, j): return Implies(ULE(j, bv(64)), And(within(WE(x, j), -j, j), within(WM(x, j), -j, 0), ULE(WA(x, j), j), WM(x, j) <= WE(x, j), WB(x, j) <= WE(x, j), WB(x, j) <= WE(x, bv(64)), within(WE(x, bv(64)) - WE(x, j), -(64 - j), 64 - j), within(WB(x, j) - WE(x, bv(64)), -(64 - j), 0)))
def w_step(x, j): return Implies(ULT(j, bv(64)), And(WE(x, j + 1) == WE(x, j) + If(wbit(x, j), bv(1), bv(-1)), WM(x, j + 1) == smin(WM(x, j), WE(x, j + 1)), WA(x, j + 1) == If(WE(x, j + 1) < WM(x, j), j + 1, WA(x, j)), WB(x, j) == smin(WB(x, j + 1), WE(x, j))))

# ------------------------------------------------------------------ the tables
ETN = 'succinct::(anonymous namespace)::excess_tables'
def offs(env):
    L = env.layout(TU)
    return [L.off(ETN, f + d) for f, d in (('m_fwd_exc', ''), ('m_fwd_pos', ''), ('m_bwd_pos', ''), ('m_bwd_min', ''), ('m_fwd_min', ''), ('m_fwd_min_idx', ''))] + [L.size(ETN)]
def byte_ref(c):
    e = [0]
    for i in range(8): e.append(e[-1] + (1 if c >> i & 1 else -1))
    return e
def sp_tables(c):
    rid = c.args[0].r; base = c.args[0].off; O_EXC, O_FPOS, O_BPOS, O_BMIN, O_FMIN, O_FIDX, TSZ = offs(c.ex.env)
    c.mod_objs.append(c.args[0])
    def post(c, r):
        cells = c.st.mem[rid].cells
        def g(o, signed=False):
            x = cells.get(base + o)
            if x is None or x[0] != 1: raise Undecided('table cell %d not written as a byte' % o)
            v = as_c(x[1])
            if not is_c(v): raise Undecided('table cell %d is not concrete' % o)
            return v - 256 if signed and v >= 128 else v
        bad = {n: [] for n in ('fwd_exc', 'fwd_min', 'fwd_min_idx', 'fwd_pos', 'bwd_min', 'bwd_pos')}
        for b in range(256):
            e = byte_ref(b); m = min(e)
            if g(O_EXC + b, True) != e[8]: bad['fwd_exc'].append(b)
            if g(O_FMIN + b) != -m: bad['fwd_min'].append(b)
            if g(O_FIDX + b) != e.index(m): bad['fwd_min_idx'].append(b)
            for s in range(1, -m + 1):
                if g(O_FPOS + 9 * b + s) != e.index(-s): bad['fwd_pos'].append(b)
            bm = e[8] - m
            if g(O_BMIN + b) != bm: bad['bwd_min'].append(b)
            for s in range(1, bm + 1):
                k = max(i for i in range(9) if e[i] == e[8] - s)
                if g(O_BPOS + 9 * b + s) != 8 - k: bad['bwd_pos'].append(b)
        for n, l in bad.items(): c.post('table m_%s: every byte (wrong: %s)' % (n, l[:4]), not l)
    return post
def a_tables(v):
    r = v.st.new_region('tab', size=offs(v.env)[-1])
    return [Ptr(r.rid)]
def t_facts(T, env):
    O_EXC, O_FPOS, O_BPOS, O_BMIN, O_FMIN, O_FIDX, TSZ = offs(env)
    """what the constructor establishes, for every byte c"""
    def parse(ix):
        """(constant, 1-coefficient terms, 9-coefficient term) of every index"""
        for t in ix.selects(T):
            k = 0; one = []; nine = None; todo = [t]
            while todo:
                u = todo.pop()
                if z3.is_app_of(u, z3.Z3_OP_BADD): todo.extend(u.children())
                elif z3.is_bv_value(u): k += u.as_long()
                elif z3.is_app_of(u, z3.Z3_OP_BMUL) and mulc(u, 9) is not None: nine = mulc(u, 9)
                else: one.append(u)
            yield k & ((1 << 64) - 1), one, nine
    def t1(o):
        def tr(ix):
            return [(sum(one[1:], one[0]),) for k, one, nine in parse(ix) if nine is None and one and k == o]
        return tr
    def t2(o):
        def tr(ix): return [(nine,) for k, one, nine in parse(ix) if nine is not None and k == o]
        return tr
    g = lambda i: Select(T, i)
    fx = lambda o, body, n, tr: FA(lambda c: Implies(ULT(c, bv(256)), body(c)), tr, n)
    def fpos(c):
        out = []
        for s in range(1, 9):
            p = zx(g(O_FPOS + 9 * c + s))
            out.append(Implies(-BM(c, bv(8)) >= s, And(UGE(p, bv(1)), ULE(p, bv(8)), BE(c, p) == -s, BM(c, p - 1) > -s)))
        return And(*out)
    def bpos(c):
        out = []; d = BE(c, bv(8))
        for s in range(1, 9):
            p = zx(g(O_BPOS + 9 * c + s))
            out.append(Implies(d - BB(c, bv(0)) >= s, And(UGE(p, bv(1)), ULE(p, bv(8)), BE(c, 8 - p) == d - s, BB(c, 9 - p) > d - s)))
        return And(*out)
    return [fx(0, lambda c: sx(g(O_EXC + c)) == BE(c, bv(8)), 'fwd_exc', t1(O_EXC)),
            fx(0, lambda c: zx(g(O_FMIN + c)) == -BM(c, bv(8)), 'fwd_min', t1(O_FMIN)),
            fx(0, lambda c: zx(g(O_FIDX + c)) == BA(c), 'fwd_min_idx', t1(O_FIDX)),
            fx(0, lambda c: zx(g(O_BMIN + c)) == BE(c, bv(8)) - BB(c, bv(0)), 'bwd_min', t1(O_BMIN)),
            fx(0, fpos, 'fwd_pos', t2(O_FPOS)), fx(0, bpos, 'bwd_pos', t2(O_BPOS))]
TABSYM = '_ZN8succinct12_GLOBAL__N_16tablesE'
def tab_glob(ex, st):
    r = st.new_array('tables', 1, offs(ex.env)[-1]); st.mem[r.rid].ro = True
    for f in t_facts(st.mem[r.rid].arr, ex.env): st.facts.append(f)
    return st.mem[r.rid]
GI = {TABSYM: tab_glob, '@' + TABSYM: tab_glob}
BYTES = ('BE', 'BM', 'BA', 'BB')
S8 = 0x0101010101010101
M64 = (1 << 64) - 1
def h8(u):
    t = fresh
# ------------------------------------------------------------------ in-word searches
def a_fcw(v):
    r = v.st.new_region('out', size=8); r.cells[0] = (8, fresh('out0'))
    return [fresh('x'), fresh('bc'), fresh('exc', 32), Ptr(r.rid)]
def bc_ok(x, bc):
    """the bytes of bc are the numbers of ones of the bytes of x"""
    return [('counts of byte %d' % b, And(ULE(byte(bc, b), bv(8)), 2 * byte(bc, b) - 8 == BE(byte(x, b), bv(8)))) for b in range(8)]
def sp_fcw(back):
    def sp(c):
        x, bc, e = c.a(0), c.a(1), sx(c.a(2, 32)); p = c.args[3]
        pre_all(c, bc_ok(x, bc)); c.pre('1 <= excess <= 64', within(e, 1, 64))
        c.modifies(p, 8); old = c.rd(p)
        if c.mode == 'root': c.st.ghost.update(x=x, e=e, bc=bc)
        def post(c, r):
            q = c.rd(p); f = bo(r) if not z3.is_bv(r) else r != 0
            if back:
                t = WE(x, bv(64)) - e
                if c.mode == 'root':
                    c.fact(w_base(x))
                    i = c.st.ghost.get('i')
                    if i is not None:
                        b = 7 - i; k = c.nm(q - 8 * b, 'k'); kd = c.st.pc[-1:]; d = BE(byte(x, b), bv(8)); S = c.st.ghost['S']
                        tb = c.step('table entry', Implies(f, And(ULT(k, bv(8)), BE(byte(x, b), k) == d - S, BB(byte(x, b), k + 1) > d - S)), lem=())
                        kk = [tb, kd, c.st.ghost['kk'], c.assume([lk_e(x, b, k), lk_b(x, b, k + 1)])]
                        c.step('position', Implies(f, ULT(q, bv(64))), using=kk, lem=())
                        c.step('excess there', Implies(f, WE(x, q) == t), using=kk, lem=())
                        c.step('excess after it', Implies(f, WB(x, q + 1) > t), using=kk, lem=())
                c.post('position inside', Implies(f, ULT(q, bv(64))))
                c.post('the excess is reached there', Implies(f, WE(x, q) == t))
                c.post('and not after it', Implies(f, WB(x, q + 1) > t))
                c.post('not found: never reached', Implies(Not(f), WB(x, bv(0)) > t))
            else:
                if c.mode == 'root':
                    c.fact(w_base(x))
                    i = c.st.ghost.get('i')
                    if i is not None: c.fact([lk_e(x, i, q + 1 - 8 * i), lk_m(x, i, q - 8 * i)])
                c.post('position inside', Implies(f, ULT(q, bv(64))))
                c.post('the excess is reached there', Implies(f, WE(x, q + 1) == -e))
                c.post('and not before it', Implies(f, WM(x, q) > -e))
                c.post('not found: never reached', Implies(Not(f), WM(x, bv(64)) > -e))
        return post
    return sp
def at_leq(back):
    """after the parallel comparison: the first byte (from the scanned end) in which the target is reached"""
    def f(c, u):
        gh = c.st.ghost; x, e, bc = gh['x'], gh['e'], gh['bc']
        cum, mn = bv(c.args[0]), bv(c.args[1])
        B = (lambda i: 7 - i) if back else (lambda i: i)
        cb = [c.nm(byte(x, b), 'c%d' % b) for b in range(8)]; cdef = c.st.pc[-8:]
        d = [BE(byte(x, b), bv(8)) for b in range(8)]
        m = [(BE(byte(x, B(i)), bv(8)) - BB(byte(x, B(i)), bv(0))) if back else -BM(byte(x, i), bv(8)) for i in range(8)]
        rng = c.assume([be_rng(byte(x, b)) for b in range(8)])
        er = c.step('excess in range', within(e, 1, 64), lem=())
        ct = [c.nm(byte(bc, b), 'cnt%d' % b) for b in range(8)]; cnd = c.st.pc[-8:]
        bb = [c.step('counts %d' % b, And(ULE(ct[b], bv(8)), 2 * ct[b] - 8 == d[b]), lem=()) for b in range(8)]
        bs = c.step('counts as a sum', bc == sum(ct[b] * (1 << 8 * b) for b in range(8)), using=[cnd], lem=())
        S = [e]; sd = []
        for i in range(7):
            S.append(c.nm(S[-1] - d[B(i)] if back else S[-1] + d[i], 'S%d' % (i + 1))); sd.append(c.st.pc[-1])
        T = [e]
        for i in range(7): T.append(T[-1] - (2 * ct[B(i)] - 8) if back else T[-1] + (2 * ct[i] - 8))
        cu = c.nm(cum, 'cum'); cud = c.st.pc[-1:] if cu is not cum else []
        ms = c.nm(mn, 'min'); msd = c.st.pc[-1:] if ms is not mn else []
        rv = []
        if back and 'rev' in gh:
            rev = gh['rev']; rb = c.step('reversed counts', [byte(rev, b) == ct[7 - b] for b in range(8)], lem=())
            rv = c.step('reversed counts as a sum', rev == sum(ct[7 - b] * (1 << 8 * b) for b in range(8)), using=[rb], lem=())
        eqs = [c.step('excess before byte %d' % i, T[i] == S[i], using=[bb, sd], lem=()) for i in range(1, 8)]
        pol = c.step('product is the polynomial of the excesses', cu == sum(T[i] * (1 << 8 * i) for i in range(8)), lem=(), using=[bs, cud, rv])
        pol2 = c.step('cumulated excesses', cu == sum(S[i] * (1 << 8 * i) for i in range(8)), using=[pol, eqs], lem=())
        mb = [c.step('byte %d of the reachable excesses' % i, And(byte(ms, i) == m[i], within(m[i], 0, 16)), lem=()) for i in range(8)]
        uu = c.step('comparison', [And(ULE(byte(u, i), bv(1)), Implies(And(ULT(byte(cu, i), bv(128)), ULT(byte(ms, i), bv(128))), (byte(u, i) == 1) == ULE(byte(cu, i), byte(ms, i)))) for i in range(8)], lem=())
        wb = c.assume([w_base(x), w_rng(x, bv(64))]); ln = []
        for i in range(8): ln.append(c.assume([lk_e(x, B(i), bv(8)), lk_b(x, B(i), bv(0)) if back else lk_m(x, B(i), bv(8))]))
        rn = [c.step('range of byte %d' % i, within(d[B(i)], -8, 8), using=[rng], lem=()) for i in range(8)]
        rm = [c.step('reach of byte %d' % i, And(within(m[i], 0, 8), (d[B(i)] <= m[i]) if back else (-d[i] <= m[i])), using=[rng], lem=()) for i in range(8)]
        # excess and minimum accumulated up to byte i when it was not reached before
        acc = [wb]
        t = (WE(x, bv(64)) - e) if back else None
        for i in range(8): acc.append(c.step('accumulated %d' % (i + 1), ((S[i + 1] if i < 7 else S[i] - d[B(i)]) == e - (WE(x, bv(64)) - WE(x, bv(56 - 8 * i)))) if back else ((S[i + 1] if i < 7 else S[i] + d[i]) == e + WE(x, bv(8 * i + 8))), using=[sd[i:i + 1], ln[i], acc[i], wb], lem=()))
        G = [z3.BoolVal(True)]; gd = []
        for i in range(8): 
            v = fresh_bool('open%d' % i); gd.append(c.assume(v == And(G[-1], S[i] > m[i]))); G.append(v)
        rge = [er]
        for i in range(7): rge.append(c.step('still open %d' % (i + 1), Implies(G[i + 1], within(S[i + 1], 1, 64 + 8 * (i + 1))), using=[gd[i], er, sd[i], rn[i], rm[i], rge[i]], lem=()))
        mm = [c.step('not reached in 0 bytes', (WB(x, bv(64)) > t) if back else (WM(x, bv(0)) > -e), using=[wb, er, c.assume(w_rng(x, bv(64)))], lem=())]
        for i in range(8): mm.append(c.step('not reached in %d bytes' % (i + 1), Implies(G[i + 1], (WB(x, bv(56 - 8 * i)) > t) if back else (WM(x, bv(8 * i + 8)) > -e)), using=[gd[i], ln[i], acc[i], acc[i + 1], er, rge[i], rm[i], rng[B(i):B(i) + 1], mm[i], wb], lem=()))
        byt = [c.step('byte %d of the cumulated excesses' % i, Implies(G[i], byte(cu, i) == S[i]), using=[pol2, rge[:i + 1], gd[:i]], lem=()) for i in range(8)]
        hit = [c.step('comparison of byte %d' % i, Implies(G[i], And(ULE(byte(u, i), bv(1)), (byte(u, i) == 1) == (S[i] <= m[i]))), using=[byt[i], mb[i], uu[i:i + 1], rge[i], rm[i]], lem=()) for i in range(8)]
        def br(i):
            def g(c):
                cd = c.st.pc[-1:]
                z = c.step('first byte', (u == 0) if i == 8 else And(u & LM(bv(8 * i + 1)) == (1 << 8 * i)), using=[cd, hit[:i + 1], gd[:i]], lem=())
                w = c.step('not reached before', (WB(x, bv(64 - 8 * i)) > t) if back else (WM(x, bv(8 * i)) > -e), using=[cd, mm[i]], lem=())
                v = c.step('reached in the byte', And(within(S[i], 1, m[i]), byte(cu, i) == S[i]), using=[cd, byt[i], rge[i], gd[:i]], lem=()) if i < 8 else []
                fs = list(c.st.facts)
                c.restart([], keep=flat([z, w, v, er, acc[i], rng, rm, ln, cud, wb])); c.st.facts = fs; c.st.ghost.update(S=S[min(i, 7)], kk=flat([w, v, er, acc[i], rng[B(i % 8):B(i % 8) + 1], rm[i % 8], ln[i % 8], wb])); c.st.ghost['i'] = i if i < 8 else None
                return u
            return g
        al = [(And(G[i], S[i] <= m[i]) if i < 8 else G[8], br(i)) for i in range(9)]
        return c.cases('byte of the first hit', al)
    return f
def at_rev(c, r): c.st.ghost['rev'] = r
def sp_rev(c):
    x = c.a(0)
    def post(c, r):
        for i in range(8): c.post('byte %d' % i, byte(r, i) == byte(x, 7 - i))
    return post
def sp_leq(c):
    x, y = c.a(0), c.a(1)
    def post(c, r):
        for i in range(8): c.post('byte %d' % i, And(ULE(byte(r, i), bv(1)), Implies(And(ULT(byte(x, i), bv(128)), ULT(byte(y, i), bv(128))), (byte(r, i) == 1) == ULE(byte(x, i), byte(y, i)))))
    return post
def w8(x, i):
    """one more byte, symbolic byte index i"""
    c = LShR(x, i << 3) & 255; w = i << 3
    return Implies(ULT(i, bv(8)), And(be_rng(c), WE(x, w + 8) == WE(x, w) + BE(c, bv(8)), WM(x, w + 8) == smin(WM(x, w), WE(x, w) + BM(c, bv(8))), WA(x, w + 8) == If(WE(x, w) + BM(c, bv(8)) < WM(x, w), w + BA(c), WA(x, w))))
def a_rmqw(v):
    def cell(n, w):
        r = v.st.new_region(n, size=w // 8); r.cells[0] = (w // 8, fresh(n, w)); return Ptr(r.rid)
    return [fresh('x'), cell('exc', 32), fresh('ws'), cell('min_exc', 32), cell('min_idx', 64)]
BIG = (1 << 31) - 1
def r32(x): return And(x >= -BIG - 1, x <= BIG)
def sp_rmqw(c):
    x, ws = c.a(0), c.a(2); pe, pm, pi = c.args[1], c.args[3], c.args[4]
    e0, m0, i0 = sx(c.rd(pe, 32)), sx(c.rd(pm, 32)), c.rd(pi)
    c.pre('excess in range', within(e0, -BIG + 64, BIG - 64))
    c.modifies(pe, 4); c.modifies(pm, 4); c.modifies(pi, 8)
    if c.mode == 'root': c.st.ghost.update(x=x, e0=e0, m0=m0, pe=pe)
    def post(c, r):
        m = e0 + WM(x, bv(64)); e1, m1, i1 = sx(c.rd(pe, 32)), sx(c.rd(pm, 32)), c.rd(pi)
        c.fact(w_rng(x, bv(64)))
        c.post('excess after the word', e1 == e0 + WE(x, bv(64)))
        c.post('minimum', m1 == smin(m0, m))
        c.post('leftmost position of it', i1 == If(m < m0, ws + WA(x, bv(64)), i0))
    return post
def rmqw_inv(x):
    g = x.st.ghost; w, e0, m0 = g['x'], g['e0'], g['m0']; i = x('i'); mb, mi = sx(bv(x('min_byte_exc'), 32)), x('min_byte_idx')
    e = sx(peek(x.ex, x.st, g['pe'], 32)); p = i << 3; m = e0 + WM(w, p)
    x.st.assume([w_base(w), w_rng(w, p), w8(w, i)])
    return [('byte', ULE(i, bv(8))), ('excess', e == e0 + WE(w, p)), ('nothing seen yet', Implies(i == 0, And(mb == m0, mi == 0))), ('minimum so far', Implies(i != 0, mb == smin(m0, m))), ('its byte', Implies(And(i != 0, m < m0), And(ULT(mi, i), WA(w, p) == (mi << 3) + BA(LShR(w, mi << 3) & 255)))), ('byte in range', Implies(mi != 0, ULT(mi, i)))]
# ------------------------------------------------------------------ excess over the whole sequence (proved in bp_obls)
def E(A, p): return EF(A, bv(p))
def PM(A, a, b): return PMF(A, bv(a), bv(b))
def AM(A, a, b): return AMF(A, bv(a), bv(b))
SZ = (1 << 31) - (1 << 16)
SMALL = lambda *ps: And(*[ULE(p, bv(1 << 32)) for p in ps])
def e_rk(A, p): return E(A, p) == 2 * RK(A, p) - p
def e_rw(A, w): return E(A, w << 6) == 2 * RW(A, w) - (w << 6)
def e_lip(A, p, q): return Implies(And(ULE(p, q), SMALL(q)), And(within(E(A, q) - E(A, p), -(q - p), q - p), within(E(A, p), -p, p), within(E(A, q), -q, q)))
def e_step(A, p): return E(A, p + 1) == E(A, p) + If(bitx(A, p), bv(1), bv(-1))
def pm_pt(A, a): return And(PM(A, a, a) == E(A, a), AM(A, a, a) == a)
def pm_at(A, a, b): return Implies(And(ULE(a, b), SMALL(b)), And(ULE(a, AM(A, a, b)), ULE(AM(A, a, b), b), E(A, AM(A, a, b)) == PM(A, a, b), within(PM(A, a, b), E(A, a) - (b - a), E(A, a)), PM(A, a, b) <= E(A, b), PM(A, a, b) >= E(A, b) - (b - a), within(PM(A, a, b), -b, b)))
def pm_lo(A, a, b, q): return Implies(And(ULE(a, q), ULE(q, b), SMALL(b)), PM(A, a, b) <= E(A, q))
def pm_split(A, a, m, b): return Implies(And(ULE(a, m), ULE(m, b), SMALL(b)), And(PM(A, a, b) == smin(PM(A, a, m), PM(A, m, b)), AM(A, a, b) == If(PM(A, m, b) < PM(A, a, m), AM(A, m, b), AM(A, a, m))))
def same_lo(A, a, x, n): return And(ULE(n, 64 - (a & 63)), ((x ^ LShR(Select(A, LShR(a, 6)), a & 63)) & LM(n)) == 0)
def win(A, a, x, n, j):
    """the n low bits of x are the bits of A from a (in one word); j <= n"""
    return Implies(And(SMALL(a), same_lo(A, a, x, n), ULE(j, n)), And(E(A, a + j) == E(A, a) + WE(x, j), PM(A, a, a + j) == E(A, a) + WM(x, j), AM(A, a, a + j) == a + WA(x, j)))
def winb(A, p, x, n, j):
    """the n high bits of x are the n bits of A before p (in one word); 64 - n <= j <= 64"""
    return Implies(And(SMALL(p), ULE(n, bv(64)), ULE(n, p), Or(n == 0, And(LShR(p - n, 6) == LShR(p - 1, 6), ((LShR(x, 64 - n) ^ LShR(Select(A, LShR(p - n, 6)), (p - n) & 63)) & LM(n)) == 0)), ULE(64 - n, j), ULE(j, bv(64))),
                   And(E(A, p - 64 + j) == E(A, p) + WE(x, j) - WE(x, bv(64)), PM(A, p - 64 + j, p) == E(A, p) + WB(x, j) - WE(x, bv(64))))
def pad1(x, n, j):
    """ones above position n: the excess only grows there"""
    return Implies(And(ULE(n, j), ULE(j, bv(64)), Or(n == 64, LShR(x, n) == LShR(bv(-1), n))), And(WE(x, j) == WE(x, n) + (j - n), WM(x, j) == WM(x, n), WA(x, j) == WA(x, n)))
def pad0(x, n, j):
    """zeros below position n: the backward excess only falls there"""
    return Implies(And(ULE(j, n), ULE(n, bv(64)), Or(n == 0, (x & LM(n)) == 0)), And(WE(x, j) == -j, WB(x, j) == WB(x, n)))
def be_pop(c): return Implies(ULT(c, bv(256)), BE(c, bv(8)) == 2 * zx(bpc8(z3.Extract(7, 0, c))) - 8)
def bpc8(b):
    s = z3.BitVecVal(0, 8)
    for i in range(8): s = s + z3.ZeroExt(7, z3.Extract(i, i, b))
    return s

def sp_bc(c):
    x = c.a(0)
    def post(c, r):
        for b in range(8): c.fact(be_pop(byte(x, b)))
        post_all(c, bc_ok(x, r))
    return post
def sp_bs(c):
    x = c.a(0); c.pre('small bytes', And(*[ULE(byte(x, b), bv(8)) for b in range(8)]))
    def post(c, r): c.post('sum of the bytes', r == sum((byte(x, b) for b in range(1, 8)), byte(x, 0)))
    return post
# ------------------------------------------------------------------ bp_vector objects
SHT, INT = 'short', 'int'
def mk_bp(v, reg, off=0, tu=TU):
    L = v.env.layout(tu); mk_rs(v, v.st, reg, off, tu)
    reg.cells[off + L.off(CLS, 'm_internal_nodes')] = (8, fresh('internal'))
    mk_mv(v, v.st, reg, off + L.off(CLS, 'm_block_excess_min'), tu, SHT, 2, 'bmin')
    mk_mv(v, v.st, reg, off + L.off(CLS, 'm_superblock_excess_min'), tu, INT, 4, 'smin')
def umin(a, b): return If(ULE(a, b), a, b)
LOF = z3.Function('LO', B64, B64, B64); LWF = z3.Function('LW', B64, B64, B64)
class BP:
    """view of a bp_vector"""
    def __init__(s, c, p, tu=TU):
        L = c.ex.env.layout(tu); s.rs = RS(c, p, tu); s.A, s.size, s.nw = s.rs.A, s.rs.size, s.rs.nw
        s.mi = peek(c.ex, c.st, pofs(p, L.off(CLS, 'm_internal_nodes')))
        s.B = MVV(c.ex, c.st, pofs(p, L.off(CLS, 'm_block_excess_min')), tu, SHT, 2); s.T = MVV(c.ex, c.st, pofs(p, L.off(CLS, 'm_superblock_excess_min')), tu, INT, 4)
        s.nblk = LShR(s.nw + 3, 2); s.nsb = LShR(s.nblk + 31, 5)
    def E(s, p): return E(s.A, p)
    def PM(s, a, b): return PM(s.A, a, b)
    def AM(s, a, b): return AM(s.A, a, b)
    def bend(s, b): return umin((b + 1) << 8, s.size)      # end of block b
    def send(s, q): return umin(q << 13, s.size)           # start of superblock q, at most the end
    def lo(s, i): return LOF(s.mi, i)
    def hi(s, i): return LOF(s.mi, i) + LWF(s.mi, i)
    def leaf(s, i): return Implies(And(UGE(i, s.mi), ULT(i, s.mi << 1)), And(s.lo(i) == i - s.mi, LWF(s.mi, i) == 1))
    def node(s, i):
        """the superblocks below node i of the tree (mi leaves, mi a power of two)"""
        lo, w = s.lo, lambda j: LWF(s.mi, j)
        return And(s.leaf(i), s.leaf(2 * i), s.leaf(2 * i + 1), Implies(And(UGE(i, bv(1)), ULT(i, s.mi << 1)), And(UGE(w(i), bv(1)), ULE(w(i), s.mi), ULT(lo(i), s.mi), ULE(s.hi(i), s.mi))), Implies(And(UGE(i, bv(1)), ULT(i, s.mi)), And(lo(2 * i) == lo(i), lo(2 * i + 1) == lo(i) + w(2 * i), w(2 * i) == w(2 * i + 1), w(i) == 2 * w(2 * i), UGE(w(2 * i), bv(1)), ULE(w(2 * i), s.mi))),
                   Implies(i == 1, And(lo(i) == 0, w(i) == s.mi)))
    def pow2(s): return And(s.mi != 0, (s.mi & (s.mi - 1)) == 0)
    def tval(s, i): return If(ULT(s.lo(i), s.nsb), s.PM(s.lo(i) << 13, s.send(s.hi(i))), s.size)
    def tree(s):
        return [('blocks storage', And(s.B.n == s.nblk, bv(s.B.ln) == s.B.n)), ('tree storage', And(s.T.n == s.mi + s.nsb, bv(s.T.ln) == s.T.n, s.pow2(), ULE(s.nsb, s.mi), ULT(s.mi, 2 * s.nsb))),
                ('block minima', FA(lambda b: Implies(ULT(b, s.nblk), s.E(LShR(b, 5) << 13) + sx(Select(s.B.A, b)) == s.PM(b << 8, s.bend(b))), lambda ix: [(t,) for t in ix.selects(s.B.A)], 'bmin')),
                ('tree minima', FA(lambda i: Implies(And(UGE(i, bv(1)), ULT(i, s.T.n)), sx(Select(s.T.A, i)) == s.tval(i)), lambda ix: [(t,) for t in ix.selects(s.T.A)], 'smin'))]
    def wf(s, tree=True):
        return s.rs.wf() + [('size', And(ULT(s.size, bv(SZ)), s.size != 0)), ('no prefix closes more than it opens', s.PM(0, s.size) >= 0)] + (s.tree() if tree else [])
def a_bp(*mk):
    """mk: name -> fresh 64-bit; (name, width); ('*', width) -> pointer to a cell"""
    def f(v):
        r = v.st.new_region('bp', size=v.env.layout(TU).size(CLS)); mk_bp(v, r); out = [Ptr(r.rid)]
        for m in mk:
            if isinstance(m, str): out.append(fresh(m))
            elif m[0] == '*':
                q = v.st.new_region('out', size=m[1] // 8); q.cells[0] = (m[1] // 8, fresh('out0', m[1])); out.append(Ptr(q.rid))
            else: out.append(fresh(m[0], m[1]))
        return out
    return f
def pre_bp(c, tree=True):
    s = BP(c, c.args[0]); pre_all(c, s.wf(tree))
    if c.mode == 'root': c.st.ghost['b'] = s
    return s
def sp_gbe(c):
    s = pre_bp(c, False); b = c.a(1); c.pre('block', ULT(b << 8, s.size)); c.pre('block is small', ULE(b, bv(1 << 24)))
    c.fact([e_rw(s.A, b << 2), pm_lo(s.A, bv(0), s.size, b << 8), e_lip(s.A, bv(0), b << 8)])
    def post(c, r):
        c.post('excess before the block', sx(bv(r, 32)) == s.E(b << 8))
    return post
def sp_excess(c):
    s = pre_bp(c, False); p = c.a(1); c.pre('pos <= size', ULE(p, s.size))
    c.fact([e_rk(s.A, p), e_lip(s.A, bv(0), p)])
    def post(c, r): c.post('excess before pos', sx(bv(r, 32)) == s.E(p))
    return post
def wit(c, name='W'):
    """ghost witness: given by the caller, arbitrary when the body is verified"""
    if c.mode == 'root': return fresh(name)
    w = c.st.ghost.get(name)
    if w is None: raise Undecided('no witness for ' + c.cname)
    return w
def stp(c, name, goal, facts=(), using=None):
    """a step proved with lemma instances that are dropped afterwards"""
    n = len(c.st.pc); new = c.assume(list(facts)); r = c.step(name, goal, using=None if using is None else [using, new], lem=())
    ids = {id(f) for f in new}; c.st.pc = [f for f in c.st.pc if id(f) not in ids]
    return r
def drop(st, names, keep=()):
    """forget the facts about these functions (sound)"""
    ks = {id(f) for f in flat(keep)}
    st.pc = [p for p in st.pc if id(p) in ks or not any(z3.is_app(t) and t.decl().name() in names for t in subterms(p))]
def tst(f): return bo(f) if not z3.is_bv(f) else f != 0
def sp_fcb(c):
    s = pre_bp(c, False); bo_, e, st = c.a(1), sx(c.a(2, 32)), c.a(3); p = c.args[4]; W = wit(c)
    s0 = c.nm((bo_ + st) << 6, 's0') if c.mode == 'root' else (bo_ + st) << 6; T = s.E(s0) - e; end = (bo_ + 4) << 6
    c.pre('block', And(ULT(bo_ << 6, s.size), ULE(bo_, bv(1 << 25)), (bo_ & 3) == 0, ULE(st, bv(4)))); c.pre('excess', within(e, 1, (1 << 31) - 1 - 512))
    c.pre('reached later', And(ULE(s0, W), ULE(W, s.size), s.E(W) <= T))
    c.modifies(p, 8)
    if c.mode == 'root': c.st.ghost.update(s0=s0, T0=T, W=W, bo=bo_, st=st, e0=e); c.fact([pm_pt(s.A, s0), e_lip(s.A, s0, end), pm_at(s.A, s0, end), e_lip(s.A, bv(0), s0)])
    def post(c, r):
        f = tst(r); q = c.rd(p)
        if c.mode == 'root' and c.st.ghost.get('hit'):
            g = c.st.ghost; a, x = g['hit']; k = c.nm(q - a, 'k')
            nr = c.step('near', Implies(f, And(ULE(end, bv(1 << 32)), ULT(k, bv(64)), q == a + k, ULE(s0, a), SMALL(a), ULE(a + 64, end))), lem=())
            bt = stp(c, 'the bits searched', same_lo(s.A, a, x, bv(64)))
            stp(c, 'excess there', Implies(f, s.E(q + 1) == T), [win(s.A, a, x, bv(64), k + 1)])
            sf = c.step('searched so far', Implies(f, And(WM(x, k) > -(s.E(a) - T), s.PM(s0, a) > T, within(s.E(a) - T, 1, (1 << 31) - 128), within(s.E(a), -(1 << 33), 1 << 33))), lem=())
            stp(c, 'minimum before', Implies(f, s.PM(s0, q) > T), using=[nr, sf, stp(c, 'window', Implies(f, s.PM(a, q) == s.E(a) + WM(x, k)), using=[nr, bt], facts=[win(s.A, a, x, bv(64), k)])], facts=[w_rng(x, k), pm_split(s.A, s0, a, q)])
            stp(c, 'before the witness', Implies(f, ULT(q, W)), [pm_lo(s.A, s0, q, W)])
        c.post('position inside', Implies(f, And(ULE(s0, q), ULT(q, end), ULT(q, W))))
        c.post('the excess is reached there', Implies(f, s.E(q + 1) == T))
        c.post('and not before', Implies(f, s.PM(s0, q) > T))
        c.post('not found: not reached in the block', Implies(Not(f), s.PM(s0, end) > T))
    return post
def fcb_inv(x):
    g = x.st.ghost; s = g['b']; j = x('sub_block_offset'); e = sx(bv(x('excess'), 32)); a = (g['bo'] + j) << 6
    x.st.assume([pm_at(s.A, g['s0'], a), pm_lo(s.A, g['s0'], a, g['W']), e_lip(s.A, g['s0'], a)])
    if x.mode == 'assume': g['word'] = a; g['lem'] = (); g['ex'] = bv(x('excess'), 32); g['j'] = j
    return [('word', And(ULE(g['st'], j), ULE(j, bv(4)))), ('excess', e == s.E(a) - g['T0']), ('not reached so far', s.PM(g['s0'], a) > g['T0'])]
def at_fcw(c, r):
    """the word searched is the next 64 bits"""
    g = c.st.ghost; s = g['b']; a = g['word']; x = bv(c.args[0])
    g['hit'] = (a, x)
def sp_fob(c):
    s = pre_bp(c, False); bo_, e, st = c.a(1), sx(c.a(2, 32)), c.a(3); p = c.args[4]
    s0 = c.nm((bo_ + st) << 6, 's0') if c.mode == 'root' else (bo_ + st) << 6; T = s.E(s0) - e; beg = bo_ << 6
    c.pre('block', And(ULE(bo_, bv(1 << 25)), (bo_ & 3) == 0, ULE(st, bv(4)), ULE(s0, s.size))); c.pre('excess', within(e, 1, (1 << 31) - 1 - 512))
    c.modifies(p, 8)
    if c.mode == 'root': c.st.ghost.update(s0=s0, T0=T, bo=bo_, st=st, e0=e); c.fact([pm_pt(s.A, s0), e_lip(s.A, beg, s0), pm_at(s.A, beg, s0), e_lip(s.A, bv(0), s0)])
    def post(c, r):
        f = tst(r); q = c.rd(p)
        if c.mode == 'root' and c.st.ghost.get('hit'):
            g = c.st.ghost; a, x = g['hit']; k = c.nm(q - (a - 64), 'k')
            nr = c.step('near', Implies(f, And(ULE(s0, bv(1 << 31)), ULT(k, bv(64)), q == a - 64 + k, ULE(a, s0), SMALL(a), UGE(a - 64, beg), UGE(a, bv(64)))), lem=())
            bt = stp(c, 'the bits searched', same_lo(s.A, a - 64, x, bv(64)))
            stp(c, 'excess there', Implies(f, s.E(q) == T), [winb(s.A, a, x, bv(64), k)])
            sf = c.step('searched so far', Implies(f, And(WB(x, k + 1) > WE(x, bv(64)) - (s.E(a) - T), s.PM(a, s0) > T, within(s.E(a) - T, 1, (1 << 31) - 128), within(s.E(a), -(1 << 33), 1 << 33))), lem=())
            stp(c, 'minimum after', Implies(f, s.PM(q + 1, s0) > T), using=[nr, sf, stp(c, 'window', Implies(f, s.PM(q + 1, a) == s.E(a) + WB(x, k + 1) - WE(x, bv(64))), using=[nr, bt], facts=[winb(s.A, a, x, bv(64), k + 1)])], facts=[w_rng(x, k + 1), pm_split(s.A, q + 1, a, s0)])
        c.post('position inside', Implies(f, And(ULT(q, s0), UGE(q, beg))))
        c.post('the excess is reached there', Implies(f, s.E(q) == T))
        c.post('and not after', Implies(f, s.PM(q + 1, s0) > T))
        c.post('not found: not reached in the block', Implies(Not(f), s.PM(beg, s0) > T))
    return post
def fob_inv(x):
    g = x.st.ghost; s = g['b']; j = x('sub_block_offset'); e = sx(bv(x('excess'), 32)); a = (g['bo'] + j + 1) << 6
    x.st.assume([pm_at(s.A, a, g['s0']), e_lip(s.A, a, g['s0'])])
    if x.mode == 'assume': g['word'] = a; g['lem'] = (); g['ex'] = bv(x('excess'), 32); g['j'] = j
    return [('word', ULE(j + 1, g['st'])), ('excess', e == s.E(a) - g['T0']), ('not reached so far', s.PM(a, g['s0']) > g['T0'])]
def at_bsb(c, r):
    g = c.st.ghost
    if 'word' not in g: return
    s = g['b']; a = g['word']; x = Select(s.A, g['bo'] + g['j'])
    d = c.nm(2 * bv(r) - 64, 'd'); dd = c.st.pc[-1:]
    dr = stp(c, 'excess of the word', And(d == WE(x, bv(64)), within(d, -64, 64), within(WB(x, bv(0)) - d, -64, 0)), using=[mention(c.st, BYTES), bsum(c, r), dd], facts=[w_base(x)] + [lk_e(x, b, bv(8)) for b in range(8)] + [w_rng(x, bv(64)), w_rng(x, bv(0))])
    stp(c, 'the bits', And(UGE(a, bv(64)), same_lo(s.A, a - 64, x, bv(64))))
    w = stp(c, 'excess before the word', And(s.E(a - 64) == s.E(a) - d, s.PM(a - 64, a) == s.E(a) + WB(x, bv(0)) - d), [w_base(x), winb(s.A, a, x, bv(64), bv(0))])
    a2 = (g['bo'] + (g['j'] + bv(-1)) + 1 ) << 6
    ev = c.step('excess so far', And(sx(g['ex']) == s.E(a) - g['T0'], within(s.E(a) - g['T0'], 1, (1 << 31) - 128)), lem=())
    nw = c.step('next word', And(a2 == a - 64, s.E(a2) == s.E(a - 64), s.PM(a2, a) == s.PM(a - 64, a)), using=[], lem=())
    c.step('next excess', And(sx(g['ex'] - z3.Extract(31, 0, 2 * bv(r) - 64)) == s.E(a2) - g['T0']), using=[ev, nw, w, dd, dr], lem=())
    nf = c.step('not in this word', And(WB(x, bv(0)) - d > -(s.E(a) - g['T0']), within(WB(x, bv(0)) - d, -128, 128)), lem=())
    rg = c.step('range', And(within(s.E(a), -(1 << 33), 1 << 33), ULE(a2, a), ULE(a, g['s0']), ULE(g['s0'], bv(1 << 31)), s.PM(a, g['s0']) > g['T0']), lem=())
    c.step('not reached up to here', s.PM(a2, g['s0']) > g['T0'], using=[nf, rg, w, ev, nw, c.assume(pm_split(s.A, a2, a, g['s0']))], lem=())
    drop(c.st, BYTES)
def at_bs(c, r):
    g = c.st.ghost
    if 'word' not in g: return
    s = g['b']; a = g['word']; x = Select(s.A, g['bo'] + g['j'])
    d = c.nm(2 * bv(r) - 64, 'd'); dd = c.st.pc[-1:]
    dr = stp(c, 'excess of the word', And(d == WE(x, bv(64)), within(d, -64, 64), within(WM(x, bv(64)), -64, 0)), using=[mention(c.st, BYTES), bsum(c, r), dd], facts=[w_base(x)] + [lk_e(x, b, bv(8)) for b in range(8)] + [w_rng(x, bv(64))])
    w = stp(c, 'excess after the word', And(s.E(a + 64) == s.E(a) + d, s.PM(a, a + 64) == s.E(a) + WM(x, bv(64))), [win(s.A, a, x, bv(64), bv(64))])
    a2 = (g['bo'] + (g['j'] + bv(1)) ) << 6
    ev = c.step('excess so far', And(sx(g['ex']) == s.E(a) - g['T0'], within(s.E(a) - g['T0'], 1, (1 << 31) - 128)), lem=())
    nw = c.step('next word', And(a2 == a + 64, s.E(a2) == s.E(a + 64), s.PM(a, a2) == s.PM(a, a + 64)), using=[], lem=())
    c.step('next excess', And(sx(g['ex'] + z3.Extract(31, 0, 2 * bv(r) - 64)) == s.E(a2) - g['T0']), using=[ev, nw, w, dd, dr], lem=())
    nf = c.step('not in this word', And(WM(x, bv(64)) > -(s.E(a) - g['T0']), within(WM(x, bv(64)), -128, 128)), lem=())
    rg = c.step('range', And(within(s.E(a), -(1 << 33), 1 << 33), ULE(a, a2), ULE(g['s0'], a), ULE(a2, bv(1 << 32)), s.PM(g['s0'], a) > g['T0']), lem=())
    c.step('not reached up to here', s.PM(g['s0'], a2) > g['T0'], using=[nf, rg, w, ev, nw, c.assume(pm_split(s.A, g['s0'], a, a2))], lem=())
    drop(c.st, BYTES)
def bsum(c, r): return [p for p in c.st.pc if any(u.eq(bv(r)) for u in subterms(p))]
def mention(st, names): return [p for p in st.pc if any(z3.is_app(t) and t.decl().name() in names for t in subterms(p))]
# ------------------------------------------------------------------ searching for a block
def sp_sbs(back):
    def sp(c):
        s = pre_bp(c); k, T = c.a(1), sx(c.a(2, 32)); p = c.args[3]; sb = LShR(k, 5)
        c.pre('block', ULT(k, s.nblk)); c.modifies(p, 8)
        if c.mode == 'root':
            c.st.ghost.update(k=k, T0=T, sb=sb)
            c.step('block starts inside', ULT(k << 8, s.size), lem=())
            c.step('superblock start', And(s.E((sb << 5) << 8) == s.E(sb << 13), ULT(sb << 13, s.size), ULE(sb << 5, k)), lem=())
            c.fact([e_lip(s.A, bv(0), sb << 13), pm_at(s.A, k << 8, s.bend(k)), pm_pt(s.A, k << 8)])
        def post(c, r):
            f = tst(r); q = c.rd(p)
            c.post('block in range', Implies(f, And(UGE(q, sb << 5), ULE(q, k)) if back else And(UGE(q, k), ULT(q, s.nblk), ULT(q, (sb + 1) << 5))))
            c.post('the excess is reached in it', Implies(f, s.PM(q << 8, s.bend(q)) <= T))
            c.post('and not before it', Implies(And(f, q != k), (s.PM((q + 1) << 8, s.bend(k)) if back else s.PM(k << 8, q << 8)) > T))
            c.post('not found: not in this superblock', Implies(Not(f), (s.PM(sb << 13, s.bend(k)) if back else s.PM(k << 8, s.send(sb + 1))) > T))
        return post
    return sp
def sbs_inv(back):
    def inv(x):
        g = x.st.ghost; s = g['b']; q = x('cur_block'); k, T, sb = g['k'], g['T0'], g['sb']
        if x.mode == 'assume': g['lem'] = ()
        if back:
            q1 = q + 1
            x.st.assume([pm_split(s.A, q << 8, q1 << 8, s.bend(k)), pm_at(s.A, q << 8, q1 << 8), pm_at(s.A, q << 8, s.bend(q))])
            return [('block', And(ULE(sb << 5, q1), ULE(q1, k + 1))), ('not reached so far', Implies(q != k, s.PM(q1 << 8, s.bend(k)) > T))]
        cut = umin(q << 8, s.size)
        x.st.assume([pm_split(s.A, k << 8, q << 8, s.bend(q)), pm_at(s.A, q << 8, s.bend(q))])
        return [('block', And(ULE(k, q), ULE(q, umin((sb + 1) << 5, s.nblk)))), ('not reached so far', Implies(q != k, s.PM(k << 8, cut) > T))]
    return inv
def sp_smt(back):
    def sp(c):
        s = pre_bp(c); k, T = c.a(1), sx(c.a(2, 32)); sb = LShR(k, 5)
        c.pre('block', ULT(k, s.nblk))
        if back: W = bv(0); c.pre('reached earlier', T >= 0)
        else: W = wit(c); c.pre('reached later', And(ULE(k << 8, W), ULE(W, s.size), s.E(W) <= T))
        if c.mode == 'root':
            c.st.ghost.update(k=k, T0=T, sb=sb, W=W)
            c.fact([e_lip(s.A, bv(0), bv(0)), s.leaf(s.mi + sb)])
            c.step('sizes', And(ULT(sb, s.nsb), ULE(s.nsb, s.mi), ULT(s.mi, bv(1 << 19)), s.T.n == s.mi + s.nsb, ULT(k << 8, s.size), ULE(k << 8, s.bend(k)), UGE(s.mi << 13, s.size), ULT(sb << 13, s.size)), lem=())
        def post(c, r):
            r = bv(r)
            if c.mode == 'root':
                q = c.st.ghost.get('q')
                if q is not None:
                    if back: c.fact([pm_split(s.A, (r + 1) << 8, (q + 1) << 13, s.bend(k)), pm_pt(s.A, (r + 1) << 8)])
                    else: c.fact([pm_split(s.A, k << 8, q << 13, r << 8), pm_pt(s.A, q << 13)])
            c.post('block in range', ULE(r, k) if back else And(ULE(k, r), ULT(r, s.nblk)))
            c.post('the excess is reached in it', s.PM(r << 8, s.bend(r)) <= T)
            c.post('and not before it', Implies(r != k, (s.PM((r + 1) << 8, s.bend(k)) if back else s.PM(k << 8, r << 8)) > T))
        return post
    return sp
def smt_up(back):
    def inv(x):
        g = x.st.ghost; s = g['b']; n = x('cur_node'); k, T, sb, W = g['k'], g['T0'], g['sb'], g['W']; h = LShR(n, 1)
        x.st.assume([s.node(h), Implies(n == 1, s.node(bv(1)))])
        if x.mode == 'assume': g['lem'] = ()
        if back:
            o = n - 1
            x.st.assume([pm_lo(s.A, s.lo(n) << 13, s.bend(k), W), pm_split(s.A, s.lo(o) << 13, s.lo(n) << 13, s.bend(k)), pm_at(s.A, s.lo(o) << 13, s.send(s.hi(o))), e_lip(s.A, bv(0), s.lo(o) << 13)])
            return [('node', And(UGE(n, bv(1)), ULT(n, s.T.n))), ('block inside', And(ULE(s.lo(n), sb), ULT(sb, s.hi(n)), ULE(s.hi(n), s.mi))), ('not reached so far', s.PM(s.lo(n) << 13, s.bend(k)) > T)]
        o = n + 1
        x.st.assume([pm_lo(s.A, k << 8, s.send(s.hi(n)), W), pm_split(s.A, k << 8, s.send(s.hi(n)), s.send(s.hi(o))), pm_at(s.A, s.lo(o) << 13, s.send(s.hi(o))), e_lip(s.A, bv(0), s.lo(o) << 13)])
        return [('node', And(UGE(n, bv(1)), ULT(n, s.T.n))), ('block inside', And(ULE(s.lo(n), sb), ULT(sb, s.hi(n)), ULE(s.hi(n), s.mi))), ('not reached so far', s.PM(k << 8, s.send(s.hi(n))) > T)]
    return inv
def smt_down(back):
    def inv(x):
        g = x.st.ghost; s = g['b']; n = x('cur_node'); k, T, sb, W = g['k'], g['T0'], g['sb'], g['W']
        x.st.assume([s.node(n), s.leaf(n)])
        if x.mode == 'assume': g['lem'] = (); g['q'] = n - s.mi
        l, r = 2 * n, 2 * n + 1
        x.st.assume([pm_split(s.A, s.lo(n) << 13, s.send(s.hi(l)), s.send(s.hi(n))), pm_at(s.A, s.lo(l) << 13, s.send(s.hi(l))), pm_at(s.A, s.lo(r) << 13, s.send(s.hi(r))), e_lip(s.A, bv(0), s.lo(l) << 13), e_lip(s.A, bv(0), s.lo(r) << 13)])
        com = [('node', And(UGE(n, bv(1)), ULT(n, s.T.n))), ('reached in it', s.PM(s.lo(n) << 13, s.send(s.hi(n))) <= T)]
        if back:
            x.st.assume([pm_split(s.A, s.lo(r) << 13, s.hi(n) << 13, s.bend(k))])
            return com + [('earlier superblocks', And(ULE(s.hi(n), sb), ULT(s.lo(n), s.hi(n)))), ('not reached after it', s.PM(s.hi(n) << 13, s.bend(k)) > T)]
        x.st.assume([pm_split(s.A, k << 8, s.lo(n) << 13, s.lo(r) << 13), pm_lo(s.A, k << 8, s.lo(n) << 13, W)])
        return com + [('later superblocks', And(UGT(s.lo(n), sb), ULT(s.lo(n), s.nsb), ULT(s.lo(n), s.hi(n)), ULE(s.hi(n), s.mi))), ('not reached before it', s.PM(k << 8, s.lo(n) << 13) > T)]
    return inv
# ------------------------------------------------------------------ find_close, find_open
def sp_find_close(c):
    s = pre_bp(c); pos = c.a(1); W = wit(c); T = s.E(pos)
    c.pre('an opening parenthesis', And(ULT(pos, s.size), bitx(s.A, pos))); c.pre('which is closed', And(ULT(pos, W), ULE(W, s.size), s.E(W) <= T))
    if c.mode == 'root':
        a = c.nm(pos + 1, 'a'); tt = c.nm(T, 'T'); n = c.nm(64 - (a & 63), 'n')
        c.st.ghost.update(T0=tt, W=W, a=a, pos=pos, n=n, k=0); c.st.ghost['lem'] = ()
        c.fact([e_lip(s.A, bv(0), W), e_lip(s.A, bv(0), a), pm_lo(s.A, bv(0), s.size, pos), pm_pt(s.A, a)])
        stp(c, 'excess after it', s.E(a) == tt + 1, [e_step(s.A, pos)])
        c.step('range', And(within(tt, 0, SZ), ULT(a, s.size), ULT(a, bv(SZ)), ULE(s.size, bv(SZ))), lem=())
    def post(c, r):
        r = bv(r)
        if c.mode == 'root':
            g = c.st.ghost
            if 'fb' in g: c.fact([pm_split(s.A, g['a'], g['fb'] << 8, r)])
            elif 's0' in g: c.fact([pm_split(s.A, g['a'], g['s0'], r)])
        c.post('position inside', And(ULT(pos, r), ULT(r, s.size))); c.post('the excess is back there', s.E(r + 1) == T); c.post('and not before', s.PM(pos + 1, r) > T)
    return post
def fc_word(c, r):
    g = c.st.ghost; s = g['b']; a, n, T = g['a'], g['n'], g['T0']; x = bv(c.args[0]); f = tst(r); q = c.rd(c.args[3]); g['x'] = x
    b1 = stp(c, 'the bits searched', And(same_lo(s.A, a, x, n), ULE(n, bv(64)), UGE(n, bv(1))))
    b2 = stp(c, 'padding', Or(n == 64, LShR(x, n) == LShR(bv(-1), n)))
    r1 = c.step('found in the word', Implies(f, And(ULT(q, bv(64)), WE(x, q + 1) == -1, WM(x, q) > -1)), lem=())
    r2 = c.step('not found in the word', Implies(Not(f), WM(x, bv(64)) > -1), lem=())
    sm = c.step('range of a', And(ULT(a, bv(SZ)), s.E(a) == T + 1, within(T, 0, SZ)), lem=())
    ins = stp(c, 'inside the word', Implies(f, ULT(q, n)), [pad1(x, n, q), pad1(x, n, q + 1), w_rng(x, q + 1)], using=[b1, b2, r1])
    stp(c, 'close found', Implies(f, And(s.E(a + q + 1) == T, s.PM(a, a + q) > T, s.E(a + q + 1) == s.E(q + a + 1), s.PM(a, a + q) == s.PM(a, q + a))), [win(s.A, a, x, n, q + 1), win(s.A, a, x, n, q), w_rng(x, q)], using=[b1, r1, ins, sm])
    stp(c, 'before the witness', Implies(f, ULT(a + q, g['W'])), [pm_lo(s.A, a, a + q, g['W'])])
    pd = stp(c, 'minimum without the padding', And(WM(x, n) == WM(x, bv(64)), WE(x, bv(64)) == WE(x, n) + (64 - n), within(WE(x, n), -64, 64), within(WM(x, n), -64, 0)), [pad1(x, n, bv(64)), w_rng(x, n)], using=[b1, b2])
    w = stp(c, 'rest of the word', And(s.E(a + n) == s.E(a) + WE(x, n), s.PM(a, a + n) == s.E(a) + WM(x, n)), [win(s.A, a, x, n, n)], using=[b1, sm])
    stp(c, 'rest not found', Implies(Not(f), s.PM(a, a + n) > T), using=[w, pd, r2, sm])
    g['w'] = [w, pd, sm, b1]
    drop(c.st, ('WM', 'WA', 'WB'), keep=flat(g['w']))
def fc_sum(c, r):
    g = c.st.ghost; s = g['b']; a, n, T, x = g['a'], g['n'], g['T0'], g['x']; r = bv(r)
    d = c.nm(2 * r - 64, 'd'); dd = c.st.pc[-1:]
    dr = stp(c, 'excess of the word', And(d == WE(x, bv(64)), within(d, -64, 64)), using=[mention(c.st, BYTES), bsum(c, r), dd], facts=[w_base(x)] + [lk_e(x, b, bv(8)) for b in range(8)] + [w_rng(x, bv(64))])
    drop(c.st, BYTES)
    s0 = c.nm(a + n, 's0'); s0d = c.st.pc[-1:]; g['s0'] = s0; sh = a & 63; wp = LShR(a, 6)
    nd = c.step('n', n == 64 - sh, lem=())
    le = c.step('local excess', And(sx(z3.Extract(31, 0, 2 * (r - sh) - (64 - sh)) + 1) == s.E(s0) - T), using=[g['w'], dr, dd, s0d, nd], lem=())
    wd = c.step('next word', And(s0 == ((wp & ~bv(3)) + ((wp & 3) + 1)) << 6, s0 == (wp + 1) << 6, ULE(a, s0), ULE(s0, bv(SZ + 64))), using=[s0d, nd, g['w']], lem=())
    c.fact([pm_lo(s.A, a, s0, g['W']), pm_at(s.A, a, s0)])
    c.step('not yet reached', And(s.PM(a, s0) > T, ULT(s0, g['W']), within(s.E(s0) - T, 1, 64 + 1)), lem=())
    drop(c.st, ('WE', 'WM', 'WB', 'WA'))
def fc_blk(c, r):
    g = c.st.ghost; s = g['b']; a, T = g['a'], g['T0']; f = tst(r); g['k'] += 1
    if g['k'] == 1:
        s0 = g['s0']; e = (LShR(s0 - 64, 8) + 1) << 8
        stp(c, 'not in the block', Implies(Not(f), s.PM(a, e) > T), [pm_split(s.A, a, s0, e)])
        stp(c, 'the witness is later', Implies(Not(f), ULT(e, g['W'])), [pm_lo(s.A, a, e, g['W'])])
    else:
        fb = g['fb']; c.fact([pm_lo(s.A, fb << 8, (fb + 1) << 8, g['W'])])
def fc_tree(c, r):
    g = c.st.ghost; s = g['b']; a, T = g['a'], g['T0']; r = bv(r); g['fb'] = r; k = bv(c.args[1])
    pa = stp(c, 'not before the block', And(s.PM(a, r << 8) > T), [pm_split(s.A, a, k << 8, r << 8)])
    g['W'] = s.AM(r << 8, s.bend(r))
    c.fact([pm_at(s.A, r << 8, s.bend(r)), pm_at(s.A, a, r << 8), pm_lo(s.A, bv(0), s.size, r << 8), e_lip(s.A, bv(0), r << 8)])
    c.step('excess before the block', And(within(s.E(r << 8) - T, 1, SZ), ULT(r << 8, s.size), s.E((LShR(r << 2, 0) + 0) << 6) == s.E(r << 8)), lem=())
def sp_find_open(enc):
    def sp(c):
        s = pre_bp(c); pos = c.a(1); T = s.E(pos) - 1
        c.pre('position', And(ULT(pos, s.size), pos != 0)); c.pre('inside a pair', s.E(pos) >= 1)
        if enc: c.pre('an opening parenthesis', bitx(s.A, pos))
        if c.mode == 'root' and not enc:
            tt = c.nm(T, 'T'); n = c.nm(pos & 63, 'n')
            c.st.ghost.update(T0=tt, a=pos, n=n, k=0); c.st.ghost['lem'] = ()
            c.fact([e_lip(s.A, bv(0), pos), pm_pt(s.A, pos), pm_pt(s.A, bv(0))])
            c.step('range', And(s.E(pos) == tt + 1, s.E(bv(0)) == 0, within(tt, 0, SZ), ULT(pos, bv(SZ)), ULE(s.size, bv(SZ))), lem=())
        def post(c, r):
            r = bv(r)
            if c.mode == 'root' and not enc:
                g = c.st.ghost
                if 'fb' in g: c.fact([pm_split(s.A, r + 1, (g['fb'] + 1) << 8, pos), pm_pt(s.A, (g['fb'] + 1) << 8)])
                elif 's0' in g: c.fact([pm_split(s.A, r + 1, g['s0'], pos)])
            c.post('position inside', ULT(r, pos)); c.post('one pair less is open there', s.E(r) == T); c.post('and not after', s.PM(r + 1, pos) > T)
        return post
    return sp
def fo_word(c, r):
    g = c.st.ghost; s = g['b']; a, n, T = g['a'], g['n'], g['T0']; x = bv(c.args[0]); f = tst(r); q = c.rd(c.args[3]); g['x'] = x; m = 64 - n
    b1 = stp(c, 'the bits searched', And(ULE(n, bv(63)), ULE(n, a), Or(n == 0, And(LShR(a - n, 6) == LShR(a - 1, 6), ((LShR(x, m) ^ LShR(Select(s.A, LShR(a - n, 6)), (a - n) & 63)) & LM(n)) == 0))))
    b2 = stp(c, 'padding', (x & LM(m)) == 0)
    r1 = c.step('found in the word', Implies(f, And(ULT(q, bv(64)), WE(x, q) == WE(x, bv(64)) - 1, WB(x, q + 1) > WE(x, bv(64)) - 1)), lem=())
    r2 = c.step('not found in the word', Implies(Not(f), WB(x, bv(0)) > WE(x, bv(64)) - 1), lem=())
    sm = c.step('range of a', And(ULT(a, bv(SZ)), s.E(a) == T + 1, within(T, 0, SZ)), lem=())
    rg = c.step('range of the word', within(WE(x, bv(64)), -64, 64), using=[c.assume(w_rng(x, bv(64)))], lem=())
    ins = stp(c, 'inside the word', Implies(f, UGE(q, m)), [pad0(x, m, q), pad0(x, m, q + 1), w_rng(x, q + 1)], using=[b1, b2, r1, rg])
    stp(c, 'open found', Implies(f, And(s.E(a - 64 + q) == T, s.PM(a - 64 + q + 1, a) > T, s.E(a - 64 + q) == s.E(q + (a - 64)), s.PM(a - 64 + q + 1, a) == s.PM(q + (a - 64) + 1, a))), [winb(s.A, a, x, n, q + 1), winb(s.A, a, x, n, q), w_rng(x, q + 1)], using=[b1, r1, ins, sm, rg])
    pd = stp(c, 'minimum without the padding', And(WB(x, m) == WB(x, bv(0)), WE(x, m) == -m, within(WB(x, m) - WE(x, bv(64)), -64, 0)), [pad0(x, m, bv(0)), pad0(x, m, m), w_rng(x, m)], using=[b1, b2])
    w = stp(c, 'rest of the word', And(s.E(a - n) == s.E(a) + WE(x, m) - WE(x, bv(64)), s.PM(a - n, a) == s.E(a) + WB(x, m) - WE(x, bv(64))), [winb(s.A, a, x, n, m)], using=[b1, sm])
    stp(c, 'rest not found', Implies(Not(f), s.PM(a - n, a) > T), using=[w, pd, r2, sm, rg])
    g['w'] = [w, pd, sm, b1, rg]
    drop(c.st, ('WM', 'WA', 'WB'), keep=flat(g['w']))
def fo_sum(c, r):
    g = c.st.ghost; s = g['b']; a, n, T, x = g['a'], g['n'], g['T0'], g['x']; r = bv(r)
    d = c.nm(2 * r - 64, 'd'); dd = c.st.pc[-1:]
    dr = stp(c, 'excess of the word', And(d == WE(x, bv(64)), within(d, -64, 64)), using=[mention(c.st, BYTES), bsum(c, r), dd], facts=[w_base(x)] + [lk_e(x, b, bv(8)) for b in range(8)] + [w_rng(x, bv(64))])
    drop(c.st, BYTES)
    s0 = c.nm(a - n, 's0'); s0d = c.st.pc[-1:]; g['s0'] = s0; wp = LShR(a, 6); ln = a & 63
    nd = c.step('n', n == ln, lem=())
    le = c.step('local excess', sx(-z3.Extract(31, 0, 2 * r - ln) + 1) == s.E(s0) - T, using=[g['w'], dr, dd, s0d, nd], lem=())
    wd = c.step('word start', And(s0 == ((wp & ~bv(3)) + (wp & 3)) << 6, s0 == wp << 6, ULE(s0, a)), using=[s0d, nd, g['w']], lem=())
    c.fact([pm_at(s.A, s0, a)])
    c.step('not yet reached', And(s.PM(s0, a) > T, within(s.E(s0) - T, 1, 64 + 1)), lem=())
    drop(c.st, ('WE', 'WM', 'WB', 'WA'))
def fo_blk(c, r):
    g = c.st.ghost; s = g['b']; a, T = g['a'], g['T0']; f = tst(r); g['k'] += 1
    if g['k'] == 1:
        s0 = g['s0']; e = LShR(s0, 8) << 8
        stp(c, 'not in the block', Implies(Not(f), s.PM(e, a) > T), [pm_split(s.A, e, s0, a)])
        stp(c, 'there is an earlier block', Implies(Not(f), And(e != 0, UGE(e, bv(256)))), [pm_lo(s.A, e, a, bv(0))])
    else:
        fb = g['fb']; c.fact([pm_lo(s.A, fb << 8, (fb + 1) << 8, s.AM(fb << 8, s.bend(fb)))])
def fo_tree(c, r):
    g = c.st.ghost; s = g['b']; a, T = g['a'], g['T0']; r = bv(r); g['fb'] = r; k = bv(c.args[1]); r1 = (r + 1) << 8
    al = stp(c, 'block boundary', And(s.bend(k) == (k + 1) << 8, s.bend(r) == r1, ULE(r1, (k + 1) << 8), ULE((k + 1) << 8, a), ULE(r, k)))
    stp(c, 'not after the block', s.PM(r1, a) > T, [pm_split(s.A, r1, (k + 1) << 8, a), pm_pt(s.A, r1)])
    c.fact([pm_at(s.A, r << 8, s.bend(r)), pm_at(s.A, r1, a), e_lip(s.A, bv(0), r1)])
    c.step('excess after the block', And(within(s.E(r1) - T, 1, SZ), ULT(r1, s.size)), lem=())
MEM = r'(?:bool |void |unsigned long |int )?succinct::bp_vector::'
def xy(v): return [fresh('x'), fresh('y')]
NSB = r'(?:unsigned (?:long|char) |bool )?succinct::broadword::'
ANON = r'(?:bool |void )?succinct::\(anonymous namespace\)::'
P = ('C10', 'C11')
def K(name, root, spec, args, pat=None, **k):
    o = {'glob_init': GI}; o.update(k.pop('opts', {}))
    return Contract(name, k.pop('tu', TU), root, spec, args, pat, props=k.pop('props', P), opts=o, **k)
# ------------------------------------------------------------------ the lemmas, from the definitions by recursion
def d_w(F, M, X, x, j):
    """one more position j of x (word or byte)"""
    return [F(x, j + 1) == F(x, j) + If(wbit(x, j), bv(1), bv(-1)), M(x, j + 1) == smin(M(x, j), F(x, j + 1))] + ([X(x, j + 1) == If(F(x, j + 1) < M(x, j), j + 1, X(x, j))] if X is not None else [])
def d_b(F, Bk, x, j): return [Bk(x, j) == smin(Bk(x, j + 1), F(x, j))]
def d_e(A, p): return [e_step(A, p)]
def d_pm(A, a, b): return [PM(A, a, b + 1) == smin(PM(A, a, b), E(A, b + 1)), AM(A, a, b + 1) == If(E(A, b + 1) < PM(A, a, b), b + 1, AM(A, a, b))]
def bp_obls():
    out = []; P = lambda n, hyp, goal: out.append((n, list(hyp) + [Not(goal)]))
    x, j, n, i, c0 = z3.BitVecs('x j n i c0', 64); A = z3.Const('A', A64); a, b, m, p, q = z3.BitVecs('a b m p q', 64)
    BX = z3.Function('BX', B64, B64, B64)       # BA(c) = BX(c, 8)
    bdef = lambda c: [BE(c, bv(0)) == 0, BM(c, bv(0)) == 0, BX(c, bv(0)) == 0, BA(c) == BX(c, bv(8)), BB(c, bv(8)) == BE(c, bv(8))] + sum((d_w(BE, BM, BX, c, bv(k)) + d_b(BE, BB, c, bv(k)) for k in range(8)), [])
    # bytes
    P('byte excess ranges', [ULT(c0, bv(256))] + bdef(c0), be_rng(c0))
    P('byte excess is 2 popcount - 8', bdef(c0), be_pop(c0))
    # words: ranges by induction (upwards; downwards for the parts about position 64)
    up = lambda j: And(within(WE(x, j), -j, j), within(WM(x, j), -j, 0), ULE(WA(x, j), j), WM(x, j) <= WE(x, j))
    dn = lambda j: And(WB(x, j) <= WE(x, j), WB(x, j) <= WE(x, bv(64)), within(WE(x, bv(64)) - WE(x, j), -(64 - j), 64 - j), within(WB(x, j) - WE(x, bv(64)), -(64 - j), 0))
    P('word ranges (base)', [w_base(x)], And(up(bv(0)), Implies(within(WE(x, bv(64)), -64, 64), dn(bv(64)))))
    P('word ranges (step)', [ULT(j, bv(64)), up(j)] + d_w(WE, WM, WA, x, j), up(j + 1))
    P('word ranges (backward step)', [ULT(j, bv(64)), dn(j + 1), up(j), up(bv(64))] + d_w(WE, WM, WA, x, j) + d_b(WE, WB, x, j), dn(j))
    P('word ranges (summary)', [ULE(j, bv(64)), up(j), dn(j)], w_rng(x, j))
    P('word step', [ULT(j, bv(64))] + d_w(WE, WM, WA, x, j) + d_b(WE, WB, x, j), w_step(x, j))
    for k in range(8):
        c = byte(x, k); z = bv(8 * k); hyp = bdef(c) + sum((d_w(WE, WM, WA, x, bv(8 * k + t)) + d_b(WE, WB, x, bv(8 * k + t)) for t in range(8)), []) + [up(z), dn(bv(8 * k + 8))]
        for t in range(9): P('byte %d, %d bits: excess and minimum' % (k, t), hyp, And(lk_e(x, k, bv(t)), lk_m(x, k, bv(t))))
        P('byte %d: position of the minimum' % k, hyp, lk_a(x, k))
        for t in range(9): P('byte %d, from bit %d: backward minimum' % (k, t), hyp, lk_b(x, k, bv(t)))
        P('byte %d by index' % k, [be_rng(c), lk_e(x, k, bv(8)), lk_m(x, k, bv(8)), lk_a(x, k), i == k], w8(x, i))
    # padding
    ones = Or(n == 64, LShR(x, n) == LShR(bv(-1), n)); pp = lambda j: And(WE(x, j) == WE(x, n) + (j - n), WM(x, j) == WM(x, n), WA(x, j) == WA(x, n))
    P('padding with ones (step)', [ones, ULE(n, j), ULT(j, bv(64)), up(n), up(j), pp(j)] + d_w(WE, WM, WA, x, j), pp(j + 1))
    P('padding with ones (summary)', [Implies(And(ULE(n, j), ULE(j, bv(64)), ones), pp(j))], pad1(x, n, j))
    zeros = Or(n == 0, (x & LM(n)) == 0)
    P('padding with zeros (excess, step)', [zeros, ULE(n, bv(64)), ULT(j, n), WE(x, j) == -j] + d_w(WE, WM, WA, x, j), WE(x, j + 1) == -(j + 1))
    P('padding with zeros (backward step)', [zeros, ULE(n, bv(64)), ULT(j, n), WE(x, j) == -j, WE(x, n) == -n, WB(x, n) <= WE(x, n), WB(x, j + 1) == WB(x, n)] + d_b(WE, WB, x, j), WB(x, j) == WB(x, n))
    P('padding with zeros (summary)', [Implies(And(zeros, ULE(j, n), ULE(n, bv(64))), And(WE(x, j) == -j, WB(x, j) == WB(x, n)))], pad0(x, n, j))
    # excess of the whole sequence
    P('excess by rank (base)', [PC(bv(0)) == 0, RW(A, bv(0)) == 0, E(A, 0) == 0], e_rk(A, bv(0)))
    rk, rk1 = z3.BitVecs('rk rk1', 64)
    P('excess by rank (step)', d_e(A, p) + [E(A, p) == 2 * rk - p, rk1 == rk + bit1(bitx(A, p))], E(A, p + 1) == 2 * rk1 - (p + 1))     # RK(p+1) = RK(p) + bit p: theory
    P('excess by word rank', [PC(bv(0)) == 0, ULE(p, bv(1 << 57)), e_rk(A, p << 6)], e_rw(A, p))
    cl = lambda p, q: And(within(E(A, q) - E(A, p), -(q - p), q - p), within(E(A, p), -p, p), within(E(A, q), -q, q))
    P('excess is Lipschitz (base)', [SMALL(p), within(E(A, p), -p, p)], cl(p, p))
    P('excess is Lipschitz (step)', [ULE(p, q), ULE(q + 1, bv(1 << 32)), SMALL(q), cl(p, q)] + d_e(A, q), cl(p, q + 1))
    P('excess bounded (step)', [ULT(p, bv(1 << 32)), within(E(A, p), -p, p)] + d_e(A, p), within(E(A, p + 1), -(p + 1), p + 1))
    at = lambda a, b: pm_at(A, a, b)
    P('range minimum (base)', [pm_pt(A, a), SMALL(a), within(E(A, a), -a, a)], at(a, a))
    P('range minimum (step)', [ULE(a, b), ULT(b, bv(1 << 32)), at(a, b), e_lip(A, a, b), e_lip(A, a, b + 1), e_lip(A, b, b + 1)] + d_pm(A, a, b) + d_e(A, b), at(a, b + 1))
    P('range minimum is a lower bound (base)', [pm_pt(A, a)], pm_lo(A, a, a, a))
    P('range minimum is a lower bound (step)', [ULE(a, b), ULT(b, bv(1 << 32)), pm_lo(A, a, b, q)] + d_pm(A, a, b), pm_lo(A, a, b + 1, q))
    P('range minimum splits (base)', [pm_pt(A, m), pm_at(A, a, m), pm_lo(A, a, m, m)], pm_split(A, a, m, m))
    P('range minimum splits (step)', [ULE(a, m), ULE(m, b), ULT(b, bv(1 << 32)), pm_split(A, a, m, b)] + d_pm(A, a, b) + d_pm(A, m, b), pm_split(A, a, m, b + 1))
    P('range minimum from the left', [ULT(a, b), SMALL(b), pm_split(A, a, a + 1, b), pm_pt(A, a), PM(A, a, a + 1) == smin(PM(A, a, a), E(A, a + 1)), pm_lo(A, a + 1, b, a + 1)], PM(A, a, b) == smin(PM(A, a + 1, b), E(A, a)))
    # windows
    con = lambda j: And(E(A, a + j) == E(A, a) + WE(x, j), PM(A, a, a + j) == E(A, a) + WM(x, j), AM(A, a, a + j) == a + WA(x, j), within(WE(x, j), -j, j), within(WM(x, j), -j, 0))
    P('window (base)', [w_base(x), pm_pt(A, a)], con(bv(0)))
    P('window (step)', [SMALL(a), within(E(A, a), -a, a), same_lo(A, a, x, n), ULE(n, bv(64)), ULT(j, n), con(j)] + d_w(WE, WM, WA, x, j) + d_e(A, a + j) + d_pm(A, a, a + j), con(j + 1))
    P('window (summary)', [Implies(And(SMALL(a), same_lo(A, a, x, n), ULE(j, n)), con(j))], win(A, a, x, n, j))
    bits = And(SMALL(p), ULE(n, bv(64)), ULE(n, p), Or(n == 0, And(LShR(p - n, 6) == LShR(p - 1, 6), ((LShR(x, 64 - n) ^ LShR(Select(A, LShR(p - n, 6)), (p - n) & 63)) & LM(n)) == 0)))
    conb = lambda j: And(E(A, p - 64 + j) == E(A, p) + WE(x, j) - WE(x, bv(64)), PM(A, p - 64 + j, p) == E(A, p) + WB(x, j) - WE(x, bv(64)))
    P('backward window (base)', [w_base(x), pm_pt(A, p)], conb(bv(64)))
    P('the bits of a backward window', [bits, ULE(64 - n, j), ULT(j, bv(64))], wbit(x, j) == bitx(A, p - 64 + j))
    y = p - 64 + j
    P('backward window (step)', [bits, ULE(64 - n, j), ULT(j, bv(64)), within(E(A, p), -p, p), dn(j), dn(j + 1), up(bv(64)), conb(j + 1), wbit(x, j) == bitx(A, y), PM(A, y, p) == smin(PM(A, y + 1, p), E(A, y)), y + 1 == p - 64 + (j + 1), E(A, y + 1) == E(A, p - 64 + (j + 1)), PM(A, y + 1, p) == PM(A, p - 64 + (j + 1), p)] + d_w(WE, WM, WA, x, j) + d_b(WE, WB, x, j) + d_e(A, y), conb(j))
    P('backward window (summary)', [Implies(And(bits, ULE(64 - n, j), ULE(j, bv(64))), conb(j))], winb(A, p, x, n, j))
    # the tree: with 2^H leaves, node i of depth d covers the leaves (i << h) - 2^H .. + 2^h, h = H - d
    H, d = z3.BitVecs('H d', 64); mi = bv(1) << H
    class S: pass
    s = BP.__new__(BP); s.mi = mi
    dep = lambda i, d: And(ULE(d, H), ULE(bv(1) << d, i), ULT(i, bv(1) << (d + 1)))
    cov = lambda i, d: [LOF(mi, i) == (i << (H - d)) - mi, LWF(mi, i) == bv(1) << (H - d)]
    P('nodes of the tree', [ULE(H, bv(30)), dep(i, d)] + cov(i, d) + [Implies(ULT(d, H), And(*(cov(2 * i, d + 1) + cov(2 * i + 1, d + 1))))] + [s.leaf(2 * i), s.leaf(2 * i + 1)], s.node(i))
    P('children are one deeper', [ULE(H, bv(30)), ULT(d, H), dep(i, d)], And(dep(2 * i, d + 1), dep(2 * i + 1, d + 1)))
    P('leaves of the tree', [ULE(H, bv(30)), dep(i, d)] + cov(i, d), s.leaf(i))
    return out
EXTRA_OBLS = bp_obls
CONTRACTS = [
    K('bp.tables', 'h_bp_tables', sp_tables, a_tables, opts=dict(max_unroll=400)),
    K('bp.leq_step_8', 'h_leq_step_8', sp_leq, xy, NSB + r'leq_step_8\(unsigned long, unsigned long\)', tu='bw'),
    K('bp.reverse_bytes', 'h_reverse_bytes', sp_rev, lambda v: [fresh('x')], NSB + r'reverse_bytes\(unsigned long\)', tu='bw'),
    K('bp.find_close_in_word', 'h_bp_fcw', sp_fcw(False), a_fcw, ANON + r'find_close_in_word\(.*\)', cuts=('bp.leq_step_8', 'lsb2#'), opts=dict(after={'bp.leq_step_8': at_leq(False)})),
    K('bp.find_open_in_word', 'h_bp_fow', sp_fcw(True), a_fcw, ANON + r'find_open_in_word\(.*\)', cuts=('bp.leq_step_8', 'bp.reverse_bytes', 'lsb2#'), opts=dict(after={'bp.leq_step_8': at_leq(True), 'bp.reverse_bytes': at_rev})),
    K('bp.excess_rmq_in_word', 'h_bp_rmqw', sp_rmqw, a_rmqw, ANON + r'excess_rmq_in_word\(.*\)', loops=[LoopSpec(rmqw_inv, lambda x: bv(9) - x('i'))], props=('C11',)),
    K('bp.byte_counts', 'h_byte_counts', sp_bc, lambda v: [fresh('x')], NSB + r'byte_counts\(unsigned long\)', tu='bw'),
    K('bp.bytes_sum', 'h_bytes_sum', sp_bs, lambda v: [fresh('x')], NSB + r'bytes_sum\(unsigned long\)', tu='bw'),
    K('bp.get_block_excess', 'h_bp_gbe', sp_gbe, a_bp('block'), MEM + r'get_block_excess\(unsigned long\) const', cuts=('rs.sub_block_rank',), lemmas=RANK),
    K('bp.excess', 'h_bp_excess', sp_excess, a_bp('pos'), MEM + r'excess\(unsigned long\) const', cuts=('rs.rank',), lemmas=RANK),
    K('bp.find_close_in_block', 'h_bp_fcb', sp_fcb, a_bp('block_offset', ('excess', 32), 'start', ('*', 64)), MEM + r'find_close_in_block\(.*\) const', cuts=('bp.byte_counts', 'bp.bytes_sum', 'bp.find_close_in_word'), loops=[LoopSpec(fcb_inv, lambda x: bv(4) - x('sub_block_offset'))], opts=dict(after={'bp.find_close_in_word': at_fcw, 'bp.bytes_sum': at_bs})),
    K('bp.find_open_in_block', 'h_bp_fob', sp_fob, a_bp('block_offset', ('excess', 32), 'start', ('*', 64)), MEM + r'find_open_in_block\(.*\) const', cuts=('bp.byte_counts', 'bp.bytes_sum', 'bp.find_open_in_word'), loops=[LoopSpec(fob_inv, lambda x: x('sub_block_offset') + 1)], opts=dict(after={'bp.find_open_in_word': at_fcw, 'bp.bytes_sum': at_bsb})),
] + [x for d in (1, 0) for x in (
    K('bp.search_block_in_superblock<%d>' % d, 'h_bp_sbs%d' % d, sp_sbs(not d), a_bp('block', ('excess', 32), ('*', 64)), MEM + r'search_block_in_superblock<%d>\(.*\) const' % d, cuts=('bp.get_block_excess',), loops=[LoopSpec(sbs_inv(not d), (lambda x: x('cur_block') + 1) if not d else lambda x: bv(1 << 60) - x('cur_block'))]),
    K('bp.search_min_tree<%d>' % d, 'h_bp_smt%d' % d, sp_smt(not d), a_bp('block', ('excess', 32)), MEM + r'search_min_tree<%d>\(.*\) const' % d, cuts=('bp.search_block_in_superblock<%d>' % d,), loops=[LoopSpec(smt_up(not d), lambda x: x('cur_node')), LoopSpec(smt_down(not d), lambda x: bv(1 << 60) - x('cur_node'))]),
)] + [
    K('bp.find_close', 'h_bp_find_close', sp_find_close, a_bp('pos'), MEM + r'find_close\(unsigned long\) const', cuts=('bp.byte_counts', 'bp.bytes_sum', 'bp.find_close_in_word', 'bp.find_close_in_block', 'bp.search_min_tree<1>', 'bp.get_block_excess', 'bp.excess'), opts=dict(after={'bp.find_close_in_word': fc_word, 'bp.bytes_sum': fc_sum, 'bp.find_close_in_block': fc_blk, 'bp.search_min_tree<1>': fc_tree})),
    K('bp.find_open', 'h_bp_find_open', sp_find_open(False), a_bp('pos'), MEM + r'find_open\(unsigned long\) const', cuts=('bp.byte_counts', 'bp.bytes_sum', 'bp.find_open_in_word', 'bp.find_open_in_block', 'bp.search_min_tree<0>', 'bp.get_block_excess', 'bp.excess'), opts=dict(after={'bp.find_open_in_word': fo_word, 'bp.bytes_sum': fo_sum, 'bp.find_open_in_block': fo_blk, 'bp.search_min_tree<0>': fo_tree})),
    K('bp.enclose', 'h_bp_enclose', sp_find_open(True), a_bp('pos'), cuts=('bp.find_open',)),
]
