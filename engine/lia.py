"""Reduction of a ground query to linear integer arithmetic.  Every bit-vector term of width w becomes an integer in [0,2^w);
additions, constant multiplications, constant shifts, low masks, extracts and concatenations are translated exactly (with
explicit quotients and carries); every other bit-level operation becomes an unconstrained bounded integer (same term, same
integer).  Applications of uninterpreted functions and array reads become variables with congruence constraints.  All of this
only weakens the assumptions, so `unsat` of the reduction decides the query; `sat` is not used."""
import z3
from .ack import NotReducible

def reduce(al, ctx, congr=True):
    I = z3.IntSort(ctx)
    side, cache, keep, fun = [], {}, [], {}
    n = [0]
    def iv(x): return z3.IntVal(x, ctx)
    def fr(lo, hi, p='i'):
        n[0] += 1
        v = z3.Int('%s!%d' % (p, n[0]), ctx)
        side.append(v >= iv(lo)); side.append(v <= iv(hi))
        return v
    def frb():
        n[0] += 1
        return z3.Bool('b!%d' % n[0], ctx)
    qr = {}
    def val(e): return e.as_long() if z3.is_int_value(e) else None
    def divmod_(x, d, w):
        """x in [0,2^w)"""
        if val(x) is not None: return iv(val(x) // d), iv(val(x) % d)
        k = (x.get_id(), d)
        if k not in qr:
            keep.append(x)
            if d >= 1 << w: qr[k] = (iv(0), x)
            else:
                q, r = fr(0, ((1 << w) - 1) // d, 'q'), fr(0, d - 1, 'r')
                side.append(x == q * d + r)
                qr[k] = (q, r)
        return qr[k]
    wraps = {}
    def wrap(lin, lo, hi, w):
        """the residue of lin (known in [lo,hi]) modulo 2^w"""
        M = 1 << w
        if lo >= 0 and hi < M: return lin
        lin = z3.simplify(lin)
        if val(lin) is not None: return iv(val(lin) % M)
        k = lin.get_id(), w
        if k not in wraps:
            keep.append(lin)
            q = fr(lo // M, hi // M, 'c'); r = fr(0, M - 1, 's')
            side.append(lin == q * M + r)
            wraps[k] = r
        return wraps[k]
    bound = {}
    def bd(e, w):
        v = val(e)
        if v is not None: return v, v
        return bound.get(e.get_id(), (0, (1 << w) - 1))
    def app(key, args, w):
        L = fun.setdefault(key, [])
        for a, v in L:
            if all(x.eq(y) for x, y in zip(a, args)): return v
        v = frb() if w == 0 else fr(0, (1 << w) - 1, 'f')
        L.append((args, v))
        return v
    memo = {}
    def read(arr, idx, w):
        k = arr.decl().kind()
        if k == z3.Z3_OP_STORE:
            i = go(arr.arg(1)); v = go(arr.arg(2))
            if i.eq(idx): return v
            if val(i) is not None and val(idx) is not None: return read(arr.arg(0), idx, w)
            return z3.If(i == idx, v, read(arr.arg(0), idx, w))
        if k == z3.Z3_OP_ITE: return z3.If(go(arr.arg(0)), read(arr.arg(1), idx, w), read(arr.arg(2), idx, w))
        if k == z3.Z3_OP_CONST_ARRAY: return go(arr.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED:
            keep.append(arr); return app(('sel', arr.get_id()), (idx,), w)
        raise NotReducible(str(arr.decl()))
    def width(t): return t.size() if z3.is_bv(t) else 0
    def sg(x, w):
        return z3.If(x >= iv(1 << (w - 1)), x - iv(1 << w), x)
    opq = {}
    def opaque(t, ch, w, lo=0, hi=None):
        k = (t.decl().kind(), tuple(t.decl().params()) if t.decl().params() else (), tuple(c.get_id() for c in ch))
        if k not in opq:
            keep.extend(ch)
            opq[k] = fr(lo, (1 << w) - 1 if hi is None else hi, 'o')
        return opq[k]
    prods = {}
    def prod(x, y, hi):
        """the integer product of two variable terms, as one variable"""
        k = tuple(sorted((x.get_id(), y.get_id())))
        if k not in prods: keep.extend((x, y)); prods[k] = (fr(0, hi, 'p'), x, y)
        return prods[k][0]
    def tr(t):
        k = t.decl().kind(); w = width(t)
        if z3.is_bv_value(t): return iv(t.as_long())
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            if z3.is_bool(t): return t
            return fr(0, (1 << w) - 1, 'v')
        if k == z3.Z3_OP_SELECT:
            idx = cache[t.arg(1).get_id()]
            kk = (t.arg(0).get_id(), idx.get_id())
            if kk not in memo:
                keep.append(idx); memo[kk] = read(t.arg(0), idx, w)
            return memo[kk]
        if k == z3.Z3_OP_UNINTERPRETED:
            ak = tuple(c.get_id() for c in t.children() if z3.is_array(c))
            return app((t.decl().name(), ak), tuple(cache[c.get_id()] for c in t.children() if not z3.is_array(c)), w)
        if any(z3.is_array(c) for c in t.children()):
            if k == z3.Z3_OP_EQ and t.arg(0).eq(t.arg(1)): return z3.BoolVal(True, ctx)
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT): return frb()
            raise NotReducible(str(t.decl()))
        ch = [cache[c.get_id()] for c in t.children()]
        if z3.is_bool(t):
            w = width(t.arg(0)) if t.num_args() else 0
            if k == z3.Z3_OP_ULEQ: return ch[0] <= ch[1]
            if k == z3.Z3_OP_ULT: return ch[0] < ch[1]
            if k == z3.Z3_OP_UGEQ: return ch[0] >= ch[1]
            if k == z3.Z3_OP_UGT: return ch[0] > ch[1]
            if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                a, b = sg(ch[0], w), sg(ch[1], w)
                return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k]
            if k == z3.Z3_OP_EQ: return ch[0] == ch[1]
            if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
            if k == z3.Z3_OP_AND: return z3.And(*ch)
            if k == z3.Z3_OP_OR: return z3.Or(*ch)
            if k == z3.Z3_OP_NOT: return z3.Not(ch[0])
            if k == z3.Z3_OP_IMPLIES: return z3.Implies(*ch)
            if k == z3.Z3_OP_XOR: return z3.Xor(*ch)
            if k == z3.Z3_OP_ITE: return z3.If(*ch)
            if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return t
            return frb()
        M = (1 << w)
        if k == z3.Z3_OP_ITE: return z3.If(*ch)
        if k == z3.Z3_OP_BADD:
            B = [bd(c, w) for c in ch]
            return wrap(z3.Sum(*ch), sum(b[0] for b in B), sum(b[1] for b in B), w)
        if k == z3.Z3_OP_BSUB and len(ch) == 2:
            a, b = bd(ch[0], w), bd(ch[1], w)
            return wrap(ch[0] - ch[1], a[0] - b[1], a[1] - b[0], w)
        if k == z3.Z3_OP_BNEG: return wrap(-ch[0], -bd(ch[0], w)[1], 0, w)
        if k == z3.Z3_OP_BNOT: return iv(M - 1) - ch[0]
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            for x, y in ((0, 1), (1, 0)):
                c = val(ch[x])
                if c is not None:
                    if c >= M // 2:      # a negative constant
                        return wrap(ch[y] * (c - M), (c - M) * (M - 1), 0, w)
                    return wrap(ch[y] * c, 0, c * bd(ch[y], w)[1], w)
            a, b = bd(ch[0], w)[1], bd(ch[1], w)[1]
            return wrap(prod(ch[0], ch[1], a * b), 0, a * b, w)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            c = val(ch[1])
            first = k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
            if c: return divmod_(ch[0], c, w)[0 if first else 1]
            kk = ('dv', ch[0].get_id(), ch[1].get_id())
            if kk not in qr:
                keep.extend(ch)
                q, r = fr(0, M - 1, 'q'), fr(0, M - 1, 'r')
                keep.extend((q, r))
                side.append(z3.If(ch[1] == iv(0), z3.And(q == iv(M - 1), r == ch[0]), z3.And(ch[0] == prod(q, ch[1], M * M) + r, r < ch[1])))
                qr[kk] = (q, r)
            return qr[kk][0 if first else 1]
        if k == z3.Z3_OP_BSHL:
            c = val(ch[1])
            if c is not None: return iv(0) if c >= w else wrap(ch[0] * (1 << c), 0, bd(ch[0], w)[1] << c, w)
        if k == z3.Z3_OP_BLSHR:
            c = val(ch[1])
            if c is not None: return iv(0) if c >= w else divmod_(ch[0], 1 << c, w)[0]
            o = opaque(t, ch, w); side.append(o <= ch[0]); return o
        if k == z3.Z3_OP_ZERO_EXT:
            if val(ch[0]) is None: keep.append(ch[0]); bound.setdefault(ch[0].get_id(), (0, (1 << width(t.arg(0))) - 1))
            return ch[0]
        if k == z3.Z3_OP_SIGN_EXT:
            v = width(t.arg(0))
            return z3.If(ch[0] >= iv(1 << (v - 1)), ch[0] + iv(M - (1 << v)), ch[0])
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params(); v = width(t.arg(0))
            x = divmod_(ch[0], 1 << lo, v)[0] if lo else ch[0]
            return divmod_(x, 1 << (hi - lo + 1), v - lo)[1] if hi - lo + 1 < v - lo else x
        if k == z3.Z3_OP_CONCAT:
            r = ch[0]
            for c, o in zip(ch[1:], t.children()[1:]): r = r * (1 << width(o)) + c
            return r
        if k == z3.Z3_OP_BAND:
            for x, y in ((0, 1), (1, 0)):
                c = val(ch[x]) if len(ch) == 2 else None
                if c is None: continue
                if c & (c + 1) == 0: return divmod_(ch[y], c + 1, w)[1] if c < M - 1 else ch[y]
                inv = M - 1 - c
                if inv & (inv + 1) == 0: return ch[y] - divmod_(ch[y], inv + 1, w)[1]
                tz = (c & -c).bit_length() - 1; cc = c >> tz
                if cc & (cc + 1) == 0:      # a field in the middle
                    q = divmod_(ch[y], 1 << tz, w)[0]
                    return divmod_(q, cc + 1, w - tz)[1] * (1 << tz)
            o = opaque(t, ch, w)
            for c in ch: side.append(o <= c)
            return o
        if k == z3.Z3_OP_BOR:
            o = opaque(t, ch, w)
            for c in ch: side.append(o >= c)
            side.append(o <= z3.Sum(*ch))
            return o
        return opaque(t, ch, w)
    def go(e):
        st = [e]
        while st:
            t = st[-1]; ti = t.get_id()
            if ti in cache: st.pop(); continue
            k = t.decl().kind()
            ch = [t.arg(1)] if k == z3.Z3_OP_SELECT else [c for c in t.children() if not z3.is_array(c)]
            todo = [c for c in ch if c.get_id() not in cache]
            if todo: st.extend(todo); continue
            st.pop(); keep.append(t)
            cache[ti] = tr(t); keep.append(cache[ti])
        return cache[e.get_id()]
    out = [go(a) for a in al]
    extra = []
    if congr:
        for key, L in fun.items():
            for x in range(len(L)):
                for y in range(x):
                    a, v = L[x]; b, u = L[y]
                    if any(val(p) is not None and val(q) is not None and val(p) != val(q) for p, q in zip(a, b)): continue
                    c = [p == q for p, q in zip(a, b) if not p.eq(q)]
                    extra.append(z3.Implies(z3.And(*c), v == u) if c else v == u)
    pl = list(prods.values())
    if len(pl) <= 16:
        for x in range(len(pl)):
            for y in range(x):
                (p, a, b), (q, c, d) = pl[x], pl[y]
                extra.append(z3.Implies(z3.Or(z3.And(a == c, b == d), z3.And(a == d, b == c)), p == q))
    return out + side + extra
