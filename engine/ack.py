"""Reduction of a ground array/UF/bit-vector query to pure bit-vectors: reads over stores become ite chains, reads of base
arrays and applications of uninterpreted functions become fresh variables with pairwise functional-consistency
constraints.  The result is implied by the query's negation-free form: dropping a constraint only weakens the assumptions,
so `unsat` of the reduction is `unsat` of the query (a `sat` answer of the reduction is not used)."""
import z3

class NotReducible(Exception): pass

def reduce(al, ctx):
    cache = {}
    keep = []
    fun = {}      # key -> list of (args, var)
    extra = []
    n = [0]
    def app(key, args, sort):
        L = fun.setdefault(key, [])
        for a, v in L:
            if len(a) == len(args) and all(x.eq(y) for x, y in zip(a, args)): return v
        n[0] += 1
        v = z3.Const('ack!%d' % n[0], sort)
        L.append((args, v))
        return v
    def read(arr, idx, sort):
        d = arr.decl(); k = d.kind()
        if k == z3.Z3_OP_STORE:
            i = go(arr.arg(1)); v = go(arr.arg(2))
            if i.eq(idx): return v
            if z3.is_bv_value(i) and z3.is_bv_value(idx): return read(arr.arg(0), idx, sort)
            return z3.If(i == idx, v, read(arr.arg(0), idx, sort))
        if k == z3.Z3_OP_ITE: return z3.If(go(arr.arg(0)), read(arr.arg(1), idx, sort), read(arr.arg(2), idx, sort))
        if k == z3.Z3_OP_CONST_ARRAY: return go(arr.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED and arr.num_args() == 0: return app(('sel', arr.get_id()), (idx,), sort)
        if k == z3.Z3_OP_UNINTERPRETED:
            keep.append(arr); return app(('sel', arr.get_id()), (idx,), sort)
        raise NotReducible(str(d))
    memo = {}
    def go(e):
        i = e.get_id()
        if i in cache: return cache[i]
        # iterative on the spine to avoid deep recursion
        st = [e]
        while st:
            t = st[-1]; ti = t.get_id()
            if ti in cache: st.pop(); continue
            k = t.decl().kind()
            if k == z3.Z3_OP_SELECT: ch = [t.arg(1)]
            else: ch = [c for c in t.children() if not z3.is_array(c)]
            todo = [c for c in ch if c.get_id() not in cache]
            if todo: st.extend(todo); continue
            st.pop()
            keep.append(t)
            if k == z3.Z3_OP_SELECT:
                idx = cache[t.arg(1).get_id()]
                key = (t.arg(0).get_id(), idx.get_id())
                if key not in memo:
                    keep.append(idx); memo[key] = read(t.arg(0), idx, t.sort())
                cache[ti] = memo[key]
            elif k == z3.Z3_OP_UNINTERPRETED and t.num_args():
                ak = tuple(c.get_id() for c in t.children() if z3.is_array(c))
                args = tuple(cache[c.get_id()] for c in t.children() if not z3.is_array(c))
                cache[ti] = app((t.decl().name(), ak), args, t.sort())
            elif any(z3.is_array(c) for c in t.children()):
                if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                    if k == z3.Z3_OP_EQ and t.arg(0).eq(t.arg(1)): cache[ti] = z3.BoolVal(True, ctx)
                    else:
                        n[0] += 1; cache[ti] = z3.Const('ack!b%d' % n[0], z3.BoolSort(ctx))
                else: raise NotReducible(str(t.decl()))
            elif t.num_args():
                nch = [cache[c.get_id()] for c in t.children()]
                cache[ti] = t if all(a.eq(b) for a, b in zip(t.children(), nch)) else rebuild(t, nch)
            else: cache[ti] = t
        return cache[i]
    def rebuild(t, nch):
        k = t.decl().kind()
        if k == z3.Z3_OP_AND: return z3.And(*nch)
        if k == z3.Z3_OP_OR: return z3.Or(*nch)
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*nch)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT) and len(nch) > 2:
            r = nch[0]
            for x in nch[1:]: r = t.decl()(r, x) if k != z3.Z3_OP_CONCAT else z3.Concat(r, x)
            return r
        return t.decl()(*nch)
    out = [go(a) for a in al]
    for key, L in fun.items():
        for x in range(len(L)):
            for y in range(x):
                a, v = L[x]; b, w = L[y]
                if any(z3.is_bv_value(p) and z3.is_bv_value(q) and not p.eq(q) for p, q in zip(a, b)): continue
                c = [p == q for p, q in zip(a, b) if not p.eq(q)]
                extra.append(z3.Implies(z3.And(*c), v == w) if c else v == w)
    return out + extra
