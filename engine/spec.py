"""Contracts: one spec function per code function, used both to verify the body (root mode: preconditions assumed,
postconditions and frame are obligations) and at call sites (preconditions are obligations, frame havocked, postconditions
assumed)."""
import re, z3
from .vc import *
from . import ir as IR, vc as VC

class Contract:
    """pat: regex (fullmatch) on the demangled callee; spec(c) -> post(c, r); args(V) -> argument values of the harness root"""
    def __init__(s, name, tu, root, spec, args, pat=None, loops=None, cuts=(), props=(), ret=None, opts=None, lemmas=(), frame=True):
        s.name = name; s.tu = tu; s.root = root; s.spec = spec; s.args = args; s.pat = re.compile(pat) if pat else None
        s.loops = loops; s.cuts = cuts; s.props = props; s.ret = ret; s.opts = opts or {}; s.lemmas = lemmas; s.frame = frame

class SpecCtx:
    def __init__(s, mode, ex, st, args, call=None, env=None):
        s.mode = mode; s.ex = ex; s.st = st; s.args = args; s.call = call; s.env = env
        s.mod_cells = []; s.mod_arrs = []; s.mod_objs = []
        s.tys = call.tys if call else None
    # --- preconditions
    def pre(s, name, f):
        if s.mode == 'root': s.st.assume(f)
        else:
            s.ex.oblige(s.st, 'pre(%s.%s)' % (s.cname, name), 'pre', f, s.call.ins)
            s.st.assume(f)
    def fact(s, f):
        """a fact that follows from the spec functions' definitions (lemma instance)"""
        s.st.assume(f)
    def nm(s, e, name='t'):
        """a name for a (large) term"""
        if not z3.is_bv(e) or z3.is_const(e): return e
        v = fresh('n_' + name, e.size()); s.st.assume(v == e)
        return v
    # --- frame
    def modifies(s, ptr, size):
        """integer cell at ptr"""
        s.mod_cells.append((ptr, size))
    def modifies_vec(s, ptr):
        """std::vector object at ptr: new size, new storage"""
        s.mod_cells.append((ptr, 24))
        if s.mode == 'root':
            v = s.st.mem[ptr.r].cells.get(ptr.off)
            if v and isinstance(v[1], Vec): s.mod_arrs.append(v[1].rid)
    def modifies_arr(s, rid): s.mod_arrs.append(rid)
    def post(s, name, f, hints=(), chain=False):
        if s.mode == 'root':
            s.ex.oblige(s.st, 'post(%s)' % name, 'post', f, None, hints)
            if chain: s.st.assume(f)      # later obligations of this path may use it (it is itself an obligation)
        else: s.st.assume(f)
    def derive(s, name, f):
        """an intermediate consequence of the preconditions: an obligation when the body is verified, then usable"""
        if s.mode == 'root': s.ex.oblige(s.st, 'derive(%s)' % name, 'derive', f, None)
        s.st.assume(f)
    def step(s, name, f, using=None, lem=None):
        """a proved intermediate fact; using: prove it from these already assumed facts only (dropping the rest is sound)"""
        st = s.st
        if using is not None or lem is not None:
            st = s.st.fork()
            if lem is not None: st.ghost['lem'] = lem
            if using is not None:
                u = flat(using)
                known = {p.get_id() for p in s.st.pc}
                for g in u:
                    if not isinstance(g, Forall) and g.get_id() not in known: raise Undecided('step %s uses a fact that is not known' % name)
                    if isinstance(g, Forall) and not any(g is k for k in s.st.facts): raise Undecided('step %s uses a fact that is not known' % name)
                st.pc = [g for g in u if not isinstance(g, Forall)]; st.facts = [g for g in u if isinstance(g, Forall)]
        s.ex.oblige(st, 'step(%s)' % name, 'derive', f, s.call.ins if s.call else None)
        n = len(s.st.pc)
        s.st.assume(f)
        return s.st.pc[n:]
    def assume(s, f):
        """assume a lemma instance; returns the facts added"""
        n = len(s.st.pc); s.st.assume(f); return s.st.pc[n:]
    def cases(s, name, alts):
        """alts: (condition, value) pairs, proved exhaustive; execution continues separately in each, with the call's value"""
        s.ex.oblige(s.st, 'cases(%s)' % name, 'derive', z3.Or(*[bo(a) for a, _ in alts]), s.call.ins)
        def go(v):
            def f(call):
                if not callable(v): return v
                c = SpecCtx('call', call.ex, call.st, call.args, call, s.env); c.cname = s.cname
                return v(c)
            return f
        return Fork([(a, go(v)) for a, v in alts])
    def restart(s, facts, keep=()):
        """continue with these facts only (each is proved here, the rest is dropped, which is always sound)"""
        for n, f in facts: s.ex.oblige(s.st, 'step(%s)' % n, 'derive', f, s.call.ins)
        s.st.pc = [f for f in s.st.pc if any(f is k or f.eq(k) for k in keep)]; s.st.facts = []
        for n, f in facts: s.st.assume(f)
    # --- memory access without obligations
    def rd(s, ptr, w=64, st=None):
        return peek(s.ex, st or s.st, ptr, w)
    def a(s, i, w=64):
        v = s.args[i]
        if isinstance(v, (Ptr, Vec, Opaque)): return v
        return bv(v, w)

def flat(l): return [y for x in l for y in flat(x)] if isinstance(l, (list, tuple)) else [l]

def peek(ex, st, ptr, w=64):
    r = st.mem[ptr.r]
    off = ptr.off + (sgn(as_c(ptr.idx), 64) * ptr.sc if is_c(as_c(ptr.idx)) else 0)
    c = r.cells.get(off)
    if c is None:
        if w == 0: raise Undecided('object cell %s+%d has no value' % (r.name, off))
        v = ex.compose(st, r, off, IR.Ty('int', w), None)
        return bv(v, w)
    sz, v = c
    if isinstance(v, (Ptr, Vec, Opaque)) or v is UNDEF: return v
    if w == 0: return v
    return bv(v, w) if sz * 8 == w else ex.compose(st, r, off, IR.Ty('int', w), None)

def poke(st, ptr, size, v):
    off = ptr.off + (sgn(as_c(ptr.idx), 64) * ptr.sc if is_c(as_c(ptr.idx)) else 0)
    st.setcell(ptr.r, off, size, v)

def pofs(p, o): return Ptr(p.r, p.off + o, p.idx, p.sc)

def call_handler(con, env, after=None):
    def h(call):
        c = SpecCtx('call', call.ex, call.st, call.args, call, env)
        c.cname = con.name
        post = con.spec(c)
        # havoc the frame
        for ptr, size in c.mod_cells:
            old = c.st.mem[ptr.r].cells.get(ptr.off)
            if old is not None and isinstance(old[1], Vec):
                v = old[1]; n = fresh('m_size'); nm = c.st.mem[v.rid].name.split('!')[0]
                a = c.st.new_array(nm, v.es, n); o = c.st.wr(v.rid); o.alive = False
                if c.st.wlog is not None: c.st.wlog.add(('arr', v.rid))
                poke(c.st, ptr, 24, Vec(n, a.rid, v.es)); continue
            poke(c.st, ptr, size, fresh('m_' + con.name, size * 8))
        for rid in c.mod_arrs:
            r = c.st.mem[rid]
            c.st.setarr(rid, fresh_arr(r.name.split('!')[0], r.es * 8))
        rv = None
        t = call.ins.ty
        if t.k == 'int':
            rv = fresh('r_' + con.name, t.w) if t.w > 1 else fresh_bool('r_' + con.name)
            r = rv if t.w == 64 else (bo(rv) if t.w == 1 else rv)
        elif t.k == 'struct':
            rv = [fresh('r_' + con.name, f.w) for f in t.fields]; r = rv
        else: r = None
        if post:
            x = post(c, r)
            if isinstance(x, tuple) and x and x[0] == 'ret': rv = x[1]
        call.ex.used_contracts.add(con.name)
        if after and not call.ex.quiet:      # (not while discovering what a loop writes)
            x = after(c, rv)          # proof hints at this call site: derived facts (obligations) and case splits
            if x is not None: return x
        return rv
    return h
