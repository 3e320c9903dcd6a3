"""self-test of the reductions: random ground queries; an `unsat` of a reduction must be an `unsat` of the query"""
import sys, random; sys.path.insert(0, '/verif')
import z3
from engine import smt, lia, ack
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
W = 8
A = z3.Array('A', z3.BitVecSort(W), z3.BitVecSort(W)); F = z3.Function('F', z3.BitVecSort(W), z3.BitVecSort(W))
V = [z3.BitVec('v%d' % i, W) for i in range(4)]
def c(): return z3.BitVecVal(R.choice([0, 1, 2, 3, 6, 7, 8, 15, 63, 127, 128, 240, 255, 24, R.randrange(256)]), W)
def T(d):
    if d == 0 or R.random() < .15: return R.choice(V) if R.random() < .7 else c()
    k = R.randrange(28)
    a = T(d - 1)
    if k == 0: return a + T(d - 1)
    if k == 1: return a - T(d - 1)
    if k == 2: return a * c()
    if k == 3: return a << c()
    if k == 4: return z3.LShR(a, c())
    if k == 5: return a & c()
    if k == 6: return a | T(d - 1)
    if k == 7: return a & T(d - 1)
    if k == 8: return ~a
    if k == 9: return -a
    if k == 10: return z3.UDiv(a, z3.BitVecVal(R.randrange(1, 256), W))
    if k == 11: return z3.URem(a, z3.BitVecVal(R.randrange(1, 256), W))
    if k == 12: return z3.ZeroExt(W - 3, z3.Extract(5, 3, a))
    if k == 13: return z3.SignExt(W - 4, z3.Extract(3, 0, a))
    if k == 14: return z3.Concat(z3.Extract(3, 0, a), z3.Extract(7, 4, T(d - 1)))
    if k == 15: return z3.Select(A, a)
    if k == 16: return F(a)
    if k == 17: return z3.Select(z3.Store(A, T(d - 1), T(d - 1)), a)
    if k == 18: return z3.If(B(d - 1), a, T(d - 1))
    if k == 19: return a << T(d - 1)
    if k == 20: return z3.LShR(a, T(d - 1))
    if k == 21: return a ^ T(d - 1)
    if k == 22: return a + T(d - 1) + T(d - 1)
    if k == 23: return a * T(d - 1)
    if k == 24: return z3.UDiv(a, T(d - 1))
    if k == 25: return z3.URem(a, T(d - 1))
    if k == 26: return z3.Extract(W - 1, 0, z3.ZeroExt(W, a) * z3.ZeroExt(W, T(d - 1)))
    return a >> c()
def B(d):
    k = R.randrange(9); a, b = T(d), T(d)
    if k == 0: return z3.ULT(a, b)
    if k == 1: return z3.ULE(a, b)
    if k == 2: return a < b
    if k == 3: return a <= b
    if k == 4: return z3.UGT(a, b)
    if k == 5: return a == b
    if k == 6: return a != b
    if k == 7: return z3.Not(a == b) if d == 0 else z3.And(B(d - 1), B(d - 1))
    return z3.Or(a == b, B(d - 1)) if d else a > b
st = dict(lia=0, ack=0, n=0)
for it in range(int(sys.argv[2]) if len(sys.argv) > 2 else 2000):
    s = z3.Solver()
    for _ in range(R.randrange(2, 9)): s.add(B(R.randrange(0, 3)))
    s.set('timeout', 3000)
    r = str(s.check())
    if r == 'unknown': continue
    t = s.to_smt2(); st['n'] += 1
    for nm, f in (('lia', smt.solve_lia), ('ack', smt.solve_ack)):
        q = f(t, 2000)[0]
        if q == 'unsat':
            st[nm] += 1
            if r != 'unsat': print('UNSOUND', nm); open('/tmp/w/unsound.smt2', 'w').write(t); sys.exit(1)
    st[r] = st.get(r, 0) + 1
print(st)
