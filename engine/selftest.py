"""Checks the term constructors: random expressions built through the normalising constructors must evaluate like a
naive evaluation, and small ones must be equal for the solver."""
import random
import sys
import z3
import term as tm

OPS = ['add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'ite', 'zext', 'sext', 'extract', 'concat',
       'eq', 'ult', 'slt', 'udiv', 'urem', 'sdiv', 'srem', 'tab', 'not', 'addk', 'andk', 'xork', 'mulk', 'shlk', 'lshrk']


def gen(rnd, depth, w, vs, memo):
    """-> (term value, z3 expr, python eval function)"""
    if depth == 0 or rnd.random() < 0.08:
        if rnd.random() < 0.3:
            k = rnd.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rnd.getrandbits(w)])
            return k, z3.BitVecVal(k, w), (lambda env: k)
        c = [v for v in vs if v[1] == w]
        if c and rnd.random() < 0.9:
            n = rnd.choice(c)[0]
        else:
            n = 'v%d_%d' % (len(vs), w)
            vs.append((n, w))
        return tm.var(n, w), z3.BitVec(n, w), (lambda env: env[n])
    if w in memo and rnd.random() < 0.35 and memo[w]:
        return rnd.choice(memo[w])
    M = (1 << w) - 1
    op = rnd.choice(OPS)
    g = lambda ww=w: gen(rnd, depth - 1, ww, vs, memo)
    sg = lambda x: x - (1 << w) if x >> (w - 1) else x
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
        a, b = g(), g()
        f = {'add': (tm.add, lambda x, y: x + y), 'sub': (tm.sub, lambda x, y: x - y), 'mul': (tm.mul, lambda x, y: x * y),
             'and': (tm.and_, lambda x, y: x & y), 'or': (tm.or_, lambda x, y: x | y), 'xor': (tm.xor, lambda x, y: x ^ y)}[op]
        r = (f[0](w, a[0], b[0]), f[1](a[1], b[1]), lambda env: f[1](a[2](env), b[2](env)) & M)
    elif op in ('addk', 'andk', 'xork', 'mulk', 'shlk', 'lshrk'):
        a = g()
        k = rnd.choice([0, 1, 2, M, M >> 1, rnd.getrandbits(w), (1 << rnd.randrange(w)) - 1, 1 << rnd.randrange(w)])
        if op in ('shlk', 'lshrk'):
            k = rnd.randrange(w)
        k &= M
        f = {'addk': (tm.add, lambda x, y: x + y), 'andk': (tm.and_, lambda x, y: x & y), 'xork': (tm.xor, lambda x, y: x ^ y),
             'mulk': (tm.mul, lambda x, y: x * y), 'shlk': (tm.shl, lambda x, y: x << y),
             'lshrk': (tm.lshr, lambda x, y: z3.LShR(x, y) if not isinstance(x, int) else x >> y)}[op]
        r = (f[0](w, a[0], k), f[1](a[1], z3.BitVecVal(k, w)), lambda env: f[1](a[2](env), k) & M)
    elif op in ('shl', 'lshr', 'ashr'):
        a, b = g(), g()
        zf = {'shl': lambda x, y: x << y, 'lshr': z3.LShR, 'ashr': lambda x, y: x >> y}[op]
        tf = {'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr}[op]

        def pe(env):
            x, y = a[2](env), b[2](env)
            if op == 'shl':
                return (x << y) & M if y < w else 0
            if op == 'lshr':
                return x >> y if y < w else 0
            return (sg(x) >> min(y, w - 1)) & M
        r = (tf(w, a[0], b[0]), zf(a[1], b[1]), pe)
    elif op == 'ite':
        c = g(1)
        a, b = g(), g()
        r = (tm.ite(w, c[0], a[0], b[0]), z3.If(c[1] == 1, a[1], b[1]), lambda env: a[2](env) if c[2](env) else b[2](env))
    elif op in ('zext', 'sext'):
        if w == 1:
            return g()
        w1 = rnd.randrange(1, w)
        a = g(w1)
        if op == 'zext':
            r = (tm.zext(a[0], w1, w), z3.ZeroExt(w - w1, a[1]), a[2])
        else:
            r = (tm.sext(a[0], w1, w), z3.SignExt(w - w1, a[1]), lambda env: tm.sext(a[2](env), w1, w))
    elif op == 'extract':
        w1 = w + rnd.randrange(0, 9)
        lo = rnd.randrange(0, w1 - w + 1)
        a = g(w1)
        r = (tm.extract(a[0], w1, lo, w), z3.Extract(lo + w - 1, lo, a[1]), lambda env: (a[2](env) >> lo) & M)
    elif op == 'concat':
        if w == 1:
            return g()
        k = rnd.randrange(1, w)
        a, b = g(w - k), g(k)
        r = (tm.concat([(a[0], w - k), (b[0], k)]), z3.Concat(a[1], b[1]), lambda env: (a[2](env) << k) | b[2](env))
    elif op in ('eq', 'ult', 'slt'):
        w1 = rnd.choice([1, 2, 4, 8, 9])
        a, b = g(w1), g(w1)
        s1 = lambda x: x - (1 << w1) if x >> (w1 - 1) else x
        tf = {'eq': tm.eq, 'ult': tm.ult, 'slt': tm.slt}[op]
        zf = {'eq': lambda x, y: x == y, 'ult': z3.ULT, 'slt': lambda x, y: x < y}[op]
        pf = {'eq': lambda x, y: x == y, 'ult': lambda x, y: x < y, 'slt': lambda x, y: s1(x) < s1(y)}[op]
        t = tm.zext(tf(w1, a[0], b[0]), 1, w)
        r = (t, z3.If(zf(a[1], b[1]), z3.BitVecVal(1, w), z3.BitVecVal(0, w)),
             lambda env: 1 if pf(a[2](env), b[2](env)) else 0)
    elif op in ('udiv', 'urem', 'sdiv', 'srem'):
        a, b = g(), g()
        b = (tm.or_(w, b[0], 1), b[1] | 1, lambda env, b=b: b[2](env) | 1)
        tf = {'udiv': tm.udiv, 'urem': tm.urem, 'sdiv': tm.sdiv, 'srem': tm.srem}[op]
        zf = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op]

        def pe(env):
            x, y = a[2](env), b[2](env)
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            X, Y = sg(x), sg(y)
            q = abs(X) // abs(Y)
            q = q if (X < 0) == (Y < 0) else -q
            return (q if op == 'sdiv' else X - q * Y) & M
        r = (tf(w, a[0], b[0]), zf(a[1], b[1]), pe)
    elif op == 'tab':
        n = rnd.choice([2, 3, 4])
        a = g(n)
        tb = [rnd.getrandbits(w) for _ in range(1 << n)]
        if rnd.random() < 0.4:
            base = [rnd.getrandbits(w) for _ in range(n)]
            k = rnd.getrandbits(w)
            tb = []
            for i in range(1 << n):
                x = k
                for j in range(n):
                    if i >> j & 1:
                        x ^= base[j]
                tb.append(x)
        z = z3.BitVecVal(tb[-1], w)
        for i in range(len(tb) - 1):
            z = z3.If(a[1] == i, z3.BitVecVal(tb[i], w), z)
        r = (tm.tab(tb, a[0], w), z, lambda env: tb[a[2](env)])
    else:
        a = g()
        r = (tm.not_(w, a[0]), ~a[1], lambda env: a[2](env) ^ M)
    if type(r[0]) is not int:
        assert r[0].w == w, (op, w, r[0])
    memo.setdefault(w, []).append(r)
    return r


def main(n=3000, seed=1, nz=300):
    rnd = random.Random(seed)
    solved = 0
    for it in range(n):
        vs = []
        w = rnd.choice([1, 2, 4, 8, 8, 8, 16, 12, 32])
        t, z, f = gen(rnd, rnd.randrange(1, 6), w, vs, {})
        for k in range(6):
            env = {}
            for nm, vw in vs:
                env[nm] = rnd.choice([0, 1, (1 << vw) - 1, rnd.getrandbits(vw), rnd.getrandbits(vw)])
            a = tm.ev(t, env, {})
            b = f(env)
            if a != b:
                print('MISMATCH', it, tm.show(t, 8), env, hex(a), hex(b))
                print(z.sexpr()[:2000])
                return 1
            if type(t) is not int:
                lo, hi = tm.umin(t), tm.umax(t)
                assert lo <= a <= hi, ('range', tm.show(t, 8))
                s = tm.values(t)
                assert s is None or a in s, ('values', tm.show(t, 8))
                assert a & ~tm.nzmask(t) == 0
        if solved < nz and type(t) is not int and len(tm.topo([t])) < 40 and w <= 16:
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(tm.to_z3(t) != z)
            if s.check() == z3.sat:
                print('Z3 MISMATCH', it, tm.show(t, 8))
                print(z.sexpr()[:2000])
                return 1
            solved += 1
    print('selftest: %d expressions evaluated, %d put to the solver' % (n, solved))
    return 0


if __name__ == '__main__':
    sys.exit(main(*[int(x) for x in sys.argv[1:]]))
