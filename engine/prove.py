"""Validity of an assertion under a path condition: random refutation, then
SAT sweeping (solver-proved internal equivalences in topological order) for
large formulas, then one final solver query."""
import time
import random
import z3
import term as tm

PATTERNS = 40


def varsof(nodes):
    return [n for n in nodes if n.op == 'var']


def random_env(rnd, vs, k):
    env = {}
    if k == 0:
        for v in vs:
            env[v.args[0]] = 0
    elif k == 1:
        for v in vs:
            env[v.args[0]] = (1 << v.w) - 1
    else:
        m = k % 4
        for v in vs:
            x = rnd.getrandbits(v.w)
            if m == 3:
                r = rnd.random()
                if r < 0.3:
                    x = 0
                elif r < 0.5:
                    x = (1 << v.w) - 1
                elif r < 0.6:
                    x = 1
            env[v.args[0]] = x
    return env


def refute(E, S, cond, nodes, tries):
    pcn = tm.topo(list(S.pc)) if S.pc else []
    vs = list({n: 1 for n in varsof(nodes) + varsof(pcn)})
    for k in range(tries):
        env = random_env(E.rnd, vs, k)
        # keep concretised inputs of the current model half of the time
        if S.pc and S.model is not None and k % 2:
            for nm in list(env):
                if E.rnd.random() < 0.7 and nm in S.model:
                    env[nm] = S.model[nm]
        memo = {}
        ok = True
        for c in S.pc:
            if not tm.ev(c, env, memo):
                ok = False
                break
        if ok and not tm.ev(cond, env, memo):
            return env
    return None


class Big(Exception):
    pass


class Ring:
    """low n bits of a term as a polynomial over Z/2^n, in normal form"""

    def __init__(self, limit=4000):
        self.memo = {}
        self.atoms = {}
        self.limit = limit

    def atom(self, key):
        return self.atoms.setdefault(key, len(self.atoms))

    def low(self, t, n):
        if type(t) is int:
            v = t & ((1 << n) - 1)
            return {(): v} if v else {}
        k = (t, n)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._low(t, n)
            if len(r) > self.limit:
                raise Big()
        return r

    def comb(self, p, q, f, n):
        M = (1 << n) - 1
        r = dict(p)
        for m, c in q.items():
            v = (r.get(m, 0) + f * c) & M
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q, n):
        M = (1 << n) - 1
        if len(p) * len(q) > 4 * self.limit:
            raise Big()
        r = {}
        for a, c in p.items():
            for b, d in q.items():
                m = tuple(sorted(a + b))
                r[m] = (r.get(m, 0) + c * d) & M
        return {m: c for m, c in r.items() if c}

    def _low(self, t, n):
        op = t.op
        if op == 'K':
            return self.low(t.args[0], n)
        if op == 'add':
            a = t.args
            r = self.low(a[0], n)
            for i in range(1, len(a), 2):
                r = self.comb(r, self.low(tm.V(a[i]), n), a[i + 1], n)
            return r
        if op == 'mul':
            r = {(): 1}
            for a in t.args:
                r = self.mul(r, self.low(tm.V(a), n), n)
            return r
        if op == 'concat':
            r = {}
            pos = 0
            for p in reversed(t.args):
                if pos >= n:
                    break
                r = self.comb(r, self.low(tm.V(p), min(n - pos, p.w)) if pos + p.w >= n else self.exact(p), 1 << pos, n)
                pos += p.w
            return r
        if op == 'sext' and t.args[0].w >= n:
            return self.low(t.args[0], n)
        if op == 'extract' and t.args[1] == 0 and t.w >= n:
            return self.low(t.args[0], n)
        if op == 'srem' and t.args[1].op == 'K':
            m = t.args[1].args[0]
            if m and m & (m - 1) == 0 and n <= m.bit_length() - 1:
                return self.low(tm.V(t.args[0]), n)
        if op == 'xor' and len(t.args) == 2 and t.args[0] == (1 << t.w) - 1:
            return self.comb({(): (1 << n) - 1}, self.low(t.args[1], n), -1, n)
        if op == 'ite':
            a, b = self.low(tm.V(t.args[1]), n), self.low(tm.V(t.args[2]), n)
            if a == b:
                return a
            return {(self.atom(('ite', t.args[0], frozenset(a.items()), frozenset(b.items()), n)),): 1}
        x = tm.extract(t, t.w, 0, n) if n < t.w else t
        if type(x) is int:
            return self.low(x, n)
        if x is not t and not (x.op == 'extract' and x.args[0] is t):
            return self.low(x, n)
        return {(self.atom(x),): 1}

    def exact(self, p):
        """value of all bits of p"""
        if p.op == 'K':
            return {(): p.args[0]} if p.args[0] else {}
        return {(self.atom(p),): 1}


def under(nodes, cond, facts):
    """cond with the conditions decided on this path replaced by their values"""
    if not any(x in facts for x in nodes if x.w == 1):
        return cond
    rep = {}
    g = rep.__getitem__
    for x in nodes:
        v = facts.get(x) if x.w == 1 else None
        if v is not None:
            rep[x] = v
        elif x.op in ('var', 'K'):
            rep[x] = tm.V(x)
        else:
            rep[x] = tm.rebuild(x, g)
    return rep[cond]


def ring_valid(cond):
    """conjunction of equalities that hold in the ring of integers mod 2^w"""
    cs = cond.args if cond.op == 'and' else (cond,)
    R = Ring()
    for c in cs:
        if type(c) is int:
            return False
        if c.op != 'eq' or c.w != 1:
            return False
        a, b = c.args[0], c.args[1]
        w = a.w if type(a) is not int else b.w
        try:
            if R.low(tm.V(a) if type(a) is not int else a, w) != R.low(tm.V(b) if type(b) is not int else b, w):
                return False
        except Big:
            return False
    return True


def valid(E, S, cond):
    if S.facts.get(cond) == 1:
        return 'valid', None
    if S.model is not None and not E.evalm(S, cond):
        memo = {}
        if all(tm.ev(c, S.model, memo) for c in S.pc):
            return 'sat', S.model
        S.model = None
    nodes = tm.topo([cond])
    big = len(nodes) > 600
    env = refute(E, S, cond, nodes, 12 if not big else 6)
    if env is not None:
        return 'sat', env
    neg = tm.not_(1, cond)
    c2 = cond
    if S.facts and len(nodes) < 5000:
        c2 = under(nodes, cond, S.facts)
        if type(c2) is int:
            if c2:
                E.sol.residual(c2)
                return 'valid', None
            c2 = cond
    if len(nodes) < 5000 and ring_valid(c2):
        E.st.queries += 1
        E.sol.residual(1)
        return 'valid', None
    if not big:
        r, env = E.sol.check(S.pc, neg, tmo=3000)
        if r == 'unsat':
            return 'valid', None
        if r == 'sat':
            return 'sat', env
    t0 = time.time()
    c2 = sweep(E, cond, S)
    if type(c2) is int:
        if c2:
            E.sol.residual(c2)
            return 'valid', None
        neg2 = None
    else:
        neg2 = tm.not_(1, c2)
        r, env = E.sol.oneshot(list(S.pc) + [neg2], E.check_tmo)
        if r == 'unsat':
            return 'valid', None
        if r == 'sat':
            memo = {}
            if all(tm.ev(c, env, memo) for c in S.pc) and not tm.ev(cond, env, memo):
                return 'sat', env
    r, env = E.sol.oneshot(list(S.pc) + [neg], E.check_tmo)
    if r == 'unsat':
        return 'valid', None
    return r, env


def bounded_cut(roots, budget):
    """expand the roots, latest created nodes first, up to budget inner nodes;
    returns the unexpanded rest (the cut)"""
    import heapq
    heap = []
    seen = set()
    for r in roots:
        if type(r) is not int and r not in seen:
            seen.add(r)
            heapq.heappush(heap, (-r.id, r))
    n = 0
    while heap and n < budget:
        _, x = heapq.heappop(heap)
        n += 1
        for c in tm.children(x):
            if c not in seen:
                seen.add(c)
                if c.op not in ('K', 'var'):
                    heapq.heappush(heap, (-c.id, c))
    return [x for _, x in heap], n


def local_eq(E, a, b, budget=((40, 2.0), (400, 4.0), (4000, 20.0))):
    """try to prove a == b (nodes/ints) over cut variables; a proof with a cut is a proof"""
    w = (a if type(a) is not int else b).w
    na = tm.N(a, w)
    nb = tm.N(b, w)
    for size, tmo in budget:
        lv, n = bounded_cut([na, nb], size)
        cut = {}
        for x in lv:
            if x.w > 0 and x is not na and x is not nb:
                cut[x] = z3.BitVec('cut%d' % x.id, x.w)
        t0 = time.time()
        E.st.queries += 1
        try:
            za = tm.to_z3(na, cut)
            zb = tm.to_z3(nb, cut)
            s = z3.SolverFor('QF_UFBV')
            s.set('timeout', int(tmo * 1000))
            s.add(za != zb)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        E.st.solver_s += time.time() - t0
        if r == z3.unsat:
            return True
        if n < size:
            break
    return False


def sweep(E, cond, S):
    """returns an equivalent of cond with proven-equal subterms identified"""
    E.st.sweeps += 1
    nodes = tm.topo([cond])
    vs = varsof(nodes)
    rnd = E.rnd
    envs = [random_env(rnd, vs, 2 + (k % 3) * 4 + (0 if k % 5 else 1)) for k in range(PATTERNS)]
    memos = [dict() for _ in envs]
    for env, memo in zip(envs, memos):
        for x in nodes:
            memo[x] = tm._ev1(x, env, memo)
    rep = {}
    classes = {}
    g = rep.__getitem__
    tries = 0
    for x in nodes:
        if E.deadline is not None and time.time() > E.deadline:
            raise_deadline()
        y = tm.rebuild(x, g) if x.op not in ('var', 'K') else tm.V(x)
        if type(y) is int or x.w == 0:
            rep[x] = y
            continue
        vals = tuple(m[x] for m in memos)
        if x.w == 1 and x is not cond and x.op not in ('eq', 'ult', 'slt'):
            pass
        v0 = vals[0]
        if x.op != 'var' and all(v == v0 for v in vals) and (x.w > 1 or x is cond):
            tries += 1
            if local_eq(E, y, v0):
                rep[x] = v0
                continue
        key = (x.w, vals)
        l = classes.get(key)
        if l is None:
            classes[key] = [y]
            rep[x] = y
            continue
        done = False
        for z in l:
            if z is y:
                rep[x] = y
                done = True
                break
        if done:
            continue
        for z in l[:3]:
            tries += 1
            if local_eq(E, y, z):
                rep[x] = z
                done = True
                break
        if not done:
            l.append(y)
            rep[x] = y
    return rep[cond]


def raise_deadline():
    import exe
    raise exe.Undecided('time limit of the job')
