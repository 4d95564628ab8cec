"""Symbolic executor for the IR of ir.py.

Values are ints or terms.  Every memory object owns a 64 GiB region of the
address space, so pointers are plain 64-bit numbers.  Symbolic branches fork,
paths are merged again at control-flow joins and at function returns when the
heap shapes agree.
"""
import sys
import time
import random
import z3
import term as tm
from term import T, N, V
import ir

sys.setrecursionlimit(20000)
SH = 36
BASE = 0x10000000
types_int = int


class ForkOn(Exception):
    def __init__(self, t):
        self.t = t


class PathEnd(Exception):
    """path is abandoned (assume false / violation recorded)"""


class Undecided(Exception):
    pass


class StopJob(Exception):
    pass


class Obj(object):
    __slots__ = ('size', 'cells', 'kind', 'owner', 'name', 'freed')

    def __init__(self, size, cells, kind, owner, name):
        self.size = size
        self.cells = cells
        self.kind = kind
        self.owner = owner
        self.name = name
        self.freed = False


class State(object):
    __slots__ = ('objs', 'pc', 'facts', 'known', 'model', 'memo', 'nid', 'inputs', 'tok', 'allocs', 'fail_at',
                 'nlive', 'stack', 'nin', 'fails')

    def fork(self):
        s = State()
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.facts = dict(self.facts)
        s.known = dict(self.known)
        s.model = self.model
        s.memo = self.memo
        s.nid = self.nid
        s.inputs = list(self.inputs)
        s.allocs = self.allocs
        s.fail_at = self.fail_at
        s.fails = self.fails
        s.nlive = self.nlive
        s.stack = list(self.stack)
        s.nin = self.nin
        s.tok = object()
        self.tok = object()
        return s


class Code(object):
    pass


class Block(object):
    __slots__ = ('name', 'items', 'term', 'order', 'live', 'loops', 'idx')


class Frame(object):
    __slots__ = ('blk', 'item', 'sub', 'R', 'S', 'cnt', 'hot')

    def __init__(self, blk, item, sub, R, S, cnt, hot=False):
        self.hot = hot      # case split in progress: run before merging
        self.blk = blk
        self.item = item
        self.sub = sub
        self.R = R
        self.S = S
        self.cnt = cnt


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.steps = 0
        self.forks = 0
        self.merges = 0
        self.checks = 0
        self.funcs = set()
        self.undecided = []
        self.sweeps = 0
        self.maxq = 0.0
        self.rewritten = 0


class Solver(object):
    def __init__(self, stats):
        self.st = stats
        self.s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        self.stack = []
        self.tmo = 20000
        self.s.set('timeout', self.tmo)

    def _sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(tm.zbool(c))
            st.append(c)

    def check(self, pc, extra=None, want=True, tmo=20000):
        """-> ('sat', env) / ('unsat', None) / ('unknown', None)"""
        self.st.queries += 1
        t0 = time.time()
        try:
            if tmo != self.tmo:
                self.tmo = tmo
                self.s.set('timeout', tmo)
            self._sync(pc)
            if extra is None:
                r = self.s.check()
            else:
                self.s.push()
                try:
                    self.s.add(tm.zbool(extra))
                    r = self.s.check()
                    if r == z3.sat and want:
                        return 'sat', env_of(self.s.model())
                finally:
                    self.s.pop()
            if r == z3.sat:
                return 'sat', (env_of(self.s.model()) if want else None)
            if r == z3.unsat:
                return 'unsat', None
            return 'unknown', None
        except z3.Z3Exception as e:
            self.s = z3.Solver()
            self.s.set('timeout', self.tmo)
            self.stack = []
            return 'unknown', None
        finally:
            d = time.time() - t0
            self.st.solver_s += d
            if d > self.st.maxq:
                self.st.maxq = d

    def residual(self, v):
        """the assertion was rewritten to a constant: let the solver conclude"""
        self.st.queries += 1
        s = z3.Solver()
        s.add(z3.BitVecVal(v, 1) != z3.BitVecVal(1, 1))
        if s.check() != z3.unsat:
            raise AssertionError('residual query')

    def oneshot(self, conds, tmo):
        """fresh bit-blasting solver"""
        self.st.queries += 1
        t0 = time.time()
        try:
            s = z3.SolverFor('QF_UFBV')
            s.set('timeout', int(tmo * 1000))
            for c in conds:
                s.add(tm.zbool(c))
            r = s.check()
            if r == z3.sat:
                return 'sat', env_of(s.model())
            if r == z3.unsat:
                return 'unsat', None
            return 'unknown', None
        except z3.Z3Exception:
            return 'unknown', None
        finally:
            d = time.time() - t0
            self.st.solver_s += d
            if d > self.st.maxq:
                self.st.maxq = d


def env_of(m):
    env = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_bv_value(v):
                env[d.name()] = v.as_long()
        else:
            nm = d.name()
            fi = m[d]
            for (name, w, aw), f in tm._ufs.items():
                if f.name() == nm:
                    try:
                        for i in range(fi.num_entries()):
                            e = fi.entry(i)
                            args = tuple(e.arg_value(j).as_long() for j in range(e.num_args()))
                            env[('uf', name, w, args)] = e.value().as_long()
                        ev = fi.else_value()
                        if z3.is_bv_value(ev):
                            env[('ufelse', name, w)] = ev.as_long()
                    except Exception:
                        pass
    return env


class REnv(dict):
    """a random assignment drawn on demand"""
    def __init__(self, rnd, mode):
        dict.__init__(self)
        self.rnd = rnd
        self.mode = mode

    def draw(self, nm, w):
        x = dict.get(self, nm)
        if x is None:
            r = self.rnd.random()
            m = self.mode
            if m == 1 and r < 0.5:
                x = 0
            elif m == 2 and r < 0.5:
                x = (1 << w) - 1
            elif m == 3 and r < 0.4:
                x = self.rnd.getrandbits(w) & 3
            else:
                x = self.rnd.getrandbits(w)
            x &= (1 << w) - 1
            self[nm] = x
        return x


def conj(lits):
    r = 1
    for l in lits:
        r = tm.and_(1, r, l)
    return r


class Violation(Exception):
    pass


class Engine(object):
    def __init__(self, mod, args=(), limits=None, stubs=None):
        self.mod = mod
        self.st = Stats()
        self.sol = Solver(self.st)
        self.args = list(args)
        self.gaddr = {}
        self.gobj = {}
        self.faddr = {}
        self.fname = {}
        self.nid0 = 1
        self.stubs = dict(stubs or {})
        # vp_stub_f in the harness stands for f (its own check shows that f agrees)
        for nm in mod.funcs:
            if nm.startswith('@vp_stub_'):
                self.stubs['@' + nm[9:]] = nm
        self.violations = []
        self.reached = {}
        self.maxforkvals = 600
        self.deadline = None
        self.check_tmo = 120
        self.feas_tmo = 5000
        self.depth = 0
        self.rnd = random.Random(1)
        self.renvs = [(REnv(self.rnd, k), {}) for k in (0, 0, 0, 0, 1, 2, 3, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0)]
        self.stop_on_first = True
        self.nondet_undef = 0
        self.nomerge = False
        self.samples = None
        for nm in list(mod.funcs) + list(mod.decls):
            self._fn_addr(nm)
        for nm in mod.globals:
            self.gaddr[nm] = self.nid0
            self.nid0 += 1

    def _fn_addr(self, nm):
        a = self.faddr.get(nm)
        if a is None:
            a = (self.nid0 << SH) | BASE
            self.nid0 += 1
            self.faddr[nm] = a
            self.fname[a] = nm
        return a

    # ------------------------------------------------------------ constants
    def const(self, v, ty):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            nm = v[1]
            if nm in self.faddr:
                return self.faddr[nm]
            return (self.gaddr[nm] << SH) | BASE
        if k == 'z':
            t = self.mod.resolve(ty)
            if t[0] in ('i', 'p'):
                return 0
            if t[0] == 's':
                return tuple(self.const(v, f) for f in t[1])
        if k == 'agg':
            return tuple(self.const(ev, et) for et, ev in v[1])
        if k == 'u':
            t = self.mod.resolve(ty)
            if t[0] == 's':
                return tuple(self.const(('u', f), f) for f in t[1])
            self.nondet_undef += 1
            return tm.var('undef%d' % self.nondet_undef, t[1] if t[0] == 'i' else 64)
        if k == 'gep':
            a = self.const(v[2], ir.PTR)
            off, _ = self.gep_const(v[1], v[3])
            return (a + off) & ((1 << 64) - 1)
        if k == 'cast':
            x = self.const(v[3], v[2])
            tw = self.width(v[4])
            fw = self.width(v[2])
            if v[1] == 'sext':
                return tm.sext(x, fw, tw)
            return x & ((1 << tw) - 1)
        if k == 'bin':
            w = self.width(v[2])
            a = self.const(v[3], v[2])
            b = self.const(v[4], v[2])
            return {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'xor': tm.xor, 'and': tm.and_, 'or': tm.or_,
                    'shl': tm.shl, 'lshr': tm.lshr}[v[1]](w, a, b)
        raise ir.Unsupported('constant %s' % (v,))

    def gep_const(self, st, idx):
        off = 0
        t = st
        first = True
        for it, iv in idx:
            c = iv[1]
            if it[0] == 'i' and c >> (it[1] - 1):
                c -= 1 << it[1]
            if first:
                off += c * self.mod.size(t)[0]
                first = False
                continue
            r = self.mod.resolve(t)
            if r[0] == 's':
                o, t = self.mod.field(r, c)
                off += o
            else:
                off += c * self.mod.size(r[2])[0]
                t = r[2]
        return off, t

    def width(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'p':
            return 64
        raise ir.Unsupported('width of %s' % (t,))

    def ginit(self, gid, nm):
        ty, init, const = self.mod.globals[nm]
        size = self.mod.size(ty)[0]
        cells = [0] * size
        if init is None:
            cells = [None] * size
        else:
            self._fill(cells, 0, ty, init)
        return Obj(size, cells, 'const' if const else 'global', None, nm)

    def _fill(self, cells, off, ty, v):
        k = v[0]
        if k == 'z':
            return
        if k == 'u':
            return
        t = self.mod.resolve(ty)
        if k == 'str':
            cells[off:off + len(v[1])] = list(v[1])
            return
        if k == 'agg':
            if t[0] == 'a':
                s = self.mod.size(t[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self._fill(cells, off + i * s, et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    o, ft = self.mod.field(t, i)
                    self._fill(cells, off + o, ft, ev)
            return
        n = self.mod.size(t)[0]
        x = self.const(v, t)
        cells[off:off + n] = list(x.to_bytes(n, 'little'))

    # ------------------------------------------------------------ memory
    def obj(self, S, oid):
        o = S.objs.get(oid)
        if o is None:
            o = self.gobj.get(oid)
            if o is None:
                for nm, g in self.gaddr.items():
                    if g == oid:
                        o = self.ginit(oid, nm)
                        self.gobj[oid] = o
                        break
                else:
                    return None
            S.objs[oid] = o
        return o

    def new_obj(self, S, size, kind, name, fill=None):
        oid = S.nid
        S.nid += 1
        S.objs[oid] = Obj(size, [fill] * size, kind, S.tok, name)
        return (oid << SH) | BASE

    def wobj(self, S, oid):
        o = self.obj(S, oid)
        if o is not None and o.owner is not S.tok:
            n = Obj(o.size, list(o.cells), o.kind, S.tok, o.name)
            n.freed = o.freed
            S.objs[oid] = n
            return n
        return o

    def memfail(self, S, what, addr, n):
        if type(addr) is int:
            o = S.objs.get(addr >> SH)
            d = '%s of %d bytes at offset %d of %s' % (
                what, n, (addr & ((1 << SH) - 1)) - BASE,
                ('%s object %s size %d%s' % (o.kind, o.name, o.size, ' (freed)' if o.freed else ''))
                if o is not None else 'no object (address %#x)' % addr)
        else:
            d = '%s of %d bytes at a symbolic address' % (what, n)
        self.violate(S, 'memory', 'invalid ' + d + ' in ' + ' < '.join(reversed(S.stack[-4:])))
        raise PathEnd()

    def load(self, S, addr, n):
        if type(addr) is not int:
            addr = self.resolve(S, addr)
            if type(addr) is not int:
                return self.load_sym(S, addr, n)
        o = S.objs.get(addr >> SH)
        if o is None:
            o = self.obj(S, addr >> SH)
            if o is None:
                self.memfail(S, 'read', addr, n)
        off = (addr & 0xFFFFFFFFF) - BASE
        if off < 0 or off + n > o.size or o.freed:
            self.memfail(S, 'read', addr, n)
        if n == 1:
            c = o.cells[off]
            if type(c) is int:
                return c
            if c is None:
                return self.uninit(S, addr >> SH, off)
            if type(c) is tuple:
                return tm.extract(c[0], c[0].w, 8 * c[1], 8)
            return c
        cs = o.cells[off:off + n]
        try:
            return int.from_bytes(bytes(cs), 'little')
        except TypeError:
            pass
        c = cs[0]
        if type(c) is tuple and c[1] == 0 and c[0].w == 8 * n:
            t = c[0]
            for i in range(1, n):
                d = cs[i]
                if type(d) is not tuple or d[0] is not t or d[1] != i:
                    break
            else:
                return t
        parts = []
        i = n
        while i > 0:
            i -= 1
            c = cs[i]
            if c is None:
                c = self.uninit(S, addr >> SH, off + i)
                parts.append((c, 8))
            elif type(c) is tuple:
                t, j = c
                k = i
                # extend run downwards
                while k > 0 and type(cs[k - 1]) is tuple and cs[k - 1][0] is t and cs[k - 1][1] == j - (i - k) - 1:
                    k -= 1
                parts.append((tm.extract(t, t.w, 8 * cs[k][1], 8 * (i - k + 1)), 8 * (i - k + 1)))
                i = k
            else:
                parts.append((c, 8))
        return tm.concat(parts)

    def uninit(self, S, oid, off):
        o = self.wobj(S, oid)
        self.nondet_undef += 1
        v = tm.var('uninit%d' % self.nondet_undef, 8)
        o.cells[off] = v
        return v

    def store(self, S, addr, n, v):
        if type(addr) is not int:
            addr = self.resolve(S, addr)
            if type(addr) is not int:
                return self.store_sym(S, addr, n, v)
        oid = addr >> SH
        o = S.objs.get(oid)
        if o is None or o.owner is not S.tok:
            o = self.wobj(S, oid)
            if o is None:
                self.memfail(S, 'write', addr, n)
        off = (addr & 0xFFFFFFFFF) - BASE
        if off < 0 or off + n > o.size or o.freed or o.kind == 'const':
            self.memfail(S, 'write', addr, n)
        if type(v) is int:
            if n == 1:
                o.cells[off] = v
            else:
                o.cells[off:off + n] = v.to_bytes(n, 'little')
        elif n == 1:
            o.cells[off] = v
        else:
            o.cells[off:off + n] = [(v, i) for i in range(n)]

    def resolve(self, S, t):
        """apply knowledge about a term"""
        v = S.known.get(t)
        if v is not None:
            return v
        return t

    def _symaddr(self, S, addr, n, what):
        """-> (oid, k, leaves) with offset = k + sum(coef * piece)"""
        vs = tm.values(addr)
        if vs is not None and len(vs) <= 4:
            raise ForkOn(addr)
        lo, hi = tm.umin(addr), tm.umax(addr)
        if lo >> SH != hi >> SH:
            # a constant base plus small (possibly negative) offsets
            if addr.op != 'add' or not addr.args[0] >> SH:
                raise ForkOn(addr)
            lo = addr.args[0]
        oid = lo >> SH
        o = self.obj(S, oid)
        if o is None:
            raise ForkOn(addr)
        base = (oid << SH) | BASE
        leaves = []

        def addpieces(t, coef):
            if t.op == 'sext':
                # value of the low bits minus the weight of the sign bit
                u = t.args[0]
                q = u.w
                if q > 1:
                    leaves.append((tm.extract(u, q, 0, q - 1), coef))
                leaves.append((tm.extract(u, q, q - 1, 1), -coef << (q - 1)))
                return 0
            if t.op == 'concat':
                pos = 0
                k = 0
                for p in reversed(t.args):
                    if p.op == 'K':
                        k += p.args[0] << pos
                    else:
                        leaves.append((p, coef << pos))
                    pos += p.w
                return k * coef
            leaves.append((t, coef))
            return 0
        if addr.op == 'add':
            a = addr.args
            k = a[0]
            for i in range(1, len(a), 2):
                k += addpieces(a[i], a[i + 1])
        else:
            k = addpieces(addr, 1)
        k -= base
        k += sum(p * c for p, c in leaves if type(p) is int)
        leaves = [(p, c) for p, c in leaves if type(p) is not int]
        if not leaves:
            raise ForkOn(addr)
        bits = sum(p.w for p, _ in leaves)
        if bits > 12:
            raise ForkOn(addr)
        M = 1 << addr.w
        leaves = [(p, c - M if c >= M >> 1 else c) for p, c in leaves]
        mx = k + sum(((1 << p.w) - 1) * c for p, c in leaves if c > 0)
        mn = k + sum(((1 << p.w) - 1) * c for p, c in leaves if c < 0)
        if mn < 0 or mx + n > o.size:
            # need a proof that the access is in bounds
            off = tm.sub(64, addr, base)
            bad = tm.not_(1, tm.ult(64, off, max(o.size - n + 1, 0)))
            r, env = self.sat(S, bad)
            if r == 'sat':
                S2 = S.fork()
                S2.model = env
                S2.memo = {}
                self.memfail(S2, what, addr, n)
            if r != 'unsat':
                raise ForkOn(addr)
        if o.freed:
            self.memfail(S, what, addr, n)
        return oid, o, k, leaves, bits

    def load_sym(self, S, addr, n):
        oid, o, k, leaves, bits = self._symaddr(S, addr, n, 'read')
        size = o.size
        offs = [k]
        for p, c in leaves:
            offs = [x + j * c for j in range(1 << p.w) for x in offs]
        idx = tm.concat([(p, p.w) for p, _ in reversed(leaves)])
        out = []
        for b in range(n):
            tb = []
            conc = True
            for x in offs:
                x += b
                if 0 <= x < size:
                    c = o.cells[x]
                    if type(c) is not int:
                        conc = False
                        if c is None:
                            c = self.uninit(S, oid, x)
                            o = S.objs[oid]
                        elif type(c) is tuple:
                            c = tm.extract(c[0], c[0].w, 8 * c[1], 8)
                            if type(c) is int:
                                pass
                    tb.append(c)
                else:
                    tb.append(0)
            if all(type(c) is int for c in tb):
                r = tm.tab(tb, idx, 8)
            else:
                if bits > 9:
                    raise ForkOn(addr)
                lvl = tb
                for bi in range(bits):
                    bit = tm.extract(idx, idx.w, bi, 1)
                    lvl = [tm.ite(8, bit, lvl[i + 1], lvl[i]) for i in range(0, len(lvl), 2)]
                r = lvl[0]
            out.append((r, 8))
        out.reverse()
        return tm.concat(out)

    def store_sym(self, S, addr, n, v):
        oid, o, k, leaves, bits = self._symaddr(S, addr, n, 'write')
        if bits > 9 or o.kind == 'const':
            raise ForkOn(addr)
        o = self.wobj(S, oid)
        offs = [k]
        for p, c in leaves:
            offs = [x + j * c for j in range(1 << p.w) for x in offs]
        idx = tm.concat([(p, p.w) for p, _ in reversed(leaves)])
        for j, x in enumerate(offs):
            c = tm.eq(bits, idx, j)
            if type(c) is int and c == 0:
                continue
            for b in range(n):
                y = x + b
                if 0 <= y < o.size:
                    old = o.cells[y]
                    if old is None:
                        old = self.uninit(S, oid, y)
                    elif type(old) is tuple:
                        old = tm.extract(old[0], old[0].w, 8 * old[1], 8)
                    o.cells[y] = tm.ite(8, c, tm.extract(v, 8 * n, 8 * b, 8), old)

    # raw cell access for bulk operations
    def span(self, S, addr, n, write, what):
        if type(addr) is not int:
            a = self.resolve(S, addr)
            if type(a) is not int:
                raise ForkOn(a)
            addr = a
        oid = addr >> SH
        if n == 0:
            return None, 0
        o = self.wobj(S, oid) if write else self.obj(S, oid)
        off = (addr & 0xFFFFFFFFF) - BASE
        if o is None or off < 0 or off + n > o.size or o.freed or (write and o.kind == 'const'):
            self.memfail(S, what, addr, n)
        return o, off

    def conc(self, S, v):
        if type(v) is int:
            return v
        v = self.resolve(S, v)
        if type(v) is int:
            return v
        raise ForkOn(v)

    def bytes_at(self, S, addr, n):
        """list of byte values"""
        if n == 0:
            return []
        o, off = self.span(S, addr, n, False, 'read')
        out = []
        oid = addr >> SH
        for i in range(off, off + n):
            c = o.cells[i]
            if c is None:
                c = self.uninit(S, oid, i)
                o = S.objs[oid]
            elif type(c) is tuple:
                c = tm.extract(c[0], c[0].w, 8 * c[1], 8)
            out.append(c)
        return out

    def cstring(self, S, addr):
        o = self.obj(S, addr >> SH)
        off = (addr & 0xFFFFFFFFF) - BASE
        s = bytearray()
        while o.cells[off]:
            s.append(o.cells[off])
            off += 1
        return s.decode('latin1')

    # ------------------------------------------------------------ solving
    def evalm(self, S, t):
        return tm.ev(t, S.model, S.memo)

    def sat(self, S, cond):
        """is pc & cond satisfiable -> (result, env)"""
        if type(cond) is int:
            return ('sat', S.model) if cond else ('unsat', None)
        f = S.facts.get(cond)
        if f is not None:
            return ('sat', S.model) if f else ('unsat', None)
        if S.model is not None and self.evalm(S, cond):
            return 'sat', S.model
        self.tick()
        r, env = self.sol.check(S.pc, cond, tmo=self.feas_tmo)
        return r, env

    def guess(self, S, cond):
        """a random assignment satisfying pc and cond, or None"""
        for env, memo in self.renvs:
            if not tm.ev(cond, env, memo):
                continue
            for c in reversed(S.pc):
                if not tm.ev(c, env, memo):
                    break
            else:
                return env, memo
        return None

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Undecided('time limit of the job')

    def assume(self, S, cond, env=None):
        """add cond (a term) to the path condition; env: model or None"""
        if type(cond) is int:
            if not cond:
                raise PathEnd()
            return
        if cond.op == 'and':
            for c in cond.args:
                self._fact(S, c, 1)
        self._fact(S, cond, 1)
        S.pc.append(cond)
        if env is not None and env is not S.model:
            S.model = env
            S.memo = {}

    def _fact(self, S, c, v):
        S.facts[c] = v
        n = tm.not_(1, c)
        if type(n) is not int:
            S.facts[n] = 1 - v
        if v and c.op == 'eq' and c.args[1].op == 'K':
            S.known[c.args[0]] = c.args[1].args[0]
        if v and c.op == 'xor' and len(c.args) == 2 and c.args[1].op == 'or':
            # not(or ...) : all false
            for y in c.args[1].args:
                S.facts[y] = 0
                ny = tm.not_(1, y)
                if type(ny) is not int:
                    S.facts[ny] = 1

    def split(self, S, cond):
        """-> (state for true or None, state for false or None)"""
        f = S.facts.get(cond)
        if f is not None:
            return (S, None) if f else (None, S)
        neg = tm.not_(1, cond)
        if S.model is not None:
            v = self.evalm(S, cond)
            other = neg if v else cond
            self.tick()
            g = self.guess(S, other)
            if g is not None:
                S2 = S.fork()
                self.st.forks += 1
                self.assume(S, cond if v else neg)
                self.assume(S2, other)
                S2.model, S2.memo = g
                return (S, S2) if v else (S2, S)
            r, env = self.sol.check(S.pc, other, tmo=self.feas_tmo)
            if r == 'unsat':
                S.facts[cond] = v
                if type(neg) is not int:
                    S.facts[neg] = 1 - v
                return (S, None) if v else (None, S)
            S2 = S.fork()
            self.st.forks += 1
            self.assume(S, cond if v else neg)
            if r == 'sat':
                self.assume(S2, other, env)
            else:
                self.assume(S2, other)
                S2.model = None
                S2.memo = {}
            return (S, S2) if v else (S2, S)
        # no model known (an earlier query was not decided)
        r1, e1 = self.sat(S, cond)
        r2, e2 = self.sat(S, neg)
        if r1 == 'unsat' and r2 == 'unsat':
            raise PathEnd()
        if r1 == 'unsat':
            S.facts[cond] = 0
            if e2:
                S.model, S.memo = e2, {}
            return None, S
        if r2 == 'unsat':
            S.facts[cond] = 1
            if e1:
                S.model, S.memo = e1, {}
            return S, None
        S2 = S.fork()
        self.st.forks += 1
        self.assume(S, cond, e1)
        self.assume(S2, neg, e2)
        return S, S2

    def enumerate(self, S, t):
        """fork S over the feasible values of term t -> list of states"""
        out = []
        w = t.w
        first = True
        rest = S
        n = 0
        vs = tm.values(t)
        if vs is not None:
            for v in sorted(vs):
                c = tm.eq(w, t, v)
                if c == 0 and type(c) is int:
                    continue
                if type(c) is int:
                    S.known[t] = v
                    return out + [S]
                a, b = self.split(S, c)
                if a is not None:
                    a.known[t] = v
                    out.append(a)
                if b is None:
                    return out
                S = b
            return out
        pcx = list(S.pc)
        cands = []
        model = S.model
        while True:
            self.tick()
            if model is None:
                r, model = self.sol.check(pcx)
                if r == 'unsat':
                    break
                if r != 'sat':
                    raise Undecided('value enumeration')
            v = tm.ev(t, model, {})
            c = tm.eq(w, t, v)
            cands.append((v, c, model))
            if len(cands) > self.maxforkvals:
                raise Undecided('too many values for %s' % tm.show(t, 3))
            n = tm.not_(1, c)
            if type(n) is int:
                break
            pcx.append(n)
            r, model = self.sol.check(pcx)
            if r == 'unsat':
                break
            if r != 'sat':
                raise Undecided('value enumeration')
        cands.sort(key=lambda x: x[0])
        for v, c, m in cands[:-1]:
            S2 = S.fork()
            self.st.forks += 1
            self.assume(S2, c, m)
            S2.known[t] = v
            out.append(S2)
        v, c, m = cands[-1]
        self.assume(S, c, m)
        S.known[t] = v
        out.append(S)
        return out

    def violate(self, S, kind, msg, env=None):
        model = env if env is not None else S.model
        if model is None:
            r, model = self.sol.check(S.pc)
            if r == 'unsat':
                return
            if r != 'sat':
                self.st.undecided.append('path feasibility for: ' + msg)
                return
        inp = []
        for nm, w in S.inputs:
            inp.append((w, model.get(nm, 0)))
        ufs = [(k[1], k[2], k[3], v) for k, v in model.items() if type(k) is tuple and k[0] == 'uf']
        self.violations.append({'kind': kind, 'msg': msg, 'inputs': inp, 'uf': ufs, 'fail_at': S.fails,
                                'undef': [n for n in model if type(n) is str and n.startswith('un')]})
        if self.stop_on_first and len(self.violations) >= 3:
            raise StopJob()

    # ------------------------------------------------------------ compile
    def compile(self, f):
        if f.compiled is not None:
            return f.compiled
        self.mod.body(f)
        C = Code()
        C.f = f
        C.name = f.name
        slots = {}
        template = [None, None]   # slot 0: objects of the frame, slot 1: variadic arguments
        C.vaslot = 1
        C.slotw = {}

        def newslot(v=None):
            template.append(v)
            return len(template) - 1

        def reg(nm):
            s = slots.get(nm)
            if s is None:
                s = slots[nm] = newslot()
            return s
        consts = {}

        def opnd(v, ty):
            if v[0] == 'r':
                sl = reg(v[1])
                if sl not in C.slotw:
                    t = self.mod.resolve(ty)
                    if t[0] == 'i':
                        C.slotw[sl] = t[1]
                return sl
            x = self.const(v, ty)
            if type(x) is tuple:
                return newslot(x)
            if type(x) is int:
                s = consts.get(x)
                if s is None:
                    s = consts[x] = newslot(x)
                return s
            return newslot(x)
        C.params = [reg(nm) for t, nm in f.params]
        C.pw = [t for t, nm in f.params]
        C.blocks = {}
        bl = f.order
        succ = {}
        phis = {}
        for nm in bl:
            ins = f.blocks[nm]
            t = ins[-1]
            if t[0] == 'jmp':
                succ[nm] = [t[2]]
            elif t[0] == 'br':
                succ[nm] = [t[3], t[4]]
            elif t[0] == 'switch':
                succ[nm] = [t[4]] + [c[1] for c in t[5]]
            else:
                succ[nm] = []
            phis[nm] = [i for i in ins if i[0] == 'phi']
        order, loops, heads = wto(f.entry, succ)
        for nm in bl:
            b = Block()
            b.name = nm
            b.order = order.get(nm, 1 << 30)
            b.loops = loops.get(nm, ())
            C.blocks[nm] = b
        C.heads = heads
        C.entry = C.blocks[f.entry]
        uses = {}
        defs = {}
        for nm in bl:
            b = C.blocks[nm]
            b.items = []
            seq = []
            u = set()
            d = set()
            self._cur = C
            for ins in f.blocks[nm]:
                k = ins[0]
                if k == 'phi':
                    d.add(reg(ins[1]))
                    continue
                if k in ('jmp', 'br', 'switch', 'ret', 'unreachable'):
                    if seq:
                        b.items.append(('seq', seq))
                        seq = []
                    if k == 'jmp':
                        b.term = ('jmp', self._edge(C, nm, ins[2], phis, opnd, reg))
                    elif k == 'br':
                        c = opnd(ins[2], ir.ity(1))
                        u.add(c)
                        b.term = ('br', c, self._edge(C, nm, ins[3], phis, opnd, reg),
                                  self._edge(C, nm, ins[4], phis, opnd, reg))
                    elif k == 'switch':
                        c = opnd(ins[3], ins[2])
                        u.add(c)
                        b.term = ('switch', c, self.width(ins[2]), self._edge(C, nm, ins[4], phis, opnd, reg),
                                  [(cv, self._edge(C, nm, t, phis, opnd, reg)) for cv, t in ins[5]])
                    elif k == 'ret':
                        if ins[3] is None:
                            b.term = ('ret', None)
                        else:
                            c = opnd(ins[3], ins[2])
                            u.add(c)
                            b.term = ('ret', c)
                    else:
                        b.term = ('unreachable',)
                    continue
                if k == 'call':
                    if seq:
                        b.items.append(('seq', seq))
                        seq = []
                    dst = reg(ins[1]) if ins[1] else None
                    cal = opnd(ins[3], ir.PTR)
                    ar = []
                    for at, av, bv in ins[4]:
                        s = opnd(av, at)
                        u.add(s)
                        ar.append((s, self.width(at), bv))
                    u.add(cal)
                    if dst is not None:
                        d.add(dst)
                    b.items.append(('call', dst, cal, ar, 0))
                    continue
                fn, us, ds = self._ins(ins, opnd, reg)
                u.update(x for x in us if x not in d)
                if ds is not None:
                    d.add(ds)
                seq.append(fn)
            # uses are approximated (order inside the block ignored for calls)
            uses[nm] = u
            defs[nm] = d
        # liveness
        for nm in bl:
            C.blocks[nm].live = set()
        edges = {}
        for nm in bl:
            t = C.blocks[nm].term
            es = []
            if t[0] == 'jmp':
                es = [t[1]]
            elif t[0] == 'br':
                es = [t[2], t[3]]
            elif t[0] == 'switch':
                es = [t[3]] + [e for _, e in t[4]]
            edges[nm] = es
        pool = set(consts.values())
        ch = True
        while ch:
            ch = False
            for nm in reversed(bl):
                b = C.blocks[nm]
                l = set(uses[nm])
                for e in edges[nm]:
                    tb = e[0]
                    pd = set(x for x, _ in e[1])
                    l |= (tb.live - pd)
                    l |= set(s for _, s in e[1])
                phid = set(reg(i[1]) for i in phis[nm])
                l -= (defs[nm] - phid) - uses[nm]
                # phi destinations are live-in (assigned on the edge)
                l |= phid
                l -= pool
                if l != b.live:
                    b.live = l
                    ch = True
        C.template = template
        f.compiled = C
        f.lines = None
        return C

    def _edge(self, C, frm, to, phis, opnd, reg):
        mv = []
        for i in phis[to]:
            for v, b in i[3]:
                if b == frm:
                    mv.append((reg(i[1]), opnd(v, i[2])))
                    break
        mv = [(d, s) for d, s in mv if d != s]
        back = to in C.heads and frm in C.heads[to]
        return (C.blocks[to], mv, back)

    def _ins(self, ins, opnd, reg):
        k = ins[0]
        dst = reg(ins[1]) if ins[1] else None
        if k == 'bin':
            _, _, op, ty, a, b, fl = ins
            w = self.width(ty)
            i = opnd(a, ty)
            j = opnd(b, ty)
            return self._bin(op, w, dst, i, j), (i, j), dst
        if k == 'icmp':
            _, _, pr, ty, a, b = ins
            w = self.width(ty)
            i = opnd(a, ty)
            j = opnd(b, ty)
            return self._icmp(pr, w, dst, i, j), (i, j), dst
        if k == 'cast':
            _, _, op, ty, a, t2 = ins
            i = opnd(a, ty)
            w1 = self.width(ty)
            w2 = self.width(t2)
            m2 = (1 << w2) - 1
            if op in ('zext', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
                if w1 == w2:
                    def f(R, S):
                        R[dst] = R[i]
                elif w2 > w1:
                    def f(R, S):
                        a = R[i]
                        R[dst] = a if type(a) is int else tm.zext(a, w1, w2)
                else:
                    def f(R, S):
                        a = R[i]
                        R[dst] = a & m2 if type(a) is int else tm.extract(a, w1, 0, w2)
            else:
                def f(R, S):
                    R[dst] = tm.sext(R[i], w1, w2)
            return f, (i,), dst
        if k == 'load':
            _, _, ty, a = ins
            i = opnd(a, ir.PTR)
            n = self.mod.size(ty)[0]
            load = self.load
            rt = self.mod.resolve(ty)
            if rt[0] == 's':
                fs = []
                for q in range(len(rt[1])):
                    o, ft = self.mod.field(rt, q)
                    fs.append((o, self.mod.size(ft)[0]))

                def f(R, S):
                    a = R[i]
                    R[dst] = tuple(load(S, tm.add(64, a, o), z) for o, z in fs)
                return f, (i,), dst
            w = self.width(ty)
            if w == 8 * n:
                def f(R, S):
                    R[dst] = load(S, R[i], n)
            else:
                def f(R, S):
                    R[dst] = tm.extract(load(S, R[i], n), 8 * n, 0, w)
            return f, (i,), dst
        if k == 'store':
            _, _, ty, v, a = ins
            i = opnd(v, ty)
            j = opnd(a, ir.PTR)
            n = self.mod.size(ty)[0]
            store = self.store
            rt = self.mod.resolve(ty)
            if rt[0] == 's':
                fs = []
                for q in range(len(rt[1])):
                    o, ft = self.mod.field(rt, q)
                    fs.append((o, self.mod.size(ft)[0]))

                def f(R, S):
                    a = R[j]
                    for x, (o, z) in zip(R[i], fs):
                        store(S, tm.add(64, a, o), z, x)
                return f, (i, j), None
            w = self.width(ty)
            if w == 8 * n:
                def f(R, S):
                    store(S, R[j], n, R[i])
            else:
                def f(R, S):
                    store(S, R[j], n, tm.zext(R[i], w, 8 * n))
            return f, (i, j), None
        if k == 'gep':
            _, _, st, base, idx = ins
            b = opnd(base, ir.PTR)
            t = st
            off = 0
            dyn = []
            first = True
            for it, iv in idx:
                if first:
                    sc = self.mod.size(t)[0]
                    nt = t
                    first = False
                else:
                    r = self.mod.resolve(t)
                    if r[0] == 's':
                        o, t = self.mod.field(r, iv[1])
                        off += o
                        continue
                    sc = self.mod.size(r[2])[0]
                    nt = r[2]
                t = nt
                iw = self.width(it)
                if iv[0] == 'c':
                    c = iv[1]
                    if c >> (iw - 1):
                        c -= 1 << iw
                    off += c * sc
                else:
                    dyn.append((opnd(iv, it), iw, sc))
            M = (1 << 64) - 1
            if not dyn:
                def f(R, S):
                    a = R[b]
                    R[dst] = (a + off) & M if type(a) is int else tm.add(64, a, off & M)
                return f, (b,), dst
            if len(dyn) == 1 and dyn[0][1] == 64:
                i, _, sc = dyn[0]

                def f(R, S):
                    a = R[b]
                    x = R[i]
                    if type(a) is int and type(x) is int:
                        R[dst] = (a + off + x * sc) & M
                    else:
                        R[dst] = tm.add(64, tm.add(64, a, off & M), tm.mul(64, x, sc))
                return f, (b, i), dst

            def f(R, S):
                a = tm.add(64, R[b], off & M)
                for i, iw, sc in dyn:
                    a = tm.add(64, a, tm.mul(64, tm.sext(R[i], iw, 64), sc & M))
                R[dst] = a
            return f, [b] + [x[0] for x in dyn], dst
        if k == 'alloca':
            _, _, ty, nt, nv = ins
            sz = self.mod.size(ty)[0]
            i = opnd(nv, nt)
            nm = ins[1]
            new = self.new_obj

            def f(R, S):
                n = R[i]
                if type(n) is not int:
                    n = self.conc(S, n)
                a = new(S, sz * n, 'stack', nm)
                R[dst] = a
                R[0].append(a >> SH)
            return f, (i,), dst
        if k == 'select':
            _, _, ty, c, a, b = ins
            ci = opnd(c, ir.ity(1))
            i = opnd(a, ty)
            j = opnd(b, ty)
            w = self.width(ty)
            isp = self.mod.resolve(ty)[0] == 'p'

            def f(R, S):
                c = R[ci]
                if type(c) is not int:
                    c = self.resolve_bool(S, c)
                if type(c) is int:
                    R[dst] = R[i] if c else R[j]
                elif isp:
                    raise ForkOn(c)
                else:
                    R[dst] = tm.ite(w, c, R[i], R[j])
            return f, (ci, i, j), dst
        if k == 'freeze':
            i = opnd(ins[3], ins[2])

            def f(R, S):
                R[dst] = R[i]
            return f, (i,), dst
        if k == 'insertvalue':
            i = opnd(ins[3], ins[2])
            j = opnd(ins[5], ins[4])
            ix = ins[6][0]

            def f(R, S):
                l = list(R[i])
                l[ix] = R[j]
                R[dst] = tuple(l)
            return f, (i, j), dst
        if k == 'extractvalue':
            i = opnd(ins[3], ins[2])
            ix = ins[4][0]

            def f(R, S):
                R[dst] = R[i][ix]
            return f, (i,), dst
        raise ir.Unsupported(k)

    def resolve_bool(self, S, c):
        f = S.facts.get(c)
        return c if f is None else f

    def _bin(self, op, w, d, i, j):
        M = (1 << w) - 1
        if op == 'add':
            g = tm.add

            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = (a + b) & M if type(a) is int and type(b) is int else g(w, a, b)
        elif op == 'sub':
            g = tm.sub

            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = (a - b) & M if type(a) is int and type(b) is int else g(w, a, b)
        elif op == 'mul':
            g = tm.mul

            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = (a * b) & M if type(a) is int and type(b) is int else g(w, a, b)
        elif op == 'xor':
            g = tm.xor

            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = a ^ b if type(a) is int and type(b) is int else g(w, a, b)
        elif op == 'and':
            g = tm.and_

            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = a & b if type(a) is int and type(b) is int else g(w, a, b)
        elif op == 'or':
            g = tm.or_

            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = a | b if type(a) is int and type(b) is int else g(w, a, b)
        elif op in ('shl', 'lshr', 'ashr'):
            g = {'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr}[op]

            def f(R, S):
                b = R[j]
                if type(b) is not int:
                    b = self.resolve(S, b)
                    if type(b) is not int:
                        if tm.values(b) is not None:
                            raise ForkOn(b)
                        if tm.umax(b) >= w:
                            bad = tm.not_(1, tm.ult(w, b, w))
                            r, env = self.sat(S, bad)
                            if r == 'sat':
                                self.violate(S, 'ub', 'shift amount not less than the width', env)
                                self.assume(S, tm.not_(1, bad))
                elif b >= w:
                    self.violate(S, 'ub', 'shift amount %d not less than the width %d in %s' % (
                        b, w, ' < '.join(reversed(S.stack[-3:]))))
                    raise PathEnd()
                R[d] = g(w, R[i], b)
        else:
            g = {'udiv': tm.udiv, 'urem': tm.urem, 'sdiv': tm.sdiv, 'srem': tm.srem}[op]

            def f(R, S):
                b = R[j]
                if type(b) is not int:
                    b = self.resolve(S, b)
                if type(b) is int:
                    if b == 0:
                        self.violate(S, 'ub', 'division by zero in ' + ' < '.join(reversed(S.stack[-3:])))
                        raise PathEnd()
                else:
                    z = tm.eq(w, b, 0)
                    if type(z) is not int:
                        r, env = self.sat(S, z)
                        if r == 'sat':
                            self.violate(S, 'ub', 'division by zero in ' + ' < '.join(reversed(S.stack[-3:])), env)
                            self.assume(S, tm.not_(1, z))
                            if S.model is not None and not self.evalm(S, tm.not_(1, z)):
                                S.model = None
                R[d] = g(w, R[i], b)
        return f

    def _icmp(self, pr, w, d, i, j):
        if pr == 'eq':
            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = (1 if a == b else 0) if type(a) is int and type(b) is int else tm.eq(w, a, b)
        elif pr == 'ne':
            def f(R, S):
                a = R[i]
                b = R[j]
                R[d] = (1 if a != b else 0) if type(a) is int and type(b) is int else tm.xor(1, tm.eq(w, a, b), 1)
        elif pr == 'ult':
            def f(R, S):
                R[d] = tm.ult(w, R[i], R[j])
        elif pr == 'ugt':
            def f(R, S):
                R[d] = tm.ult(w, R[j], R[i])
        elif pr == 'ule':
            def f(R, S):
                R[d] = tm.xor(1, tm.ult(w, R[j], R[i]), 1)
        elif pr == 'uge':
            def f(R, S):
                R[d] = tm.xor(1, tm.ult(w, R[i], R[j]), 1)
        elif pr == 'slt':
            def f(R, S):
                R[d] = tm.slt(w, R[i], R[j])
        elif pr == 'sgt':
            def f(R, S):
                R[d] = tm.slt(w, R[j], R[i])
        elif pr == 'sle':
            def f(R, S):
                R[d] = tm.xor(1, tm.slt(w, R[j], R[i]), 1)
        else:
            def f(R, S):
                R[d] = tm.xor(1, tm.slt(w, R[i], R[j]), 1)
        return f

    # ------------------------------------------------------------ run
    def call(self, S, target, args, vargs=()):
        """call function by name; returns list of (state, value)"""
        nm = self.stubs.get(target, target)
        f = self.mod.funcs.get(nm)
        if f is None:
            h = BUILTINS.get(nm)
            if h is None:
                if nm.startswith('@llvm.'):
                    h = llvm_intrinsic(nm)
                if h is None:
                    raise ir.Unsupported('call to undefined function ' + nm)
            return [(S, h(self, S, args))]
        return self.run_func(f, args, S)

    def run_func(self, f, args, S):
        C = self.compile(f)
        self.st.funcs.add(f.name)
        R = C.template[:]
        frameobjs = []
        nargs = len(C.params)
        for s, v in zip(C.params, args):
            R[s] = v
        if f.vararg or len(args) > nargs:
            R[C.vaslot] = args[nargs:]
        R[0] = frameobjs
        S.stack.append(f.name[1:])
        self.depth += 1
        if self.depth > 300:
            raise Undecided('recursion depth')
        work = [Frame(C.entry, 0, 0, R, S, {})]
        done = []
        try:
            while work:
                if len(work) == 1:
                    fr = work.pop()
                else:
                    fr = self.pick(C, work)
                self.run_frame(C, fr, work, done)
        finally:
            self.depth -= 1
        if len(done) > 1:
            done = self.merge_returns(done, f)
        out = []
        for S2, v, fo in done:
            S2.stack.pop()
            for oid in fo:
                S2.objs.pop(oid, None)
            out.append((S2, v))
        return out

    def pick(self, C, work):
        best = None
        for fr in work:
            o = fr.blk.order
            if best is None or o < best:
                best = o
        cand = [fr for fr in work if fr.blk.order == best]
        fr = cand[0]
        # frames in the middle of a block go first
        for c in cand:
            if c.item or c.sub or c.hot:
                work.remove(c)
                return c
        # prefer the smallest iteration signature
        sigs = {}
        for c in cand:
            sigs.setdefault(self.sig(c), []).append(c)
        k = min(sigs)
        group = sigs[k]
        for c in group:
            work.remove(c)
        fr = group[0]
        rest = group[1:]
        left = []
        for c in rest:
            if not self.merge_frames(C, fr, c):
                # try others
                for l in left:
                    if self.merge_frames(C, l, c):
                        break
                else:
                    left.append(c)
        work.extend(left)
        return fr

    def sig(self, fr):
        cnt = fr.cnt
        return tuple(cnt.get(h, 0) for h in fr.blk.loops)

    def run_frame(self, C, fr, work, done):
        blk = fr.blk
        item = fr.item
        sub = fr.sub
        R = fr.R
        S = fr.S
        cnt = fr.cnt
        st = self.st
        while True:
            items = blk.items
            ni = len(items)
            try:
                while item < ni:
                    it = items[item]
                    if it[0] == 'seq':
                        seq = it[1]
                        st.steps += len(seq)
                        itr = iter(seq if not sub else seq[sub:])
                        base = sub
                        try:
                            for g in itr:
                                g(R, S)
                        except ForkOn as e:
                            sub = base + (len(seq) - base - itr.__length_hint__() - 1)
                            self.fork_frame(e.t, blk, item, sub, R, S, cnt, work)
                            return
                        sub = 0
                        item += 1
                    else:
                        _, dst, cal, ar, rw = it
                        st.steps += 1
                        a = R[cal]
                        if type(a) is not int:
                            a = self.resolve(S, a)
                            if type(a) is not int:
                                self.fork_frame(a, blk, item, 0, R, S, cnt, work)
                                return
                        nm = self.fname.get(a)
                        if nm is None:
                            self.memfail(S, 'call', a, 1)
                        args = []
                        for s, w, bv in ar:
                            v = R[s]
                            if bv is not None:
                                n = self.mod.size(bv)[0]
                                na = self.new_obj(S, n, 'stack', 'byval')
                                memcpy(self, S, na, v, n)
                                v = na
                            args.append(v)
                        if nm == '@llvm.va_start':
                            self.va_start(S, args[0], R[C.vaslot] or [])
                            item += 1
                            continue
                        try:
                            res = self.call(S, nm, args)
                        except ForkOn as e:
                            # only built-in functions let this escape
                            self.fork_frame(e.t, blk, item, 0, R, S, cnt, work)
                            return
                        if not res:
                            return
                        item += 1
                        for S2, v in res[1:]:
                            R2 = R[:]
                            R2[0] = list(R[0])
                            if dst is not None:
                                R2[dst] = v
                            work.append(Frame(blk, item, 0, R2, S2, dict(cnt)))
                        S, v = res[0]
                        if dst is not None:
                            R[dst] = v
                        if len(res) > 1:
                            work.append(Frame(blk, item, 0, R, S, cnt))
                            return
                t = blk.term
                k = t[0]
                if k == 'jmp':
                    e = t[1]
                elif k == 'br':
                    c = R[t[1]]
                    if type(c) is int:
                        e = t[2] if c else t[3]
                    else:
                        a, b = self.split(S, c)
                        if a is not None and b is not None:
                            R2 = R[:]
                            R2[0] = list(R[0])
                            cnt2 = dict(cnt)
                            self.enter(t[3], R2, cnt2)
                            work.append(Frame(t[3][0], 0, 0, R2, b, cnt2))
                            self.enter(t[2], R, cnt)
                            work.append(Frame(t[2][0], 0, 0, R, a, cnt))
                            return
                        if a is not None:
                            e, S = t[2], a
                        elif b is not None:
                            e, S = t[3], b
                        else:
                            return
                elif k == 'ret':
                    done.append((S, R[t[1]] if t[1] is not None else None, R[0]))
                    return
                elif k == 'switch':
                    c = R[t[1]]
                    if type(c) is not int:
                        c = self.resolve(S, c)
                    if type(c) is int:
                        e = t[3]
                        for cv, ee in t[4]:
                            if cv == c:
                                e = ee
                                break
                    else:
                        cur = S
                        for cv, ee in t[4]:
                            q = tm.eq(t[2], c, cv)
                            if type(q) is int:
                                a, b = (cur, None) if q else (None, cur)
                            else:
                                a, b = self.split(cur, q)
                            if a is not None:
                                R2 = R[:]
                                R2[0] = list(R[0])
                                cnt2 = dict(cnt)
                                self.enter(ee, R2, cnt2)
                                work.append(Frame(ee[0], 0, 0, R2, a, cnt2))
                            cur = b
                            if cur is None:
                                break
                        if cur is not None:
                            self.enter(t[3], R, cnt)
                            work.append(Frame(t[3][0], 0, 0, R, cur, cnt))
                        return
                else:
                    self.violate(S, 'ub', 'unreachable reached in ' + C.name)
                    return
            except PathEnd:
                st.paths += 1
                return
            mv = e[1]
            if mv:
                if len(mv) == 1:
                    R[mv[0][0]] = R[mv[0][1]]
                else:
                    vs = [R[s] for _, s in mv]
                    for (d, _), v in zip(mv, vs):
                        R[d] = v
            blk = e[0]
            if e[2]:
                n = cnt.get(blk.name, 0) + 1
                cnt[blk.name] = n
                if not n & 1023:
                    self.tick()
                if n > 200000:
                    raise Undecided('loop bound in ' + C.name)
            elif blk.name in C.heads:
                cnt[blk.name] = 0
            item = 0
            sub = 0
            if work:
                work.append(Frame(blk, 0, 0, R, S, cnt))
                return

    def enter(self, e, R, cnt):
        mv = e[1]
        if mv:
            vs = [R[s] for _, s in mv]
            for (d, _), v in zip(mv, vs):
                R[d] = v
        nm = e[0].name
        if e[2]:
            cnt[nm] = cnt.get(nm, 0) + 1
        elif nm in cnt:
            cnt[nm] = 0

    def fork_frame(self, t, blk, item, sub, R, S, cnt, work):
        if t.w == 1:
            a, b = self.split(S, t)
            ss = []
            if a is not None:
                a.known[t] = 1
                ss.append(a)
            if b is not None:
                b.known[t] = 0
                ss.append(b)
        else:
            ss = self.enumerate(S, t)
        for i, s in enumerate(ss):
            R2 = R if i == len(ss) - 1 else R[:]
            if R2 is not R:
                R2[0] = list(R[0])
            work.append(Frame(blk, item, sub, R2, s, cnt if R2 is R else dict(cnt), True))

    # ------------------------------------------------------------ merging
    def ptrlike(self, S, v):
        if type(v) is not int or v < (1 << SH):
            return False
        o = S.objs.get(v >> SH)
        if o is None:
            return (v >> SH) in self.gobj or v in self.fname
        off = (v & 0xFFFFFFFFF) - BASE
        return -64 <= off <= o.size + 64

    def merge_states(self, A, B, vals):
        """merge B into A; vals: list of (va,vb,w|None) -> list or None"""
        if A.nin != B.nin or A.inputs != B.inputs or A.fail_at != B.fail_at or A.fails != B.fails \
                or A.nlive != B.nlive or (A.fail_at and A.allocs != B.allocs):
            return None
        oa, ob = A.objs, B.objs
        diff = []
        for k, o in oa.items():
            p = ob.get(k)
            if p is o:
                continue
            if p is None:
                if k in self.gobj:
                    p = self.gobj[k]
                    if p is o:
                        continue
                else:
                    return None
            if p.size != o.size or p.freed != o.freed or p.kind != o.kind:
                return None
            diff.append((k, o, p))
        for k in ob:
            if k not in oa:
                if k in self.gobj:
                    if ob[k] is not self.gobj[k]:
                        diff.append((k, self.gobj[k], ob[k]))
                else:
                    return None
        # selector
        sb = set(B.pc)
        common = [c for c in A.pc if c in sb]
        sc = set(common)
        da = [c for c in A.pc if c not in sc]
        db = [c for c in B.pc if c not in sc]
        ca = conj(da)
        cb = conj(db)
        if type(ca) is int or type(cb) is int:
            # one path condition implies the other: not disjoint
            return None
        if len(db) < len(da):
            sel, flip = cb, True
        else:
            sel, flip = ca, False

        def pick(w, x, y):
            return tm.ite(w, sel, y, x) if flip else tm.ite(w, sel, x, y)
        out = []
        for va, vb, w in vals:
            if va is vb or (type(va) is int and type(vb) is int and va == vb):
                out.append(va)
                continue
            if type(va) is tuple and type(vb) is tuple and len(va) == len(vb):
                if va == vb:
                    out.append(va)
                    continue
                if any(self.ptrlike(A, p) or self.ptrlike(B, q) for p, q in zip(va, vb)):
                    return None
                out.append(('mt', va, vb))
                continue
            if self.nomerge and type(va) is int and type(vb) is int and w == 64:
                return None
            if va is None or vb is None or type(va) in (list, tuple) or type(vb) in (list, tuple):
                return None
            if self.ptrlike(A, va) or self.ptrlike(B, vb):
                return None
            ww = w
            if ww is None:
                ww = va.w if type(va) is not int else (vb.w if type(vb) is not int else 64)
                if type(va) is not int and type(vb) is not int and va.w != vb.w:
                    return None
            out.append(('m', ww, va, vb))
        patches = []
        for k, o, p in diff:
            x, y = o.cells, p.cells
            if x == y:
                continue
            i = 0
            n = o.size
            pt = []
            while i < n:
                u = x[i]
                v = y[i]
                if u is v or u == v:
                    i += 1
                    continue
                if u is None or v is None:
                    # uninitialised on one side: arbitrary there
                    i += 1
                    pt.append((i - 1, 1, u, v))
                    continue
                a8 = i & ~7
                if a8 + 8 <= n:
                    if self.nomerge and o.kind == 'stack' and all(type(q) is int for q in x[a8:a8 + 8]) \
                            and all(type(q) is int for q in y[a8:a8 + 8]):
                        return None
                    for c in (x, y):
                        ws = c[a8:a8 + 8]
                        if all(type(q) is int for q in ws):
                            val = int.from_bytes(bytes(ws), 'little')
                            if val >> SH and (self.ptrlike(A, val) or self.ptrlike(B, val)):
                                return None
                L = 1
                for c in (u, v):
                    if type(c) is tuple and c[1] == 0:
                        L = max(L, c[0].w // 8)
                if i + L > n or any(q is None for q in x[i:i + L]) or any(q is None for q in y[i:i + L]):
                    L = 1
                pt.append((i, L, self.word(x, i, L), self.word(y, i, L)))
                i += L
            patches.append((k, o, pt))
        # commit
        for k, o, pt in patches:
            no = self.wobj(A, k)
            for i, L, u, v in pt:
                if u is None or v is None:
                    self.nondet_undef += 1
                    fr = tm.var('uninit%d' % self.nondet_undef, 8)
                    if u is None:
                        u = fr
                    else:
                        v = fr
                    if type(u) is tuple:
                        u = tm.extract(u[0], u[0].w, 8 * u[1], 8)
                    if type(v) is tuple:
                        v = tm.extract(v[0], v[0].w, 8 * v[1], 8)
                r = pick(8 * L, u, v)
                if type(r) is int:
                    no.cells[i:i + L] = r.to_bytes(L, 'little')
                elif L == 1:
                    no.cells[i] = r
                else:
                    no.cells[i:i + L] = [(r, j) for j in range(L)]
        res = []
        for v in out:
            if type(v) is tuple and v and v[0] == 'm' and len(v) == 4:
                res.append(pick(v[1], v[2], v[3]))
            elif type(v) is tuple and v and v[0] == 'mt':
                res.append(tuple(pick(p.w if type(p) is not int else q.w if type(q) is not int else 64, p, q)
                                 for p, q in zip(v[1], v[2])))
            else:
                res.append(v)
        A.pc = common
        alt = tm.or_(1, ca, cb)
        if len(da) == 1 and len(db) == 1 and tm.not_(1, ca) is cb:
            alt = 1
        fa, fb = A.facts, B.facts
        A.facts = {k: v for k, v in fa.items() if fb.get(k) == v}
        ka, kb = A.known, B.known
        A.known = {k: v for k, v in ka.items() if kb.get(k) == v}
        if type(alt) is not int:
            A.pc.append(alt)
            A.facts[alt] = 1
        if A.model is None and B.model is not None:
            A.model, A.memo = B.model, B.memo
        A.nid = max(A.nid, B.nid)
        A.allocs = max(A.allocs, B.allocs)
        self.st.merges += 1
        return res

    def word(self, cells, i, L):
        parts = []
        for c in reversed(cells[i:i + L]):
            if type(c) is tuple:
                c = tm.extract(c[0], c[0].w, 8 * c[1], 8)
            parts.append((c, 8))
        if L > 1:
            c = cells[i]
            if type(c) is tuple and c[1] == 0 and c[0].w == 8 * L and \
                    all(type(cells[i + j]) is tuple and cells[i + j][0] is c[0] and cells[i + j][1] == j
                        for j in range(L)):
                return c[0]
        return tm.concat(parts)

    def merge_frames(self, C, f, g):
        live = sorted(f.blk.live)
        if f.R[0] != g.R[0]:
            return False
        gw = C.slotw.get
        vals = [(f.R[s], g.R[s], gw(s)) for s in live if s != 0]
        r = self.merge_states(f.S, g.S, vals)
        if r is None:
            return False
        j = 0
        for s in live:
            if s == 0:
                continue
            f.R[s] = r[j]
            j += 1
        return True

    def merge_returns(self, done, f):
        out = []
        rt = self.mod.resolve(f.ret)
        rw = rt[1] if rt[0] == 'i' else None
        for S, v, fo in done:
            for k, (S2, v2, fo2) in enumerate(out):
                # stack objects of the frame are dead
                if len(fo) != len(fo2):
                    continue
                for o in fo:
                    S.objs.pop(o, None)
                for o in fo2:
                    S2.objs.pop(o, None)
                r = self.merge_states(S2, S, [(v2, v, rw)] if v is not None else [])
                if r is not None:
                    out[k] = (S2, r[0] if r else None, fo2)
                    break
            else:
                out.append((S, v, fo))
        return out

    # ------------------------------------------------------------ varargs
    def va_start(self, S, ap, vargs):
        a = self.new_obj(S, 8 * max(len(vargs), 1), 'stack', 'va_area')
        for i, v in enumerate(vargs):
            if type(v) is not int and v.w != 64:
                v = tm.zext(v, v.w, 64)
            self.store(S, a + 8 * i, 8, v)
        self.store(S, ap, 4, 48)
        self.store(S, ap + 4, 4, 304)
        self.store(S, ap + 8, 8, a)
        self.store(S, ap + 16, 8, 0)

    # ------------------------------------------------------------ checks
    def fresh(self, S, w):
        S.nin += 1
        nm = 'in%d_%d' % (S.nin, w)
        S.inputs.append((nm, w))
        return tm.var(nm, w)

    def prove(self, S, cond, msg):
        """check that cond (value, 1 bit) holds on this path"""
        import prove
        self.st.checks += 1
        self.reached[msg] = self.reached.get(msg, 0) + 1
        if type(cond) is int:
            if cond:
                self.st.rewritten += 1
                self.sol.residual(cond)
                return
            self.violate(S, 'check', msg)
            raise PathEnd()
        r, env = prove.valid(self, S, cond)
        if r == 'valid':
            self.assume_fact(S, cond)
            return
        if r == 'sat':
            self.violate(S, 'check', msg, env)
            # continue on the part where it holds, if any
            raise PathEnd()
        self.st.undecided.append('check: ' + msg)

    def assume_fact(self, S, cond):
        self._fact(S, cond, 1)

    def start(self, fname):
        S = State()
        S.objs = {}
        S.pc = []
        S.facts = {}
        S.known = {}
        S.model = {}
        S.memo = {}
        S.nid = self.nid0 + 1000
        S.inputs = []
        S.tok = object()
        S.allocs = 0
        S.fail_at = 0
        S.fails = []
        S.nlive = 0
        S.stack = []
        S.nin = 0
        res = self.run_func(self.mod.funcs['@' + fname], [], S)
        self.st.paths += len(res)
        return res


# ---------------------------------------------------------------- CFG order
def wto(entry, succ):
    """weak topological order positions, enclosing loop heads per block and
    back edge sources per head"""
    sys.setrecursionlimit(20000)
    order = {}
    loops = {}
    heads = {}
    cnt = [0]

    def sccs(nodes, start):
        """Tarjan from start restricted to nodes; returns list in topological order"""
        idx = {}
        low = {}
        onst = set()
        st = []
        out = []
        c = [0]
        stack = [(start, iter([s for s in succ[start] if s in nodes]))]
        idx[start] = low[start] = 0
        c[0] = 1
        st.append(start)
        onst.add(start)
        while stack:
            v, it = stack[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]
                    c[0] += 1
                    st.append(w)
                    onst.add(w)
                    stack.append((w, iter([s for s in succ[w] if s in nodes])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            stack.pop()
            if stack:
                low[stack[-1][0]] = min(low[stack[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append((v, comp))
        out.reverse()
        return out

    def visit(nodes, start, encl):
        for root, comp in sccs(nodes, start):
            if len(comp) == 1 and root not in succ[root]:
                order[root] = cnt[0]
                cnt[0] += 1
                loops[root] = encl
                continue
            e2 = encl + (root,)
            order[root] = cnt[0]
            cnt[0] += 1
            loops[root] = e2
            heads[root] = set(n for n in comp if root in succ[n])
            sub = set(comp)
            sub.discard(root)
            # visit every node of the component reachable from the head
            rest = set(sub)
            for s in succ[root]:
                if s in rest and s not in order:
                    visit_sub(rest, s, e2)

    def visit_sub(nodes, start, encl):
        # collect all successors of the head inside nodes by a virtual start
        visit(set(n for n in nodes if n not in order), start, encl)
    visit(set(succ), entry, ())
    # visit_sub handles several entries one after another; blocks of a later
    # entry may precede earlier ones, which only affects merging precision
    return order, loops, heads


# ---------------------------------------------------------------- built-ins
def memcpy(E, S, d, s, n, *_):
    n = E.conc(S, n)
    if n == 0:
        return d
    if n > (1 << 32):
        E.memfail(S, 'memcpy', d if type(d) is int else 0, n)
    o, so = E.span(S, s, n, False, 'read')
    cells = o.cells[so:so + n]
    o, do = E.span(S, d, n, True, 'write')
    o.cells[do:do + n] = cells
    return d


def memcpy_nov(E, S, d, s, n, *_):
    n = E.conc(S, n)
    d2 = E.conc(S, d) if n else 0
    s2 = E.conc(S, s) if n else 0
    if n and d2 != s2 and d2 < s2 + n and s2 < d2 + n:
        E.violate(S, 'memory', 'memcpy with overlapping buffers in ' + ' < '.join(reversed(S.stack[-3:])))
        raise PathEnd()
    return memcpy(E, S, d, s, n)


def memset(E, S, d, v, n, *_):
    n = E.conc(S, n)
    if n == 0:
        return d
    if n > (1 << 32):
        E.memfail(S, 'memset', d if type(d) is int else 0, n)
    o, do = E.span(S, d, n, True, 'write')
    if type(v) is not int and v.w != 8:
        v = tm.extract(v, v.w, 0, 8)
    elif type(v) is int:
        v &= 255
    o.cells[do:do + n] = [v] * n
    return d


def b_malloc(E, S, a):
    n = E.conc(S, a[0])
    if n > (1 << 31):
        return 0
    S.allocs += 1
    if S.fail_at and S.allocs == S.fail_at:
        return 0
    S.nlive += 1
    return E.new_obj(S, n, 'heap', 'malloc#%d' % S.allocs)


def b_calloc(E, S, a):
    n = E.conc(S, a[0]) * E.conc(S, a[1])
    p = b_malloc(E, S, [n])
    if p:
        S.objs[p >> SH].cells = [0] * n
    return p


def b_free(E, S, a):
    p = E.conc(S, a[0])
    if p == 0:
        return None
    o = E.obj(S, p >> SH)
    if o is None or o.kind != 'heap' or o.freed or (p & 0xFFFFFFFFF) != BASE:
        E.violate(S, 'memory', 'invalid or double free in ' + ' < '.join(reversed(S.stack[-3:])))
        raise PathEnd()
    S.objs.pop(p >> SH)
    S.nlive -= 1
    return None


def b_realloc(E, S, a):
    p = E.conc(S, a[0])
    n = E.conc(S, a[1])
    if p == 0:
        return b_malloc(E, S, [n])
    o = E.obj(S, p >> SH)
    if o is None or o.kind != 'heap' or o.freed or (p & 0xFFFFFFFFF) != BASE:
        E.violate(S, 'memory', 'realloc of invalid pointer in ' + ' < '.join(reversed(S.stack[-3:])))
        raise PathEnd()
    q = b_malloc(E, S, [n])
    if q == 0:
        return 0
    m = min(n, o.size)
    S.objs[q >> SH].cells[:m] = o.cells[:m]
    b_free(E, S, [p])
    return q


def b_memcmp(E, S, a):
    n = E.conc(S, a[2])
    x = E.bytes_at(S, E.conc(S, a[0]), n)
    y = E.bytes_at(S, E.conc(S, a[1]), n)
    r = 0
    for u, v in reversed(list(zip(x, y))):
        e = tm.eq(8, u, v)
        if type(e) is int and e:
            continue
        lt = tm.ult(8, u, v)
        r = tm.ite(32, e, r, tm.ite(32, lt, 0xFFFFFFFF, 1))
    return r


def b_strlen(E, S, a):
    p = E.conc(S, a[0])
    n = 0
    while True:
        c = E.load(S, p + n, 1)
        if type(c) is int:
            if c == 0:
                return n
        else:
            q = tm.eq(8, c, 0)
            if type(q) is int:
                if q:
                    return n
            else:
                f = S.facts.get(q)
                if f is None:
                    raise ForkOn(q)
                if f:
                    return n
        n += 1


def b_memmove(E, S, a):
    return memcpy(E, S, a[0], a[1], a[2])


def b_zero(E, S, a):
    return 0


def b_vp_sym(E, S, a):
    p = E.conc(S, a[0])
    n = E.conc(S, a[1])
    o, off = E.span(S, p, n, True, 'write')
    for i in range(n):
        o.cells[off + i] = E.fresh(S, 8)


def b_vp_word(E, S, a):
    p = E.conc(S, a[0])
    n = E.conc(S, a[1])
    v = E.fresh(S, 8 * n)
    E.store(S, p, n, v)


def b_u(w):
    def f(E, S, a):
        return E.fresh(S, w)
    return f


def b_choice(E, S, a):
    lo = E.conc(S, a[0])
    hi = E.conc(S, a[1])
    # one fresh input per call site execution; remembered across the re-execution
    key = ('choice', S.nin + 1)
    nm = 'in%d_%d' % (S.nin + 1, 32)
    t = tm.var(nm, 32)
    v = S.known.get(t)
    if v is not None:
        S.nin += 1
        S.inputs.append((nm, 32))
        return v
    if lo == hi:
        S.nin += 1
        S.inputs.append((nm, 32))
        E.assume(S, tm.eq(32, t, lo))
        if S.model is not None:
            m = dict(S.model)
            m[nm] = lo
            S.model, S.memo = m, {}
        return lo
    raise ChoiceFork(t, lo, hi)


class ChoiceFork(ForkOn):
    def __init__(self, t, lo, hi):
        self.t = ChoiceTerm(t, lo, hi)


class ChoiceTerm(object):
    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.w = 32
        self.op = 'choice'


_orig_enumerate = Engine.enumerate


def enumerate_(self, S, t):
    if type(t) is ChoiceTerm:
        out = []
        for v in range(t.lo, t.hi + 1):
            S2 = S if v == t.hi else S.fork()
            m = dict(S2.model) if S2.model is not None else None
            if m is not None:
                m[t.t.args[0]] = v
            self.assume(S2, tm.eq(32, t.t, v))
            S2.model, S2.memo = m, {}
            S2.known[t.t] = v
            out.append(S2)
        return out
    return _orig_enumerate(self, S, t)


Engine.enumerate = enumerate_


def b_assume(E, S, a):
    c = a[0]
    w = 32
    if type(c) is not int:
        c = tm.not_(1, tm.eq(c.w, c, 0))
    elif c:
        c = 1
    if type(c) is int:
        if not c:
            raise PathEnd()
        return
    if S.model is not None and E.evalm(S, c):
        E.assume(S, c)
        return
    r, env = E.sat(S, c)
    if r == 'unsat':
        raise PathEnd()
    E.assume(S, c, env)
    if r != 'sat':
        S.model = None


def b_check(E, S, a):
    c = a[0]
    if type(c) is not int:
        c = tm.not_(1, tm.eq(c.w, c, 0))
    else:
        c = 1 if c else 0
    E.prove(S, c, E.cstring(S, a[1]))


def b_check_eq(E, S, a):
    n = E.conc(S, a[2])
    x = E.bytes_at(S, E.conc(S, a[0]), n)
    y = E.bytes_at(S, E.conc(S, a[1]), n)
    msg = E.cstring(S, a[3])
    c = 1
    for u, v in zip(x, y):
        e = tm.eq(8, u, v)
        if type(e) is int and e == 0:
            c = 0
            break
        c = tm.and_(1, c, e)
    E.prove(S, c, msg)


def b_arg(E, S, a):
    i = E.conc(S, a[0])
    return E.args[i] & 0xFFFFFFFFFFFFFFFF


def b_uf(E, S, a):
    """vp_uf(name, in, inlen, out, outlen)"""
    nm = E.cstring(S, a[0])
    n = E.conc(S, a[2])
    m = E.conc(S, a[4])
    x = E.bytes_at(S, E.conc(S, a[1]), n)
    t = tm.N(tm.concat([(b, 8) for b in x]), 8 * n)
    inv = INVERSE.get(nm)
    r = tm.uf(nm, 8 * m, [t])
    o, off = E.span(S, E.conc(S, a[3]), m, True, 'write')
    for i in range(m):
        o.cells[off + i] = tm.extract(r, 8 * m, 8 * (m - 1 - i), 8)


def b_perm(E, S, a):
    """vp_perm(dir, key, keylen, in, out, n): arbitrary keyed permutation; dir 0/1 are mutual inverses"""
    d = E.conc(S, a[0])
    kl = E.conc(S, a[2])
    n = E.conc(S, a[5])
    kb = E.bytes_at(S, E.conc(S, a[1]), kl) if kl else []
    x = E.bytes_at(S, E.conc(S, a[3]), n)
    k = tm.N(tm.concat([(b, 8) for b in kb]), 8 * kl) if kl else tm.K(8, 0)
    t = tm.N(tm.concat([(b, 8) for b in x]), 8 * n)
    me, other = ('E%d' % n, 'D%d' % n) if d == 0 else ('D%d' % n, 'E%d' % n)
    if t.op == 'uf' and t.args[0] == other and t.args[1] is k:
        r = t.args[2]
    else:
        r = tm.uf(me, 8 * n, [k, t])
    o, off = E.span(S, E.conc(S, a[4]), n, True, 'write')
    for i in range(n):
        o.cells[off + i] = tm.extract(r, 8 * n, 8 * (n - 1 - i), 8)


INVERSE = {}


def b_fail_alloc(E, S, a):
    k = E.conc(S, a[0])
    S.fail_at = S.allocs + k if k else 0
    S.fails = S.fails + [k]


def b_live(E, S, a):
    return S.nlive


def b_allocs(E, S, a):
    return S.allocs


def b_reach(E, S, a):
    m = E.cstring(S, a[0])
    E.reached[m] = E.reached.get(m, 0) + 1


def b_abort(E, S, a):
    E.violate(S, 'abort', 'abort called in ' + ' < '.join(reversed(S.stack[-3:])))
    raise PathEnd()


def b_conc(E, S, a):
    """vp_conc(x): fork over all feasible values of x"""
    v = a[0]
    if type(v) is int:
        return v
    return E.conc(S, v)


def b_nomerge(E, S, a):
    """paths with different concrete sizes (64-bit words) are kept apart"""
    E.nomerge = bool(a[0])
    return 0


def b_stop(E, S, a):
    raise PathEnd()


def b_size(E, S, a):
    """bytes readable from the pointer"""
    p = E.conc(S, a[0])
    o = E.obj(S, p >> SH)
    if o is None or o.freed:
        return 0
    return o.size - ((p & 0xFFFFFFFFF) - BASE)


def b_puts(E, S, a):
    return 1


def b_abs(E, S, a):
    return tm.ite(32, tm.slt(32, a[0], 0), tm.sub(32, 0, a[0]), a[0])


def b_strcpyish(E, S, a):
    n = b_strlen(E, S, [a[1]])
    return memcpy(E, S, a[0], a[1], n + 1)


def b_toupper(E, S, a):
    c = a[0]
    islow = tm.and_(1, tm.not_(1, tm.slt(32, c, 97)), tm.slt(32, c, 123))
    return tm.ite(32, islow, tm.sub(32, c, 32), c)


def b_tolower(E, S, a):
    c = a[0]
    isup = tm.and_(1, tm.not_(1, tm.slt(32, c, 65)), tm.slt(32, c, 91))
    return tm.ite(32, isup, tm.add(32, c, 32), c)


def b_between(*rs):
    def f(E, S, a):
        c = a[0]
        r = 0
        for lo, hi in rs:
            r = tm.or_(1, r, tm.and_(1, tm.not_(1, tm.slt(32, c, lo)), tm.slt(32, c, hi + 1)))
        return tm.zext(r, 1, 32)
    return f


BUILTINS = {
    '@malloc': b_malloc, '@calloc': b_calloc, '@free': b_free, '@realloc': b_realloc,
    '@memcmp': b_memcmp, '@bcmp': b_memcmp, '@strlen': b_strlen,
    '@memcpy': lambda E, S, a: memcpy_nov(E, S, *a), '@memmove': b_memmove,
    '@memset': lambda E, S, a: memset(E, S, *a),
    '@printf': b_puts, '@fprintf': b_puts, '@puts': b_puts, '@putchar': b_puts, '@fputs': b_puts,
    '@fwrite': b_puts, '@fputc': b_puts,
    '@abort': b_abort, '@exit': b_stop, '@__assert_fail': b_abort, '@abs': b_abs,
    '@strcpy': b_strcpyish, '@toupper': b_toupper, '@tolower': b_tolower,
    '@isdigit': b_between((48, 57)), '@isalpha': b_between((65, 90), (97, 122)),
    '@isalnum': b_between((48, 57), (65, 90), (97, 122)),
    '@isxdigit': b_between((48, 57), (65, 70), (97, 102)), '@isupper': b_between((65, 90)),
    '@islower': b_between((97, 122)), '@isspace': b_between((9, 13), (32, 32)),
    '@explicit_bzero': lambda E, S, a: memset(E, S, a[0], 0, a[1]),
    '@vp_sym': b_vp_sym, '@vp_word': b_vp_word, '@vp_u8': b_u(8), '@vp_u16': b_u(16), '@vp_u32': b_u(32),
    '@vp_u64': b_u(64),
    '@vp_choice': b_choice, '@vp_assume': b_assume, '@vp_check': b_check, '@vp_check_eq': b_check_eq,
    '@vp_arg': b_arg, '@vp_uf': b_uf, '@vp_perm': b_perm, '@vp_fail_alloc': b_fail_alloc, '@vp_live': b_live,
    '@vp_allocs': b_allocs, '@vp_reach': b_reach, '@vp_conc': b_conc, '@vp_nomerge': b_nomerge, '@vp_size': b_size,
}


def llvm_intrinsic(nm):
    if nm.startswith('@llvm.memcpy'):
        return lambda E, S, a: memcpy_nov(E, S, *a)
    if nm.startswith('@llvm.memmove'):
        return lambda E, S, a: memcpy(E, S, *a)
    if nm.startswith('@llvm.memset'):
        return lambda E, S, a: memset(E, S, *a)
    if nm.startswith('@llvm.va_end') or nm.startswith('@llvm.lifetime') or nm.startswith('@llvm.dbg') or \
            nm.startswith('@llvm.stack') or nm.startswith('@llvm.assume') or nm.startswith('@llvm.donothing'):
        return lambda E, S, a: 0
    if nm.startswith('@llvm.va_copy'):
        return lambda E, S, a: memcpy(E, S, a[0], a[1], 24)
    if nm.startswith('@llvm.expect'):
        return lambda E, S, a: a[0]
    try:
        w = int(nm.rsplit('.i', 1)[1])
    except (IndexError, ValueError):
        return None
    if nm.startswith('@llvm.umax'):
        return lambda E, S, a: tm.ite(w, tm.ult(w, a[0], a[1]), a[1], a[0])
    if nm.startswith('@llvm.umin'):
        return lambda E, S, a: tm.ite(w, tm.ult(w, a[0], a[1]), a[0], a[1])
    if nm.startswith('@llvm.smax'):
        return lambda E, S, a: tm.ite(w, tm.slt(w, a[0], a[1]), a[1], a[0])
    if nm.startswith('@llvm.smin'):
        return lambda E, S, a: tm.ite(w, tm.slt(w, a[0], a[1]), a[0], a[1])
    if nm.startswith('@llvm.abs'):
        return lambda E, S, a: tm.ite(w, tm.slt(w, a[0], 0), tm.sub(w, 0, a[0]), a[0])
    if nm.startswith('@llvm.bswap'):
        return lambda E, S, a: tm.concat([(tm.extract(a[0], w, 8 * i, 8), 8) for i in range(w // 8)])
    if nm.startswith('@llvm.fshl'):
        def fshl(E, S, a):
            k = E.conc(S, a[2]) % w
            return tm.or_(w, tm.shl(w, a[0], k), tm.lshr(w, a[1], w - k)) if k else a[0]
        return fshl
    if nm.startswith('@llvm.fshr'):
        def fshr(E, S, a):
            k = E.conc(S, a[2]) % w
            return tm.or_(w, tm.shl(w, a[0], w - k), tm.lshr(w, a[1], k)) if k else a[1]
        return fshr
    if nm.startswith('@llvm.ctpop'):
        def ctpop(E, S, a):
            r = 0
            for i in range(w):
                r = tm.add(w, r, tm.zext(tm.extract(a[0], w, i, 1), 1, w))
            return r
        return ctpop
    if nm.startswith('@llvm.ctlz'):
        def ctlz(E, S, a):
            r = w
            for i in range(w):
                r = tm.ite(w, tm.extract(a[0], w, i, 1), w - 1 - i, r)
            return r
        return ctlz
    if nm.startswith('@llvm.cttz'):
        def cttz(E, S, a):
            r = w
            for i in reversed(range(w)):
                r = tm.ite(w, tm.extract(a[0], w, i, 1), i, r)
            return r
        return cttz
    if '.with.overflow' in nm:
        def wo(E, S, a):
            x, y = a
            if 'uadd' in nm:
                r = tm.add(w, x, y)
                return (r, tm.ult(w, r, x))
            if 'usub' in nm:
                return (tm.sub(w, x, y), tm.ult(w, x, y))
            if 'umul' in nm:
                p = tm.mul(2 * w, tm.zext(x, w, 2 * w), tm.zext(y, w, 2 * w))
                return (tm.extract(p, 2 * w, 0, w), tm.not_(1, tm.eq(w, tm.extract(p, 2 * w, w, w), 0)))
            ex = {'sadd': tm.add, 'ssub': tm.sub, 'smul': tm.mul}[nm.split('.')[1]]
            p = ex(2 * w, tm.sext(x, w, 2 * w), tm.sext(y, w, 2 * w))
            r = tm.extract(p, 2 * w, 0, w)
            return (r, tm.not_(1, tm.eq(2 * w, p, tm.sext(r, w, 2 * w))))
        return wo
    return None
