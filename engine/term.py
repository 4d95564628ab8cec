"""Hash-consed bit-vector terms with normalising constructors.

A value is either a Python int (concrete) or a T node (symbolic).  Every
constructor takes and returns such values; const nodes ('K') only occur as
arguments inside other nodes.
"""
import z3

_tab = {}
_cnt = [0]


class T(object):
    __slots__ = ('op', 'w', 'args', 'id', 'z', 'umx', 'vset', 'dep')

    def __repr__(self):
        return show(self, 6)


def show(t, d=6):
    if type(t) is int:
        return hex(t)
    if t.op == 'K':
        return '%d:%x' % (t.w, t.args[0])
    if t.op == 'var':
        return t.args[0]
    if d == 0:
        return '...'
    if t.op == 'tab':
        return '(tab#%d:%d %s)' % (t.args[0].n, t.w, show(t.args[1], d - 1))
    return '(%s:%d %s)' % (t.op, t.w, ' '.join(
        show(a, d - 1) if isinstance(a, T) else str(a) for a in t.args))


def mk(op, w, args):
    key = (op, w, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.args = args
        _cnt[0] += 1
        t.id = _cnt[0]
        t.z = None
        t.umx = None
        t.vset = False
        t.dep = None
        _tab[key] = t
    return t


def K(w, v):
    return mk('K', w, (v,))


def N(v, w):
    """as node"""
    return mk('K', w, (v,)) if type(v) is int else v


def V(t):
    """node to value"""
    return t.args[0] if t.op == 'K' else t


def var(name, w):
    return mk('var', w, (name,))


def is_sym(v):
    return type(v) is not int


# ------------------------------------------------------------------ ranges
def umax(v, w=None):
    if type(v) is int:
        return v
    u = v.umx
    if u is not None:
        return u[1]
    _range(v)
    return v.umx[1]


def umin(v, w=None):
    if type(v) is int:
        return v
    if v.umx is None:
        _range(v)
    return v.umx[0]


def _range(t):
    op = t.op
    M = (1 << t.w) - 1
    lo, hi = 0, M
    if op == 'K':
        lo = hi = t.args[0]
    elif op == 'concat':
        lo = hi = 0
        for p in t.args:
            lo = (lo << p.w) | umin(p)
            hi = (hi << p.w) | umax(p)
    elif op == 'ite':
        lo = min(umin(t.args[1]), umin(t.args[2]))
        hi = max(umax(t.args[1]), umax(t.args[2]))
    elif op == 'and':
        hi = min(umax(a) for a in t.args)
    elif op == 'or':
        hi = 0
        for a in t.args:
            hi |= (1 << umax(a).bit_length()) - 1
            lo = max(lo, umin(a))
    elif op == 'tab':
        tb = t.args[0].v
        lo, hi = min(tb), max(tb)
    elif op == 'xor':
        if len(t.args) == 2 and t.args[1].op == 'tab':
            tb = [e ^ t.args[0] for e in t.args[1].args[0].v]
            lo, hi = min(tb), max(tb)
        else:
            hi = t.args[0]
            for a in t.args[1:]:
                hi |= (1 << umax(a).bit_length()) - 1
    elif op == 'add':
        l2 = h2 = t.args[0]
        a = t.args
        for i in range(1, len(a), 2):
            l2 += umin(a[i]) * a[i + 1]
            h2 += umax(a[i]) * a[i + 1]
        if h2 <= M:
            lo, hi = l2, h2
    elif op == 'mul':
        l2 = h2 = 1
        for a in t.args:
            l2 *= umin(a)
            h2 *= umax(a)
        if h2 <= M:
            lo, hi = l2, h2
    elif op == 'urem':
        hi = umax(t.args[0])
        m = umax(t.args[1])
        if umin(t.args[1]) > 0:
            hi = min(hi, m - 1)
    elif op == 'udiv':
        m = umin(t.args[1])
        if m > 0:
            hi = umax(t.args[0]) // m
            lo = umin(t.args[0]) // umax(t.args[1])
    elif op == 'lshr':
        hi = umax(t.args[0])
    elif op == 'extract' and t.args[1] > 0:
        hi = min(M, umax(t.args[0]) >> t.args[1])
    t.umx = (lo, hi)


def values(v, limit=48):
    """frozenset of constant leaves when v is a small tree of constants"""
    if type(v) is int:
        return frozenset((v,))
    s = v.vset
    if s is not False:
        return s
    r = None
    op = v.op
    if op == 'K':
        r = frozenset(v.args)
    elif op == 'ite':
        a = values(v.args[1])
        if a is not None:
            b = values(v.args[2])
            if b is not None:
                r = a | b
    elif op == 'concat':
        r = frozenset((0,))
        for p in v.args:
            a = values(p)
            if a is None:
                r = None
                break
            r = frozenset((x << p.w) | y for x in r for y in a)
            if len(r) > limit:
                r = None
                break
    elif op == 'add':
        M = (1 << v.w) - 1
        r = frozenset((v.args[0],))
        for i in range(1, len(v.args), 2):
            a = values(v.args[i])
            if a is None:
                r = None
                break
            c = v.args[i + 1]
            r = frozenset((x + c * y) & M for x in r for y in a)
            if len(r) > limit:
                r = None
                break
    elif v.w == 1 and op in ('eq', 'ult', 'slt', 'and', 'or', 'xor', 'var'):
        r = None
    if r is not None and len(r) > limit:
        r = None
    v.vset = r
    return r


# ------------------------------------------------------------------ slicing
_xc = {}


def extract(x, xw, lo, n):
    if type(x) is int:
        return (x >> lo) & ((1 << n) - 1)
    if n == xw:
        return x
    if x.op == 'var':
        return mk('extract', n, (x, lo))
    key = (x, lo, n)
    r = _xc.get(key)
    if r is None:
        r = _xc[key] = _extract(x, xw, lo, n)
    return r


def _shallow(t, n):
    """does truncating t to n bits drop constants only, or whole pieces of a word multiple"""
    if t.op == 'concat':
        pos = 0
        word = n % 32 == 0
        for p in reversed(t.args):
            pos += p.w
            if pos > n and not word:
                if p.op != 'K' and p.op != 'sext':
                    return False
            elif pos == n and word:
                return True
            elif pos > n:
                return p.op == 'K' or p.op == 'var'
        return True
    if t.op in ('add', 'mul') and len(t.args) <= 9:
        return all(type(x) is int or (x.op not in ('add', 'mul') and _shallow(x, n)) or
                   (x.op == 'mul' and t.op == 'add' and _shallow(x, n)) for x in t.args)
    if t.op == 'srem':
        return _lowrem(t, n)
    return t.op in ('K', 'sext') or t.w == n


def _lowrem(t, n):
    m = t.args[1]
    return m.op == 'K' and m.args[0] and m.args[0] & (m.args[0] - 1) == 0 and n <= m.args[0].bit_length() - 1


def _extract(x, xw, lo, n):
    op = x.op
    if op == 'K':
        return (x.args[0] >> lo) & ((1 << n) - 1)
    if op == 'concat':
        out = []
        pos = 0
        hi = lo + n
        for p in reversed(x.args):
            e = pos + p.w
            if e > lo and pos < hi:
                a = max(lo, pos)
                b = min(hi, e)
                if a == pos and b == e:
                    out.append((V(p), p.w))
                else:
                    out.append((extract(V(p), p.w, a - pos, b - a), b - a))
            pos = e
            if pos >= hi:
                break
        out.reverse()
        return concat(out)
    if op == 'extract':
        return extract(x.args[0], x.args[0].w, x.args[1] + lo, n)
    if op == 'xor':
        r = (x.args[0] >> lo) & ((1 << n) - 1)
        for a in x.args[1:]:
            r = xor(n, r, extract(a, xw, lo, n))
        return r
    if op == 'and':
        r = (1 << n) - 1
        for a in x.args:
            r = and_(n, r, extract(a, xw, lo, n))
        return r
    if op == 'or':
        r = 0
        for a in x.args:
            r = or_(n, r, extract(a, xw, lo, n))
        return r
    if op == 'ite':
        return ite(n, x.args[0], extract(V(x.args[1]), xw, lo, n),
                   extract(V(x.args[2]), xw, lo, n))
    if op == 'tab':
        m = (1 << n) - 1
        return tab([(e >> lo) & m for e in x.args[0].v], x.args[1], n)
    if lo == 0:
        if op == 'add' and all(_shallow(t, n) for t in x.args[1::2]):
            m = (1 << n) - 1
            a = x.args
            c = {}
            k = a[0] & m
            for i in range(1, len(a), 2):
                k = lin_add(n, c, k, extract(V(a[i]), xw, 0, n), a[i + 1] & m)
            return lin_mk(n, k, c)
        if op == 'mul' and all(_shallow(t, n) for t in x.args):
            r = 1
            for a in x.args:
                r = mul(n, r, extract(V(a), xw, 0, n))
            return r
    if op == 'srem' and _lowrem(x, lo + n):
        return extract(V(x.args[0]), xw, lo, n)
    if op == 'sext':
        iw = x.args[0].w
        if lo + n <= iw:
            return extract(x.args[0], iw, lo, n)
        if lo == 0:
            return sext(x.args[0], iw, n)
        if lo >= iw:
            return sext(extract(x.args[0], iw, iw - 1, 1), 1, n)
    return mk('extract', n, (x, lo))


def concat(parts):
    """parts: list of (value,width), most significant first"""
    out = []  # reversed later; build lsb first list of nodes
    for v, w in reversed(parts):
        if w == 0:
            continue
        if type(v) is not int and v.op == 'concat':
            sub = v.args
        else:
            sub = (N(v, w),)
        for p in reversed(sub):
            if out:
                q = out[-1]
                if p.op == 'K' and q.op == 'K':
                    out[-1] = K(p.w + q.w, (p.args[0] << q.w) | q.args[0])
                    continue
                # merge adjacent slices
                if p.op == 'extract':
                    if q.op == 'extract' and q.args[0] is p.args[0] and \
                            q.args[1] + q.w == p.args[1]:
                        x = q.args[0]
                        r = extract(x, x.w, q.args[1], q.w + p.w)
                        if r.op != 'concat':
                            out[-1] = r
                            continue
                    elif q is not p and p.args[1] == q.w and \
                            _lowpart(p.args[0], q):
                        x = p.args[0]
                        r = extract(x, x.w, 0, q.w + p.w)
                        if type(r) is not int and r.op != 'concat':
                            out[-1] = r
                            continue
                m = _merge_piece(p, q)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(p)
    if len(out) == 1:
        return V(out[0])
    out.reverse()
    w = 0
    for p in out:
        w += p.w
    return mk('concat', w, tuple(out))


def _lowpart(x, q):
    """is q == extract(x,0,q.w) in normal form"""
    if x.op in ('add', 'mul', 'sext'):
        return extract(x, x.w, 0, q.w) is q
    return False


def _merge_piece(p, q):
    """merge hi piece p with lo piece q if both slices of one bitwise node"""
    px = p.op == 'xor' and len(p.args) == 2
    qx = q.op == 'xor' and len(q.args) == 2
    if px or qx:
        # complemented bits of adjacent slices of one node
        a = p.args[1] if px else p
        b = q.args[1] if qx else q
        if a.op != 'extract':
            return None
        x = a.args[0]
        if b.op == 'extract':
            if b.args[0] is not x or b.args[1] + b.w != a.args[1]:
                return None
            lo = b.args[1]
        elif a.args[1] == b.w and a is not b and _lowpart(x, b):
            lo = 0
        else:
            return None
        w = p.w + q.w
        r = extract(x, x.w, lo, w)
        if type(r) is int or r.op in ('concat', 'xor'):
            return None
        k = ((p.args[0] if px else 0) << q.w) | (q.args[0] if qx else 0)
        return mk('xor', w, (k, r))
    if p.op != q.op:
        return None
    if p.op == 'sext':
        return None
    if p.op == 'ite' and p.args[0] is q.args[0]:
        if (p, q) in _mpc:
            return _mpc[(p, q)]
        r = _mpc[(p, q)] = _merge_ite(p, q)
        return r
    return None


_mpc = {}


def _merge_ite(p, q):
    if True:
        a = concat([(V(p.args[1]), p.w), (V(q.args[1]), q.w)])
        b = concat([(V(p.args[2]), p.w), (V(q.args[2]), q.w)])
        w = p.w + q.w
        if type(a) is int and type(b) is int:
            # a constant pair only merges when ite() would not split it again
            if w > 8 and max(a, b).bit_length() < w:
                return None
        elif (type(a) is not int and a.op == 'concat') or \
                (type(b) is not int and b.op == 'concat'):
            return None
        if a is b:
            return N(a, w)
        return mk('ite', w, (p.args[0], N(a, w), N(b, w)))


def zext(v, w1, w2):
    if type(v) is int or w1 == w2:
        return v
    return concat([(0, w2 - w1), (v, w1)])


def sext(v, w1, w2):
    if type(v) is int:
        if v >> (w1 - 1):
            return v | (((1 << (w2 - w1)) - 1) << w1)
        return v
    if w1 == w2:
        return v
    if v.op == 'concat' and v.args[0].op == 'K':
        k = v.args[0]
        if k.args[0] >> (k.w - 1):
            return concat([((1 << (w2 - w1)) - 1, w2 - w1), (v, w1)])
        return concat([(0, w2 - w1), (v, w1)])
    if umax(v) < (1 << (w1 - 1)):
        return concat([(0, w2 - w1), (v, w1)])
    if v.op == 'sext':
        return sext(v.args[0], v.args[0].w, w2)
    if v.op == 'ite' and (values(v) is not None):
        return ite(w2, v.args[0], sext(V(v.args[1]), w1, w2),
                   sext(V(v.args[2]), w1, w2))
    return mk('sext', w2, (v,))


# ------------------------------------------------------------------ linear
def lin_add(w, c, k, v, f):
    """add f*v to (c,k); returns new k"""
    M = (1 << w) - 1
    if type(v) is int:
        return (k + f * v) & M
    if v.op == 'add':
        a = v.args
        k = (k + f * a[0]) & M
        for i in range(1, len(a), 2):
            x = a[i]
            n = (c.get(x, 0) + f * a[i + 1]) & M
            if n:
                c[x] = n
            else:
                c.pop(x, None)
        return k
    if v.op == 'ite' and v.args[1].op == 'K' and v.args[2].op == 'K':
        x = v.args[2].args[0]
        k = (k + f * x) & M
        f = (f * (v.args[1].args[0] - x)) & M
        v = zext(v.args[0], 1, w)
    elif v.op == 'sext' and v.args[0].w == 1:
        f = -f & M
        v = zext(v.args[0], 1, w)
    elif v.op == 'concat' and v.args[0].op == 'K' and v.args[0].args[0]:
        n = w - v.args[0].w
        k = (k + f * (v.args[0].args[0] << n)) & M
        return lin_add(w, c, k, concat([(0, w - n)] + [(V(p), p.w) for p in v.args[1:]]), f)
    if v.op == 'concat':
        low = v.args[-1]
        if low.op == 'K':
            # x:l  ->  2^n * x + l, x right aligned
            s = low.w
            k = (k + f * low.args[0]) & M
            f = (f << s) & M
            if f == 0:
                return k
            hi = concat([(V(p), p.w) for p in v.args[:-1]])
            if hi.op == 'extract' and hi.args[1] == 0 and hi.args[0].w == w:
                v = hi.args[0]
            elif hi.op == 'add':
                x = hi.args
                k = (k + f * x[0]) & M
                for i in range(1, len(x), 2):
                    k = lin_add(w, c, k, zext(x[i], w - s, w), (f * x[i + 1]) & M)
                return k
            elif hi.op == 'K':
                return (k + f * hi.args[0]) & M
            else:
                v = zext(hi, w - s, w)
            if v.op == 'add':
                return lin_add(w, c, k, v, f)
    n = (c.get(v, 0) + f) & M
    if n:
        c[v] = n
    else:
        c.pop(v, None)
    return k


def _byid(x):
    return x.id


def lin_mk(w, k, c):
    if not c:
        return k
    if w == 1:
        for x, f in c.items():
            if f & 1:
                k = xor(1, k, x)
        return k
    if k == 0 and len(c) == 1:
        for x, f in c.items():
            if f == 1:
                return x
            if f & (f - 1) == 0:
                s = f.bit_length() - 1
                return concat([(extract(x, w, 0, w - s), w - s), (0, s)])
    if len(c) == 1:
        for x, f in c.items():
            if x.op == 'concat' and len(x.args) == 2 and x.args[1].w == 1 and x.args[0].op == 'K' and x.args[0].args[0] == 0:
                y = (k + f) & ((1 << w) - 1)
                if k == 0 and y == (1 << w) - 1:
                    return sext(x.args[1], 1, w)
                if y == 0 and k == (1 << w) - 1:
                    return sext(not_(1, x.args[1]), 1, w)
                return ite(w, x.args[1], y, k)
    m = w
    for x, f in c.items():
        if f & 1 or x.op != 'concat' or x.args[0].op != 'K':
            m = 0
            break
        z = x.args[0].w - x.args[0].args[0].bit_length()
        m = min(m, z, (f & -f).bit_length() - 1)
        if m == 0:
            break
    if m:
        # the low m bits are constant
        c2 = {}
        for x, f in c.items():
            c2[extract(x, w, 0, w - m)] = f >> m
        return concat([(lin_mk(w - m, k >> m, c2), w - m), (k & ((1 << m) - 1), m)])
    a = [k]
    for x in sorted(c, key=_byid):
        a.append(x)
        a.append(c[x])
    return mk('add', w, tuple(a))


def add(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & ((1 << w) - 1)
        if a == 0:
            return b
    elif type(b) is int and b == 0:
        return a
    ta = type(a) is not int
    tb = type(b) is not int
    if ta and a.op == 'ite' and type(b) is int and values(a) is not None:
        return ite(w, a.args[0], add(w, V(a.args[1]), b), add(w, V(a.args[2]), b))
    if tb and b.op == 'ite' and type(a) is int and values(b) is not None:
        return ite(w, b.args[0], add(w, V(b.args[1]), a), add(w, V(b.args[2]), a))
    if w == 1:
        return xor(1, a, b)
    if (ta and a.op == 'concat') or (tb and b.op == 'concat'):
        za = nzmask(a)
        zb = nzmask(b)
        if za & zb == 0:
            return or_(w, a, b)
    c = {}
    k = lin_add(w, c, 0, a, 1)
    k = lin_add(w, c, k, b, 1)
    return lin_mk(w, k, c)


def nzmask(v):
    """mask of bits possibly non zero"""
    if type(v) is int:
        return v
    if v.op == 'concat':
        m = 0
        for p in v.args:
            m = (m << p.w) | nzmask(V(p))
        return m
    return (1 << v.w) - 1


def sub(w, a, b):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if type(b) is int:
        return add(w, a, (-b) & ((1 << w) - 1))
    if w == 1:
        return xor(1, a, b)
    if b.op == 'ite' and type(a) is int and values(b) is not None:
        return ite(w, b.args[0], sub(w, a, V(b.args[1])), sub(w, a, V(b.args[2])))
    c = {}
    k = lin_add(w, c, 0, a, 1)
    k = lin_add(w, c, k, b, (1 << w) - 1)
    return lin_mk(w, k, c)


def mul(w, a, b):
    M = (1 << w) - 1
    if type(a) is int:
        if type(b) is int:
            return (a * b) & M
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'ite' and values(a) is not None:
            return ite(w, a.args[0], mul(w, V(a.args[1]), b), mul(w, V(a.args[2]), b))
        c = {}
        k = lin_add(w, c, 0, a, b)
        return lin_mk(w, k, c)
    if w == 1:
        return and_(1, a, b)
    fs = []
    for x in (a, b):
        if x.op == 'mul':
            fs.extend(x.args)
        else:
            fs.append(x)
    fs.sort(key=_byid)
    return mk('mul', w, tuple(fs))


# ------------------------------------------------------------------ bitwise
def _bounds(v, w, s):
    if type(v) is not int and v.op == 'concat':
        pos = 0
        for p in reversed(v.args):
            s.add(pos)
            pos += p.w


def _split(w, a, b, f):
    s = {0}
    _bounds(a, w, s)
    _bounds(b, w, s)
    s = sorted(s)
    s.append(w)
    out = []
    for i in range(len(s) - 1):
        lo = s[i]
        n = s[i + 1] - lo
        out.append((f(n, extract(a, w, lo, n), extract(b, w, lo, n)), n))
    out.reverse()
    return concat(out)


def _runs(m, w):
    """list (lo,n,bit) of runs of mask, low first"""
    out = []
    pos = 0
    while pos < w:
        bit = (m >> pos) & 1
        e = pos
        while e < w and ((m >> e) & 1) == bit:
            e += 1
        out.append((pos, e - pos, bit))
        pos = e
    return out


def _dat(x):
    """single bit cut out of data words (as opposed to a condition)"""
    d = x.dep
    if d is None:
        if x.op == 'extract' or x.op == 'tab':
            d = True
        elif x.op == 'and':
            d = all(_dat(y) for y in x.args)
        elif x.op == 'xor':
            d = all(_dat(y) for y in x.args[1:])
        else:
            d = False
        x.dep = d
    return d


def and_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    M = (1 << w) - 1
    if type(b) is int:
        if b == 0:
            return 0
        if b == M:
            return a
        out = [((extract(a, w, lo, n) if bit else 0), n)
               for lo, n, bit in _runs(b, w)]
        out.reverse()
        return concat(out)
    if a is b:
        return a
    if a.op == 'concat' or b.op == 'concat':
        return _split(w, a, b, and_)
    if (a.op == 'xor' or b.op == 'xor') and (w > 1 or (_dat(a) and _dat(b))):
        # distribute over small exclusive ors (algebraic normal form)
        na = len(a.args) if a.op == 'xor' else 1
        nb = len(b.args) if b.op == 'xor' else 1
        if na * nb <= 12:
            r = 0
            for x in (a.args if a.op == 'xor' else (a,)):
                for y in (b.args if b.op == 'xor' else (b,)):
                    r = xor(w, r, and_(w, x, y))
            return r
    s = set()
    for x in (a, b):
        if x.op == 'and':
            s.update(x.args)
        else:
            s.add(x)
    for x in s:
        if x.op == 'xor' and len(x.args) == 2 and x.args[0] == M and x.args[1] in s:
            return 0
    if w == 1:
        # absorption with or
        for x in list(s):
            if x.op == 'or' and any(y in s for y in x.args):
                s.discard(x)
        for x in s:
            if x.op == 'xor' and len(x.args) == 2 and x.args[0] == 1:
                n = x.args[1]
                if n.op == 'and' and all(y in s for y in n.args):
                    return 0
    if len(s) == 1:
        return s.pop()
    return mk('and', w, tuple(sorted(s, key=_byid)))


def or_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    M = (1 << w) - 1
    if type(b) is int:
        if b == 0:
            return a
        if b == M:
            return M
        out = [((((1 << n) - 1) if bit else extract(a, w, lo, n)), n)
               for lo, n, bit in _runs(b, w)]
        out.reverse()
        return concat(out)
    if a is b:
        return a
    if a.op == 'concat' or b.op == 'concat':
        return _split(w, a, b, or_)
    if a.op != 'or' and b.op != 'or' and (w > 1 or (_dat(a) and _dat(b))):
        return xor(w, xor(w, a, b), and_(w, a, b))
    s = set()
    for x in (a, b):
        if x.op == 'or':
            s.update(x.args)
        else:
            s.add(x)
    for x in s:
        if x.op == 'xor' and len(x.args) == 2 and x.args[0] == M and x.args[1] in s:
            return M
    if w == 1:
        for x in list(s):
            if x.op == 'and' and any(y in s for y in x.args):
                s.discard(x)
    if len(s) == 1:
        return s.pop()
    return mk('or', w, tuple(sorted(s, key=_byid)))


def not_(w, a):
    return xor(w, a, (1 << w) - 1)


_xorc = {}


def xor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
    elif a is b:
        return 0
    if a.op == 'concat' or (type(b) is not int and b.op == 'concat'):
        if type(b) is not int:
            key = (a, b) if a.id < b.id else (b, a)
            r = _xorc.get(key)
            if r is None:
                r = _xorc[key] = _split(w, a, b, xor)
            return r
        return _split(w, a, b, xor)
    if w == 1 and type(b) is int and a.op == 'ite':
        pass
    k = 0
    s = set()
    for x in (a, b):
        if type(x) is int:
            k ^= x
        elif x.op == 'xor':
            k ^= x.args[0]
            s.symmetric_difference_update(x.args[1:])
        else:
            s.symmetric_difference_update((x,))
    tabs = None
    for x in s:
        if x.op == 'tab':
            if tabs is None:
                tabs = {}
            tabs.setdefault(x.args[1], []).append(x)
    if tabs:
        for idx, l in tabs.items():
            if len(l) > 1:
                for x in l:
                    s.discard(x)
                tb = [0] * len(l[0].args[0].v)
                for x in l:
                    tb = [p ^ q for p, q in zip(tb, x.args[0].v)]
                r = tab(tb, idx, w)
                if type(r) is int:
                    k ^= r
                elif r.op == 'xor':
                    k ^= r.args[0]
                    s.symmetric_difference_update(r.args[1:])
                else:
                    s.symmetric_difference_update((r,))
    if not s:
        return k
    if len(s) == 1:
        x = next(iter(s))
        if k == 0:
            return x
        if w == 1:
            # push negation into and/or? keep xor(1,x)
            pass
    return mk('xor', w, (k,) + tuple(sorted(s, key=_byid)))


# ------------------------------------------------------------------ shifts
def shl(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & ((1 << w) - 1)
        if b == 0:
            return a
        return concat([(extract(a, w, 0, w - b), w - b), (0, b)])
    vs = values(b)
    if vs is not None:
        return _vsplit(w, b, vs, lambda k: shl(w, a, k))
    return mk('shl', w, (N(a, w), b))


def lshr(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return concat([(0, b), (extract(a, w, b, w - b), w - b)])
    vs = values(b)
    if vs is not None:
        return _vsplit(w, b, vs, lambda k: lshr(w, a, k))
    return mk('lshr', w, (N(a, w), b))


def ashr(w, a, b):
    if type(b) is int:
        if b >= w:
            b = w - 1
        if type(a) is int:
            if a >> (w - 1):
                a -= 1 << w
            return (a >> b) & ((1 << w) - 1)
        if b == 0:
            return a
        return sext(extract(a, w, b, w - b), w - b, w)
    vs = values(b)
    if vs is not None:
        return _vsplit(w, b, vs, lambda k: ashr(w, a, k))
    return mk('ashr', w, (N(a, w), b))


def _vsplit(w, b, vs, f):
    vs = sorted(vs)
    r = f(vs[-1])
    for k in vs[:-1]:
        r = ite(w, eq(b.w, b, k), f(k), r)
    return r


def _signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def udiv(w, a, b):
    if type(b) is int:
        if b == 1:
            return a
        if type(a) is int and b:
            return a // b
        if b and b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
    if umax(a) < umin(b):
        return 0
    n = max(umax(a), umax(b)).bit_length()
    if n < w:
        q = udiv(n, extract(a, w, 0, n), extract(b, w, 0, n))
        return zext(q, n, w)
    return mk('udiv', w, (N(a, w), N(b, w)))


def urem(w, a, b):
    if type(b) is int:
        if b == 1:
            return 0
        if type(a) is int and b:
            return a % b
        if b and b & (b - 1) == 0:
            return and_(w, a, b - 1)
    if umax(a) < umin(b):
        return a
    n = max(umax(a), umax(b)).bit_length()
    if n < w:
        q = urem(n, extract(a, w, 0, n), extract(b, w, 0, n))
        return zext(q, n, w)
    return mk('urem', w, (N(a, w), N(b, w)))


def sdiv(w, a, b):
    M = (1 << w) - 1
    H = 1 << (w - 1)
    if type(a) is int and type(b) is int:
        x, y = _signed(a, w), _signed(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M
    if umax(a) < H and umax(b) < H:
        return udiv(w, a, b)
    return mk('sdiv', w, (N(a, w), N(b, w)))


def srem(w, a, b):
    M = (1 << w) - 1
    H = 1 << (w - 1)
    if type(a) is int and type(b) is int:
        x, y = _signed(a, w), _signed(b, w)
        q = abs(x) % abs(y)
        return (-q if x < 0 else q) & M
    if umax(a) < H and umax(b) < H:
        return urem(w, a, b)
    return mk('srem', w, (N(a, w), N(b, w)))


# ------------------------------------------------------------------ compare
def eq(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if type(b) is int:
        if b < umin(a) or b > umax(a):
            return 0
        if w == 1:
            return a if b else not_(1, a)
        op = a.op
        if op == 'concat':
            r = 1
            pos = 0
            for p in reversed(a.args):
                e = eq(p.w, V(p), (b >> pos) & ((1 << p.w) - 1))
                pos += p.w
                if type(e) is int:
                    if e == 0:
                        return 0
                    continue
                r = and_(1, r, e)
            return r
        if op == 'ite':
            x = V(a.args[1])
            y = V(a.args[2])
            if type(x) is int or type(y) is int or values(a) is not None:
                return ite(1, a.args[0], eq(w, x, b), eq(w, y, b))
        if op == 'add':
            if len(a.args) == 3 and a.args[2] == 1:
                return eq(w, a.args[1], (b - a.args[0]) & ((1 << w) - 1))
            if len(a.args) == 3 and a.args[2] == (1 << w) - 1:
                return eq(w, a.args[1], (a.args[0] - b) & ((1 << w) - 1))
            if a.args[0]:
                c = {}
                k = lin_add(w, c, 0, a, 1)
                return eq(w, lin_mk(w, 0, c), (b - k) & ((1 << w) - 1))
        if op == 'xor':
            if a.args[0]:
                r = 0
                for x in a.args[1:]:
                    r = xor(w, r, x)
                return eq(w, r, b ^ a.args[0])
            if len(a.args) == 3 and b == 0:
                return eq(w, a.args[1], a.args[2])
        if op == 'tab' and a.args[1].w <= 10:
            tb = a.args[0].v
            hits = [i for i, e in enumerate(tb) if e == b]
            if not hits:
                return 0
            if len(hits) == 1:
                return eq(a.args[1].w, a.args[1], hits[0])
            if len(hits) == len(tb):
                return 1
        if op == 'sext':
            iw = a.args[0].w
            lowv = b & ((1 << iw) - 1)
            if sext(lowv, iw, w) != b:
                return 0
            return eq(iw, a.args[0], lowv)
        return mk('eq', 1, (a, K(w, b)))
    if umax(a) < umin(b) or umax(b) < umin(a):
        return 0
    if w == 1:
        return xor(1, xor(1, a, b), 1)
    if a.op == 'concat' or b.op == 'concat':
        # common split points
        s = {0}
        t = {0}
        _bounds(a, w, s)
        _bounds(b, w, t)
        if a.op == 'concat' and b.op == 'concat':
            cm = sorted(s & t)
        else:
            # split off constant pieces only
            x = a if a.op == 'concat' else b
            cm = {0}
            pos = 0
            for p in reversed(x.args):
                if p.op == 'K':
                    cm.add(pos)
                    cm.add(pos + p.w)
                pos += p.w
            cm.discard(w)
            cm = sorted(cm)
        if len(cm) > 1:
            cm.append(w)
            r = 1
            for i in range(len(cm) - 1):
                n = cm[i + 1] - cm[i]
                e = eq(n, extract(a, w, cm[i], n), extract(b, w, cm[i], n))
                if type(e) is int:
                    if e == 0:
                        return 0
                    continue
                r = and_(1, r, e)
            return r
    if a.op == 'add' or b.op == 'add':
        c = {}
        k = lin_add(w, c, 0, a, 1)
        k = lin_add(w, c, k, b, (1 << w) - 1)
        if not c:
            return 1 if k == 0 else 0
        if len(c) == 1:
            return eq(w, lin_mk(w, 0, c), (-k) & ((1 << w) - 1))
    if a.op == 'xor' or b.op == 'xor':
        r = xor(w, a, b)
        if type(r) is int:
            return 1 if r == 0 else 0
        if r.op != 'xor':
            return eq(w, r, 0)
        if r.op == 'xor' and len(r.args) == 3 and r.args[0] == 0:
            a, b = r.args[1], r.args[2]
            if a.op == 'xor' or b.op == 'xor':
                return mk('eq', 1, (a, b) if a.id < b.id else (b, a))
        elif r.op == 'xor' and len(r.args) == 2:
            return eq(w, r.args[1], r.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 1, (a, b))


def ult(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if umax(a) < umin(b):
        return 1
    if umin(a) >= umax(b):
        return 0
    n = max(umax(a), umax(b)).bit_length()
    if n < w:
        return ult(n, extract(a, w, 0, n), extract(b, w, 0, n))
    if w == 1:
        return and_(1, not_(1, a), b)
    if type(b) is int:
        if b == 1:
            return eq(w, a, 0)
        if b == (1 << w) - 1:
            return not_(1, eq(w, a, b))
        if a.op == 'ite':
            x, y = V(a.args[1]), V(a.args[2])
            if type(x) is int or type(y) is int or values(a) is not None:
                return ite(1, a.args[0], ult(w, x, b), ult(w, y, b))
        if b & (b - 1) == 0:
            s = b.bit_length() - 1
            return eq(w - s, extract(a, w, s, w - s), 0)
    elif type(a) is int:
        if a == 0:
            return not_(1, eq(w, b, 0))
        if b.op == 'ite':
            x, y = V(b.args[1]), V(b.args[2])
            if type(x) is int or type(y) is int or values(b) is not None:
                return ite(1, b.args[0], ult(w, a, x), ult(w, a, y))
        if (a + 1) & a == 0:
            s = (a + 1).bit_length() - 1
            return not_(1, eq(w - s, extract(b, w, s, w - s), 0))
    return mk('ult', 1, (N(a, w), N(b, w)))


def slt(w, a, b):
    H = 1 << (w - 1)
    if type(a) is int and type(b) is int:
        return 1 if (a ^ H) < (b ^ H) else 0
    if a is b:
        return 0
    if umax(a) < H and umax(b) < H:
        return ult(w, a, b)
    if umax(a) < H and umin(b) >= H:
        return 0
    if umin(a) >= H and umax(b) < H:
        return 1
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if type(x) is not int and x.op == 'ite' and type(y) is int:
            p, q = V(x.args[1]), V(x.args[2])
            if type(p) is int or type(q) is int or values(x) is not None:
                if sw:
                    return ite(1, x.args[0], slt(w, y, p), slt(w, y, q))
                return ite(1, x.args[0], slt(w, p, y), slt(w, q, y))
    if type(b) is int and b == 0:
        return extract(a, w, w - 1, 1)
    if type(a) is int and a == (1 << w) - 1:
        return not_(1, extract(b, w, w - 1, 1))
    if type(a) is not int and type(b) is not int and a.op == 'sext' and \
            b.op == 'sext' and a.args[0].w == b.args[0].w:
        return slt(a.args[0].w, a.args[0], b.args[0])
    return mk('slt', 1, (N(a, w), N(b, w)))


def ite(w, c, a, b):
    if type(c) is int:
        return a if c else b
    if c.op == 'K':
        return a if c.args[0] else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == 'xor' and len(c.args) == 2 and c.args[0] == 1:
        c = c.args[1]
        a, b = b, a
    if w == 1:
        if type(a) is int:
            if type(b) is int:
                return c if a else not_(1, c)
            return or_(1, c, b) if a else and_(1, not_(1, c), b)
        if type(b) is int:
            return or_(1, not_(1, c), a) if b else and_(1, c, a)
    if type(a) is not int and a.op == 'ite' and a.args[0] is c:
        a = V(a.args[1])
    if type(b) is not int and b.op == 'ite' and b.args[0] is c:
        b = V(b.args[2])
    if a is b:
        return a
    # conditional accumulation: c ? b ^ v : b
    if type(a) is not int and type(b) is not int and (a.op == 'xor' or b.op == 'xor') and (w > 1 or (_dat(a) and _dat(b))):
        na = len(a.args) - 1 if a.op == 'xor' else 1
        nb = len(b.args) - 1 if b.op == 'xor' else 1
        d = xor(w, a, b)
        nd = 0 if type(d) is int else len(d.args) - 1 if d.op == 'xor' else 1
        if nd <= na + nb - 2 or (w == 1 and _dat(c)):
            if nb <= na:
                return xor(w, b, ite(w, c, d, 0))
            return xor(w, a, ite(w, c, 0, d))
    # share equal leading/trailing constant pieces
    if (type(a) is not int and a.op == 'concat') or \
            (type(b) is not int and b.op == 'concat'):
        s = {0}
        t = {0}
        _bounds(a, w, s)
        _bounds(b, w, t)
        if type(a) is int:
            cm = t
        elif type(b) is int:
            cm = s
        else:
            cm = s & t
        if len(cm) > 1:
            cm = sorted(cm)
            cm.append(w)
            out = []
            for i in range(len(cm) - 1):
                n = cm[i + 1] - cm[i]
                out.append((ite(n, c, extract(a, w, cm[i], n),
                                extract(b, w, cm[i], n)), n))
            out.reverse()
            return concat(out)
    elif type(a) is int and type(b) is int and (a ^ b) & ((a ^ b) - 1) == 0:
        # a single bit differs
        i = (a ^ b).bit_length() - 1
        return concat([(a >> (i + 1), w - 1 - i), (c if (a >> i) & 1 else not_(1, c), 1), (a & ((1 << i) - 1), i)])
    elif type(a) is int and type(b) is int and w > 8:
        # common high zero part
        n = max(a, b).bit_length()
        if n < w and n > 0:
            n = max(n, 1)
            return concat([(0, w - n), (mk('ite', n, (c, K(n, a), K(n, b))), n)])
    return mk('ite', w, (c, N(a, w), N(b, w)))


# ------------------------------------------------------------------ tables
class Table(object):
    __slots__ = ('v', 'n', 'lin')


_tables = {}


def _table(v):
    v = tuple(v)
    t = _tables.get(v)
    if t is None:
        t = Table()
        t.v = v
        t.n = len(_tables)
        # GF(2) linear ?
        lin = v[0] == 0 and (len(v) & (len(v) - 1)) == 0
        if lin:
            n = len(v).bit_length() - 1
            for i in range(1, len(v)):
                low = i & -i
                if low != i and v[i] != v[low] ^ v[i ^ low]:
                    lin = False
                    break
        t.lin = lin
        _tables[v] = t
    return t


def tab(tb, idx, w):
    """tb[idx], len(tb) == 2**idx.w, in normal form"""
    if type(idx) is int:
        return tb[idx]
    iw = idx.w
    if idx.op == 'concat' and any(p.op == 'K' for p in idx.args):
        # drop constant bits of the index
        pcs = [(p, p.op == 'K') for p in reversed(idx.args)]
        free = []
        base = 0
        pos = 0
        for p, isk in pcs:
            if isk:
                base |= p.args[0] << pos
            else:
                free.append((p, pos))
            pos += p.w
        tot = sum(p.w for p, _ in free)
        nt = []
        for j in range(1 << tot):
            a = base
            s = 0
            for p, po in free:
                a |= ((j >> s) & ((1 << p.w) - 1)) << po
                s += p.w
            nt.append(tb[a])
        nidx = concat([(p, p.w) for p, _ in reversed(free)])
        return tab(nt, nidx, w)
    # compose with unary function of a smaller/equal index
    k = 0
    core = idx
    if idx.op == 'xor':
        k = idx.args[0]
        if len(idx.args) == 2:
            core = idx.args[1]
            if core.op != 'tab':
                return tab([tb[i ^ k] for i in range(len(tb))], core, w)
        elif k:
            r = 0
            for x in idx.args[1:]:
                r = xor(iw, r, x)
            if not (_table([t ^ tb[0] for t in tb]).lin):
                return tab([tb[i ^ k] for i in range(len(tb))], r, w)
    if core.op == 'tab' and core.args[1].w <= 10:
        return tab([tb[e ^ k] for e in core.args[0].v], core.args[1], w)
    c = tb[0]
    if c:
        tb = [e ^ c for e in tb]
    t = _table(tb)
    if not any(t.v):
        return c
    if t.lin and idx.op == 'xor':
        r = c ^ t.v[idx.args[0]]
        for x in idx.args[1:]:
            r = xor(w, r, tab(t.v, x, w))
        return r
    if iw == w and all(e == i for i, e in enumerate(t.v)):
        return xor(w, c, idx) if c else idx
    if t.lin and w != 8:
        # linear over GF(2): bits of the result are sums of bits of the index
        out = []
        for j in range(w - 1, -1, -1):
            b = (c >> j) & 1
            for i in range(iw):
                if (t.v[1 << i] >> j) & 1:
                    b = xor(1, b, extract(idx, iw, i, 1))
            out.append((b, 1))
        return concat(out)
    r = mk('tab', w, (t, idx))
    return xor(w, c, r) if c else r


def uf(name, w, args):
    return mk('uf', w, (name,) + tuple(args))


# arrays: ('arr0', w=8*?) handled with width 0 nodes
def arr_init(cells):
    """cells: tuple of node(8)"""
    return mk('arr', 0, tuple(cells))


def arr_store(a, i, v):
    return mk('astore', 0, (a, i, v))


def arr_select(a, i):
    """i: node of 16 bits, returns value(8)"""
    x = a
    while True:
        if x.op == 'astore':
            j = x.args[1]
            if j is i:
                return V(x.args[2])
            if j.op == 'K' and i.op == 'K':
                x = x.args[0]
                continue
            break
        if x.op == 'arr':
            if i.op == 'K':
                return V(x.args[i.args[0]])
        break
    return mk('aselect', 8, (x, i))


# ------------------------------------------------------------------ z3
def children(t):
    op = t.op
    if op in ('K', 'var'):
        return ()
    if op == 'add':
        return t.args[1::2]
    if op == 'xor':
        return t.args[1:]
    if op == 'extract':
        return t.args[:1]
    if op in ('tab', 'uf'):
        return t.args[1:]
    return t.args


_ufs = {}
_ctx = None


def zbool(t):
    return to_z3(t) == z3.BitVecVal(1, 1)


def to_z3(t, cut=None):
    """translate; cut: dict node -> z3 expr overriding the translation"""
    if type(t) is int:
        raise ValueError
    if cut is None:
        if t.z is not None:
            return t.z
        memo = None
    else:
        memo = cut
    stack = [t]
    while stack:
        x = stack[-1]
        if memo is None:
            if x.z is not None:
                stack.pop()
                continue
        elif x in memo:
            stack.pop()
            continue
        ok = True
        for c in children(x):
            if (c.z is None) if memo is None else (c not in memo):
                if ok:
                    ok = False
                stack.append(c)
        if not ok:
            continue
        stack.pop()
        g = (lambda y: y.z) if memo is None else (lambda y: memo[y])
        z = _z3node(x, g)
        if memo is None:
            x.z = z
        else:
            memo[x] = z
    return t.z if memo is None else memo[t]


_arrn = [0]
B1 = None


def _z3node(x, g):
    op = x.op
    a = x.args
    w = x.w
    if op == 'K':
        return z3.BitVecVal(a[0], w)
    if op == 'var':
        return z3.BitVec(a[0], w)
    if op == 'add':
        r = None
        for i in range(1, len(a), 2):
            e = g(a[i])
            c = a[i + 1]
            neg = False
            if c == (1 << w) - 1:
                neg = True
            elif c != 1:
                e = e * z3.BitVecVal(c, w)
            if r is None:
                r = -e if neg else e
            else:
                r = r - e if neg else r + e
        if a[0]:
            r = r + z3.BitVecVal(a[0], w)
        return r
    if op == 'mul':
        r = g(a[0])
        for y in a[1:]:
            r = r * g(y)
        return r
    if op == 'xor':
        r = z3.BitVecVal(a[0], w) if a[0] else None
        if a[0] == (1 << w) - 1:
            r = ~g(a[1])
            for y in a[2:]:
                r = r ^ g(y)
            return r
        for y in a[1:]:
            r = g(y) if r is None else r ^ g(y)
        return r
    if op == 'and':
        r = g(a[0])
        for y in a[1:]:
            r = r & g(y)
        return r
    if op == 'or':
        r = g(a[0])
        for y in a[1:]:
            r = r | g(y)
        return r
    if op == 'concat':
        return z3.Concat(*[g(y) for y in a])
    if op == 'extract':
        return z3.Extract(a[1] + w - 1, a[1], g(a[0]))
    if op == 'sext':
        return z3.SignExt(w - a[0].w, g(a[0]))
    if op == 'ite':
        return z3.If(g(a[0]) == z3.BitVecVal(1, 1), g(a[1]), g(a[2]))
    if op == 'eq':
        return z3.If(g(a[0]) == g(a[1]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if op == 'ult':
        return z3.If(z3.ULT(g(a[0]), g(a[1])), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if op == 'slt':
        return z3.If(g(a[0]) < g(a[1]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if op == 'udiv':
        return z3.UDiv(g(a[0]), g(a[1]))
    if op == 'urem':
        return z3.URem(g(a[0]), g(a[1]))
    if op == 'sdiv':
        return g(a[0]) / g(a[1])
    if op == 'srem':
        return z3.SRem(g(a[0]), g(a[1]))
    if op == 'shl':
        return g(a[0]) << g(a[1])
    if op == 'lshr':
        return z3.LShR(g(a[0]), g(a[1]))
    if op == 'ashr':
        return g(a[0]) >> g(a[1])
    if op == 'tab':
        tb = a[0].v
        iw = a[1].w
        idx = g(a[1])
        lvl = [z3.BitVecVal(v, w) for v in tb]
        vals = list(tb)
        cache = {}
        cur = list(tb)
        exprs = {}
        ids = []
        uniq = {}
        for v in tb:
            if v not in uniq:
                uniq[v] = z3.BitVecVal(v, w)
            ids.append(uniq[v])
        level = ids
        for b in range(iw):
            bit = z3.Extract(b, b, idx) == z3.BitVecVal(1, 1)
            nxt = []
            c2 = {}
            for i in range(0, len(level), 2):
                lo, hi = level[i], level[i + 1]
                if lo is hi:
                    nxt.append(lo)
                    continue
                k = (id(lo), id(hi))
                e = c2.get(k)
                if e is None:
                    e = z3.If(bit, hi, lo)
                    c2[k] = e
                nxt.append(e)
            level = nxt
        return level[0]
    if op == 'uf':
        key = (a[0], w, tuple(y.w for y in a[1:]))
        f = _ufs.get(key)
        if f is None:
            f = z3.Function('uf_%s_%d' % (a[0], len(_ufs)),
                            *([z3.BitVecSort(y.w) for y in a[1:]] + [z3.BitVecSort(w)]))
            _ufs[key] = f
        return f(*[g(y) for y in a[1:]])
    if op == 'arr':
        _arrn[0] += 1
        r = z3.K(z3.BitVecSort(16), z3.BitVecVal(0, 8))
        for i, y in enumerate(a):
            r = z3.Store(r, z3.BitVecVal(i, 16), g(y))
        return r
    if op == 'astore':
        return z3.Store(g(a[0]), g(a[1]), g(a[2]))
    if op == 'aselect':
        return z3.Select(g(a[0]), g(a[1]))
    raise NotImplementedError(op)


# ------------------------------------------------------------------ eval
def ev(t, env, memo):
    """evaluate under env (var name -> int, default 0); memo: dict"""
    if type(t) is int:
        return t
    if t in memo:
        return memo[t]
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        ok = True
        for c in children(x):
            if c not in memo:
                ok = False
                stack.append(c)
        if not ok:
            continue
        stack.pop()
        memo[x] = _ev1(x, env, memo)
    return memo[t]


def _ufeval(name, w, vals, env):
    key = ('uf', name, w, vals)
    if key in env:
        return env[key]
    x = env.get(('ufelse', name, w))
    if x is not None:
        env[key] = x
        return x
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    while len(h) * 8 < w:
        h += hashlib.sha256(h).digest()
    return int.from_bytes(h, 'big') & ((1 << w) - 1)


def _ev1(x, env, m):
    op = x.op
    a = x.args
    w = x.w
    M = (1 << w) - 1
    if op == 'K':
        return a[0]
    if op == 'var':
        if type(env) is not dict:
            return env.draw(a[0], w)
        return env.get(a[0], 0)
    if op == 'add':
        r = a[0]
        for i in range(1, len(a), 2):
            r += m[a[i]] * a[i + 1]
        return r & M
    if op == 'mul':
        r = 1
        for y in a:
            r = (r * m[y]) & M
        return r
    if op == 'xor':
        r = a[0]
        for y in a[1:]:
            r ^= m[y]
        return r
    if op == 'and':
        r = M
        for y in a:
            r &= m[y]
        return r
    if op == 'or':
        r = 0
        for y in a:
            r |= m[y]
        return r
    if op == 'concat':
        r = 0
        for y in a:
            r = (r << y.w) | m[y]
        return r
    if op == 'extract':
        return (m[a[0]] >> a[1]) & M
    if op == 'sext':
        return sext(m[a[0]], a[0].w, w)
    if op == 'ite':
        return m[a[1]] if m[a[0]] else m[a[2]]
    if op == 'eq':
        return 1 if m[a[0]] == m[a[1]] else 0
    if op == 'ult':
        return 1 if m[a[0]] < m[a[1]] else 0
    if op == 'slt':
        return slt(a[0].w, m[a[0]], m[a[1]])
    if op == 'udiv':
        return m[a[0]] // m[a[1]] if m[a[1]] else M
    if op == 'urem':
        return m[a[0]] % m[a[1]] if m[a[1]] else m[a[0]]
    if op == 'sdiv':
        if m[a[1]] == 0:
            return 1 if m[a[0]] >> (w - 1) else M
        return sdiv(w, m[a[0]], m[a[1]])
    if op == 'srem':
        return srem(w, m[a[0]], m[a[1]]) if m[a[1]] else m[a[0]]
    if op == 'shl':
        return shl(w, m[a[0]], m[a[1]])
    if op == 'lshr':
        return lshr(w, m[a[0]], m[a[1]])
    if op == 'ashr':
        return ashr(w, m[a[0]], m[a[1]])
    if op == 'tab':
        return a[0].v[m[a[1]]]
    if op == 'uf':
        return _ufeval(a[0], w, tuple(m[y] for y in a[1:]), env)
    if op == 'arr':
        return tuple(m[y] for y in a)
    if op == 'astore':
        l = list(m[a[0]])
        i = m[a[1]]
        if i < len(l):
            l[i] = m[a[2]]
        return tuple(l)
    if op == 'aselect':
        l = m[a[0]]
        i = m[a[1]]
        return l[i] if i < len(l) else 0
    raise NotImplementedError(op)


def rebuild(x, g):
    """rebuild node x with children mapped through g (node -> value)"""
    op = x.op
    a = x.args
    w = x.w
    if op in ('K', 'var'):
        return V(x)
    if op == 'add':
        c = {}
        k = a[0]
        for i in range(1, len(a), 2):
            k = lin_add(w, c, k, g(a[i]), a[i + 1])
        r = lin_mk(w, k, c)
        return r
    if op == 'mul':
        r = 1
        for y in a:
            r = mul(w, r, g(y))
        return r
    if op == 'xor':
        r = a[0]
        for y in a[1:]:
            r = xor(w, r, g(y))
        return r
    if op == 'and':
        r = (1 << w) - 1
        for y in a:
            r = and_(w, r, g(y))
        return r
    if op == 'or':
        r = 0
        for y in a:
            r = or_(w, r, g(y))
        return r
    if op == 'concat':
        return concat([(g(y), y.w) for y in a])
    if op == 'extract':
        return extract(g(a[0]), a[0].w, a[1], w)
    if op == 'sext':
        return sext(g(a[0]), a[0].w, w)
    if op == 'ite':
        return ite(w, g(a[0]), g(a[1]), g(a[2]))
    if op == 'eq':
        return eq(a[0].w, g(a[0]), g(a[1]))
    if op == 'ult':
        return ult(a[0].w, g(a[0]), g(a[1]))
    if op == 'slt':
        return slt(a[0].w, g(a[0]), g(a[1]))
    if op in ('udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
        return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem,
                'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](w, g(a[0]), g(a[1]))
    if op == 'tab':
        return tab(a[0].v, g(a[1]), w)
    if op == 'uf':
        return uf(a[0], w, [N(g(y), y.w) for y in a[1:]])
    if op == 'arr':
        return arr_init([N(g(y), 8) for y in a])
    if op == 'astore':
        return arr_store(g(a[0]), N(g(a[1]), 16), N(g(a[2]), 8))
    if op == 'aselect':
        return arr_select(g(a[0]), N(g(a[1]), 16))
    raise NotImplementedError(op)


def topo(roots):
    """nodes reachable from roots in topological order (children first)"""
    seen = set()
    out = []
    stack = [(r, False) for r in roots if type(r) is not int]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        stack.append((x, True))
        for c in children(x):
            if c not in seen:
                stack.append((c, False))
    return out
