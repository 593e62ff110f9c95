"""Hash-consed bit-vector terms with a canonicalising constructor layer.

Every term has an operator, a width and arguments.  Constructors (mk_*) apply
sound rewrite rules of bit-vector arithmetic; structurally equal terms are the
same Python object, so equality of two canonical forms is `is`.

  c    constant                    v    variable
  add  linear combination          mul/udiv/urem/sdiv/srem
  and/or/xor  n-ary AC             shl/lshr/ashr symbolic shift
  cat  concatenation (high..low)   ext  extract (term, low bit)
  ite eq ult slt sext
  rd   byte of a ghost array       F    opaque application of the BLAKE2 compression function
  H    chain state word H_i(k)     uf   other uninterpreted application
"""
import hashlib

_tab = {}
_next = [1]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'x')

    def __init__(self, op, w, a):
        self.op = op
        self.w = w
        self.a = a
        self.id = _next[0]
        _next[0] += 1
        self.x = None

    def __repr__(self):
        return show(self)

    @property
    def isc(self):
        return self.op == 'c'


def mk(op, w, *a):
    k = (op, w) + a
    t = _tab.get(k)
    if t is None:
        t = T(op, w, a)
        _tab[k] = t
    return t


def reset():
    """drop the intern table (between independent tasks)"""
    global TRUE, FALSE
    _tab.clear()
    _ccache.clear()
    _tab[('c', 1, 1)] = TRUE
    _tab[('c', 1, 0)] = FALSE


_ccache = {}


def C(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _ccache.get(k)
    if t is None:
        t = mk('c', w, v)
        _ccache[k] = t
    return t


TRUE = C(1, 1)
FALSE = C(0, 1)

_fresh = [0]


def V(name, w):
    return mk('v', w, name)


def fresh(name, w):
    _fresh[0] += 1
    return mk('v', w, '%s!%d' % (name, _fresh[0]))


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- linear sums
def _lin(t):
    """-> (const, {term: coef})"""
    if t.op == 'c':
        return t.a[0], {}
    if t.op == 'add':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(const, d, w):
    m = (1 << w) - 1
    const &= m
    items = [(t, c & m) for t, c in d.items() if c & m]
    if not items:
        return C(const, w)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk('add', w, const, tuple(items))


def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return C(a.a[0] + b.a[0], a.w)
    if a.op == 'c' and a.a[0] == 0:
        return b
    if b.op == 'c' and b.a[0] == 0:
        return a
    w = a.w
    if w == 1:
        return bxor(a, b)
    ca, da = _lin(a)
    cb, db = _lin(b)
    if len(da) < len(db):
        da, db = db, da
    for t, c in db.items():
        da[t] = da.get(t, 0) + c
    return _mklin(ca + cb, da, w)


def addc(a):
    """a as base + constant"""
    c, d = _lin(a)
    if not c:
        return a, 0
    return _mklin(0, d, a.w), c & ((1 << a.w) - 1)


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    if a is b:
        return C(0, a.w)
    if b.op == 'c' and b.a[0] == 0:
        return a
    if a.w == 1:
        return bxor(a, b)
    ca, da = _lin(a)
    cb, db = _lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) - c
    return _mklin(ca - cb, da, a.w)


def mulc(a, k):
    w = a.w
    k &= (1 << w) - 1
    if k == 0:
        return C(0, w)
    if k == 1:
        return a
    ca, da = _lin(a)
    return _mklin(ca * k, {t: c * k for t, c in da.items()}, w)


def mul(a, b):
    if a.op == 'c':
        return mulc(b, a.a[0])
    if b.op == 'c':
        return mulc(a, b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk('mul', a.w, a, b)


def udiv(a, b):
    w = a.w
    if b.op == 'c':
        v = b.a[0]
        if v:
            if a.op == 'c':
                return C(a.a[0] // v, w)
            if v & (v - 1) == 0:
                return lshr(a, C(v.bit_length() - 1, w))
    return mk('udiv', w, a, b)


def urem(a, b):
    w = a.w
    if b.op == 'c':
        v = b.a[0]
        if v:
            if a.op == 'c':
                return C(a.a[0] % v, w)
            if v & (v - 1) == 0:
                n = v.bit_length() - 1
                if n == 0:
                    return C(0, w)
                return zext(ext(a, 0, n), w)
    return mk('urem', w, a, b)


def sdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        x, y = sgn(a), sgn(b)
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q, a.w)
    return mk('sdiv', a.w, a, b)


def srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        x, y = sgn(a), sgn(b)
        r = abs(x) % abs(y)
        return C(-r if x < 0 else r, a.w)
    return mk('srem', a.w, a, b)


def sgn(c):
    v = c.a[0]
    return v - (1 << c.w) if v >> (c.w - 1) else v


# ---------------------------------------------------------------- cat / ext
def _pow2lin(t):
    """t == 2^n * x exactly?  -> (x, n) or None"""
    if t.op == 'add' and t.a[0] == 0 and len(t.a[1]) == 1:
        x, c = t.a[1][0]
        if c & (c - 1) == 0:
            return x, c.bit_length() - 1
    return None


def ext(t, lo, n):
    """n bits of t from bit lo"""
    if lo == 0 and n == t.w:
        return t
    op = t.op
    if op == 'c':
        return C(t.a[0] >> lo, n)
    if op == 'ext':
        return ext(t.a[0], t.a[1] + lo, n)
    if op == 'cat':
        parts = []
        pos = t.w
        hi = lo + n
        for p in t.a:
            plo = pos - p.w
            s = max(plo, lo)
            e = min(pos, hi)
            if s < e:
                parts.append(ext(p, s - plo, e - s))
            pos = plo
        return cat(*parts)
    if op == 'add':
        p = _pow2lin(t)
        if p:
            x, k = p
            # t = cat(x[w-k-1..0], 0_k)
            if lo >= k:
                return ext(x, lo - k, n)
            if lo + n <= k:
                return C(0, n)
            return cat(ext(x, 0, lo + n - k), C(0, k - lo))
        # low zero/known bits of a sum whose terms are all multiples of 2^k
        if lo == 0 and n >= 16:
            d = {}
            m = (1 << n) - 1
            for x, c in t.a[1]:
                c &= m
                if c:
                    y = ext(x, 0, n)
                    cc, dd = _lin(y)
                    if cc or y.op == 'add':
                        return _extadd(t, n)
                    if y.op != 'c':
                        d[y] = d.get(y, 0) + c
            return _mklin(t.a[0], d, n)
        k = _tz(t)
        if k and lo + n <= k + 0:
            return C(t.a[0] >> lo, n)
    elif op == 'ite':
        a, b = t.a[1], t.a[2]
        if (a.op == 'c' or b.op == 'c') and a.op in ('c', 'cat', 'ext', 'rd', 'v') and b.op in ('c', 'cat', 'ext', 'rd', 'v'):
            return ite(t.a[0], ext(a, lo, n), ext(b, lo, n))
    elif op == 'sext':
        x = t.a[0]
        if lo + n <= x.w:
            return ext(x, lo, n)
    elif op in ('and', 'or'):
        if any(x.op in ('c', 'cat') for x in t.a):
            f = band if op == 'and' else bor
            r = None
            for x in t.a:
                y = ext(x, lo, n)
                r = y if r is None else f(r, y)
            return r
    elif op == 'xor':
        r = _extxor(t, lo, n)
        if r is not None:
            return r
    return mk('ext', n, t, lo)


def _bounds(x):
    """internal boundaries of a concatenation; None: may be cut anywhere"""
    if x.op in ('c', 'v'):
        return None
    if x.op == 'ext' and x.a[0].op == 'v':
        return None
    if x.op == 'cat':
        r = set()
        p = 0
        for y in reversed(x.a[1:]):
            p += y.w
            r.add(p)
        return r
    return set()


def _extxor(t, lo, n):
    """extract from an xor of concatenations: descend to the part between common boundaries"""
    common = None
    for x in t.a:
        b = _bounds(x)
        if b is None:
            continue
        common = b if common is None else common & b
        if not common:
            return None
    if common is None:
        return None
    c, d = 0, t.w
    for b in common:
        if b <= lo and b > c:
            c = b
        if b >= lo + n and b < d:
            d = b
    if c == 0 and d == t.w:
        return None
    r = None
    for x in t.a:
        y = ext(x, c, d - c)
        r = y if r is None else bxor(r, y)
    return ext(r, lo - c, n)


def _extadd(t, n):
    r = C(t.a[0], n)
    for x, c in t.a[1]:
        r = add(r, mulc(ext(x, 0, n), c))
    return r


def _tz(t):
    """trailing zero bits common to all non-constant addends"""
    k = t.w
    for x, c in t.a[1]:
        z = (c & -c).bit_length() - 1
        if x.op == 'cat' and x.a[-1].op == 'c' and x.a[-1].a[0] == 0:
            z += x.a[-1].w
        k = min(k, z)
    return k


def trunc(t, n):
    return ext(t, 0, n)


def cat(*parts):
    """high part first"""
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.a)
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    # merge neighbours
    res = []
    for p in out:
        while res:
            q = res[-1]
            m = _merge(q, p)
            if m is None:
                break
            res.pop()
            p = m
        res.append(p)
    if len(res) == 1:
        return res[0]
    w = sum(p.w for p in res)
    # cat(ext(x,0,w-n), 0_n) with x of width w  ==  x * 2^n
    if len(res) == 2 and res[1].op == 'c' and res[1].a[0] == 0:
        h = res[0]
        n = res[1].w
        if h.op == 'ext' and h.a[1] == 0 and h.a[0].w == w:
            return mulc(h.a[0], 1 << n)
    return mk('cat', w, *res)


def _merge(q, p):
    """q high neighbour of p: one term or None"""
    if q.op == 'c':
        if p.op == 'c':
            return C((q.a[0] << p.w) | p.a[0], q.w + p.w)
        return None
    if q.op == 'ext':
        x, n = q.a
        if p.op == 'ext' and p.a[0] is x:
            if p.a[1] + p.w == n:
                return ext(x, p.a[1], p.w + q.w)
            return None
        if n >= p.w and ext(x, n - p.w, p.w) is p:
            return ext(x, n - p.w, p.w + q.w)
    if q.op == 'ite' and p.op == 'ite' and q.a[0] is p.a[0]:
        # bytes of a conditional value: merge only when both arms merge
        h = _merge(q.a[1], p.a[1]) if q.a[1] is not None else None
        if h is not None:
            l = _merge(q.a[2], p.a[2])
            if l is not None:
                return ite(q.a[0], h, l)
    return None


def zext(t, w):
    if w == t.w:
        return t
    return cat(C(0, w - t.w), t)


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'c':
        return C(sgn(t), w)
    if t.op == 'cat' and t.a[0].op == 'c' and not t.a[0].a[0] >> (t.a[0].w - 1):
        return zext(t, w)
    if t.w == 1:
        return ite(t, C(-1, w), C(0, w))
    return mk('sext', w, t)


def shl(a, b):
    w = a.w
    if b.op == 'c':
        n = b.a[0]
        if n >= w:
            return C(0, w)
        return mulc(a, 1 << n)
    return mk('shl', w, a, b)


def lshr(a, b):
    w = a.w
    if b.op == 'c':
        n = b.a[0]
        if n == 0:
            return a
        if n >= w:
            return C(0, w)
        return cat(C(0, n), ext(a, n, w - n))
    return mk('lshr', w, a, b)


def ashr(a, b):
    w = a.w
    if b.op == 'c':
        n = min(b.a[0], w - 1)
        if n == 0:
            return a
        if a.op == 'c':
            return C(sgn(a) >> n, w)
        return sext(ext(a, n, w - n), w)
    return mk('ashr', w, a, b)


def fshr(a, b, n):
    """funnel shift right of a:b by constant n"""
    w = a.w
    n %= w
    if n == 0:
        return b
    return cat(ext(a, 0, n), ext(b, n, w - n))


def fshl(a, b, n):
    w = a.w
    n %= w
    if n == 0:
        return a
    return fshr(a, b, w - n)


# ---------------------------------------------------------------- bitwise
def _ascat(t):
    """pieces [(width, term)] high to low; only splits structure already there"""
    if t.op == 'cat':
        return [(p.w, p) for p in t.a]
    p = _pow2lin(t)
    if p:
        x, n = p
        return [(t.w - n, ext(x, 0, t.w - n)), (n, C(0, n))]
    return [(t.w, t)]


def _cruns(c):
    """split a constant into maximal runs of equal bits (only 'mask-like' constants)"""
    w = c.w
    v = c.a[0]
    runs = []
    i = w - 1
    while i >= 0:
        bit = (v >> i) & 1
        j = i
        while j >= 0 and ((v >> j) & 1) == bit:
            j -= 1
        runs.append((i - j, C(-bit, i - j)))
        i = j
    return runs


def _allzero(t):
    return t.op == 'c' and t.a[0] == 0


def _allones(t):
    return t.op == 'c' and t.a[0] == (1 << t.w) - 1


def _bitwise2(op, a, b):
    """try to combine two operands piecewise; None if nothing gained"""
    w = a.w
    pa = _ascat(a)
    pb = _ascat(b)
    if op == 'and' or op == 'or':
        if a.op == 'c':
            r = _cruns(a)
            if len(r) <= 16:
                pa = r
        if b.op == 'c':
            r = _cruns(b)
            if len(r) <= 16:
                pb = r
    if len(pa) == 1 and len(pb) == 1:
        return None
    out = []
    ia = ib = 0
    ra, ta = pa[0]
    rb, tb = pb[0]
    oa, ob = ra, rb
    while True:
        n = min(ra, rb)
        xa = ext(ta, ra - n, n)
        xb = ext(tb, rb - n, n)
        if xa.op == 'c' and xb.op == 'c':
            u, v = xa.a[0], xb.a[0]
            r = C(u & v if op == 'and' else u | v if op == 'or' else u ^ v, n)
        elif op == 'and':
            if _allzero(xa) or _allzero(xb):
                r = C(0, n)
            elif _allones(xa):
                r = xb
            elif _allones(xb):
                r = xa
            elif xa is xb:
                r = xa
            else:
                return None
        elif op == 'or':
            if _allones(xa) or _allones(xb):
                r = C(-1, n)
            elif _allzero(xa):
                r = xb
            elif _allzero(xb):
                r = xa
            elif xa is xb:
                r = xa
            else:
                return None
        else:
            if _allzero(xa):
                r = xb
            elif _allzero(xb):
                r = xa
            elif xa is xb:
                r = C(0, n)
            else:
                return None
        out.append(r)
        ra -= n
        rb -= n
        if ra == 0:
            ia += 1
            if ia < len(pa):
                ra, ta = pa[ia]
        if rb == 0:
            ib += 1
            if ib < len(pb):
                rb, tb = pb[ib]
        if ia >= len(pa):
            break
    return cat(*out)


def _nary(op, a, b):
    w = a.w
    items = {}
    const = (1 << w) - 1 if op == 'and' else 0
    for t in (a, b):
        for x in (t.a if t.op == op else (t,)):
            if x.op == 'c':
                v = x.a[0]
                const = const & v if op == 'and' else const | v if op == 'or' else const ^ v
            elif op == 'xor':
                if x in items:
                    del items[x]
                else:
                    items[x] = 1
            else:
                items[x] = 1
    full = (1 << w) - 1
    if op == 'and':
        if const == 0:
            return C(0, w)
        unit = full
    elif op == 'or':
        if const == full:
            return C(full, w)
        unit = 0
    else:
        unit = 0
    if w == 1 and op != 'xor':
        for x in items:
            if bnot(x) in items:
                return FALSE if op == 'and' else TRUE
        for x in list(items):
            # x >= y and x != y is y < x;  x < y or x == y is not y < x
            y = bnot(x) if op == 'and' else x
            if y.op == 'ult' and x in items:
                e = eq(y.a[0], y.a[1])
                if op == 'and':
                    e = bnot(e)
                if e in items:
                    r = ult(y.a[1], y.a[0])
                    if op == 'or':
                        r = bnot(r)
                    del items[x]
                    del items[e]
                    out = TRUE if op == 'and' else FALSE
                    for z in items:
                        out = (band if op == 'and' else bor)(out, z)
                    return (band if op == 'and' else bor)(out, r)
    lst = sorted(items, key=lambda t: t.id)
    if const != unit:
        lst.append(C(const, w))
    if not lst:
        return C(unit, w)
    if len(lst) == 1:
        return lst[0]
    return mk(op, w, *lst)


def band(a, b):
    if a is b:
        return a
    if a.op == 'c' and b.op == 'c':
        return C(a.a[0] & b.a[0], a.w)
    if _allones(a):
        return b
    if _allones(b):
        return a
    if _allzero(a) or _allzero(b):
        return C(0, a.w)
    if a.w > 1:
        r = _bitwise2('and', a, b)
        if r is not None:
            return r
    return _nary('and', a, b)


def bor(a, b):
    if a is b:
        return a
    if a.op == 'c' and b.op == 'c':
        return C(a.a[0] | b.a[0], a.w)
    if _allzero(a):
        return b
    if _allzero(b):
        return a
    if _allones(a) or _allones(b):
        return C(-1, a.w)
    if a.w > 1:
        r = _bitwise2('or', a, b)
        if r is not None:
            return r
    return _nary('or', a, b)


def bxor(a, b):
    if a is b:
        return C(0, a.w)
    if a.op == 'c' and b.op == 'c':
        return C(a.a[0] ^ b.a[0], a.w)
    if _allzero(a):
        return b
    if _allzero(b):
        return a
    if a.w > 1:
        r = _bitwise2('xor', a, b)
        if r is not None:
            return r
    elif a.op == 'c':
        return bnot(b)
    elif b.op == 'c':
        return bnot(a)
    return _nary('xor', a, b)


def bnot(a):
    if a.op == 'c':
        return C(~a.a[0], a.w)
    if a.w == 1:
        if a.op == 'xor' and a.a[-1].op == 'c':
            r = a.a[:-1]
            return r[0] if len(r) == 1 else mk('xor', 1, *r)
        return _nary('xor', a, TRUE)
    return bxor(a, C(-1, a.w))


# ---------------------------------------------------------------- predicates
def eq(a, b):
    if a is b:
        return TRUE
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return B(a.a[0] == b.a[0])
    if w == 1:
        if a.op == 'c':
            return b if a.a[0] else bnot(b)
        if b.op == 'c':
            return a if b.a[0] else bnot(a)
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if a.op == 'cat':
            h = a.a[0]
            if h.op == 'c':
                rest = w - h.w
                if (b.a[0] >> rest) != h.a[0]:
                    return FALSE
                return eq(ext(a, 0, rest), C(b.a[0], rest))
            l = a.a[-1]
            if l.op == 'c':
                if (b.a[0] & ((1 << l.w) - 1)) != l.a[0]:
                    return FALSE
                return eq(ext(a, l.w, w - l.w), ext(b, l.w, w - l.w))
        if a.op == 'ite':
            c, x, y = a.a
            ex = eq(x, b) if x.op == 'c' else None
            ey = eq(y, b) if y.op == 'c' else None
            if ex is not None and ey is not None:
                if ex is ey:
                    return ex
                return c if ex is TRUE else bnot(c)
            if ex is FALSE:
                return band(bnot(c), eq(y, b))
            if ey is FALSE:
                return band(c, eq(x, b))
        if a.op == 'xor' and a.a[-1].op == 'c':
            r = C(0, w)
            for x in a.a[:-1]:
                r = bxor(r, x)
            return eq(r, bxor(a.a[-1], b))
    if a.op == 'cat' and b.op == 'cat' and a.a[0].op == 'c' and b.a[0].op == 'c':
        n = min(a.a[0].w, b.a[0].w)
        if ext(a.a[0], a.a[0].w - n, n) is not ext(b.a[0], b.a[0].w - n, n):
            return FALSE
        return eq(ext(a, 0, w - n), ext(b, 0, w - n))
    if a.op == 'add' or b.op == 'add':
        d = sub(a, b)
        if d.op == 'c':
            return B(d.a[0] == 0)
        if b.op == 'c' and a.op == 'add' and (b.a[0] < minu(a) or b.a[0] > maxu(a)):
            return FALSE
        if d.op == 'add':
            # canonical orientation: sum == const
            m = (1 << w) - 1
            items = d.a[1]
            const = (-d.a[0]) & m
            if items[0][1] > (m >> 1):
                items = tuple((t, (-c) & m) for t, c in items)
                const = (-const) & m
            l = _mklin(0, dict(items), w)
            return mk('eq', 1, l, C(const, w))
    if b.op != 'c' and a.id > b.id:
        a, b = b, a
    return mk('eq', 1, a, b)


def ne(a, b):
    return bnot(eq(a, b))


def maxu(t, depth=6):
    """cheap unsigned upper bound"""
    op = t.op
    if op == 'c':
        return t.a[0]
    full = (1 << t.w) - 1
    if depth == 0:
        return full
    if op == 'cat':
        v = 0
        for p in t.a:
            v = (v << p.w) | maxu(p, depth - 1)
        return v
    if op == 'ite':
        return max(maxu(t.a[1], depth - 1), maxu(t.a[2], depth - 1))
    if op == 'add':
        s = t.a[0]
        for x, c in t.a[1]:
            s += c * maxu(x, depth - 1)
            if s > full:
                return full
        return s
    if op == 'and':
        return min(maxu(x, depth - 1) for x in t.a)
    if op == 'urem' and t.a[1].op == 'c' and t.a[1].a[0]:
        return t.a[1].a[0] - 1
    return full


def minu(t, depth=4):
    op = t.op
    if op == 'c':
        return t.a[0]
    if depth == 0:
        return 0
    if op == 'cat':
        v = 0
        for p in t.a:
            v = (v << p.w) | minu(p, depth - 1)
        return v
    if op == 'ite':
        return min(minu(t.a[1], depth - 1), minu(t.a[2], depth - 1))
    if op == 'add':
        full = (1 << t.w) - 1
        s = t.a[0]
        lo = s
        for x, c in t.a[1]:
            s += c * maxu(x, depth - 1)
            if s > full:
                return 0
            lo += c * minu(x, depth - 1)
        return lo
    if op == 'ite':
        return min(minu(t.a[1], depth - 1), minu(t.a[2], depth - 1))
    return 0


def ult(a, b):
    if a is b:
        return FALSE
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return B(a.a[0] < b.a[0])
    if _allzero(b):
        return FALSE
    if a.op == 'c' and a.a[0] == 0:
        return ne(b, a)
    if b.op == 'c' and b.a[0] == 1:
        return eq(a, C(0, w))
    if maxu(a) < minu(b):
        return TRUE
    if minu(a) >= maxu(b):
        return FALSE
    if a.op == 'add' or b.op == 'add':
        # x + c1 < x + c2 without wrap-around
        d = sub(b, a)
        if d.op == 'c':
            full = (1 << w) - 1
            sd = sgn(d)
            if sd > 0 and maxu(a) + sd <= full:
                return TRUE
            if sd < 0 and maxu(b) - sd <= full:
                return FALSE
    # strip common zero high part
    za = a.a[0].w if a.op == 'cat' and _allzero(a.a[0]) else 0
    zb = b.a[0].w if b.op == 'cat' and _allzero(b.a[0]) else 0
    if a.op == 'c':
        za = w - max(1, a.a[0].bit_length())
    if b.op == 'c':
        zb = w - max(1, b.a[0].bit_length())
    z = min(za, zb)
    if z:
        return ult(ext(a, 0, w - z), ext(b, 0, w - z))
    return mk('ult', 1, a, b)


def ule(a, b):
    return bnot(ult(b, a))


def _ctree(a, d=3):
    """a choice between constants"""
    return a.op == 'ite' and all(x.op == 'c' or d and _ctree(x, d - 1) for x in a.a[1:])


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return B(sgn(a) < sgn(b))
    w = a.w
    if _ctree(a) and b.op == 'c':
        return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    if _ctree(b) and a.op == 'c':
        return ite(b.a[0], slt(a, b.a[1]), slt(a, b.a[2]))
    half = (1 << (w - 1)) - 1
    if maxu(a) <= half and maxu(b) <= half:
        return ult(a, b)
    if b.op == 'c' and b.a[0] == 0:
        return eq(ext(a, w - 1, 1), TRUE)
    return mk('slt', 1, a, b)


def sle(a, b):
    return bnot(slt(b, a))


def ite(c, a, b):
    if c.op == 'c':
        return a if c.a[0] else b
    if a is b:
        return a
    if a.w == 1:
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
    # canonical polarity: condition not a negation
    if c.op == 'xor' and c.a[-1] is TRUE:
        return ite(bnot(c), b, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', a.w, c, a, b)


def land(*xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def lor(*xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def implies(a, b):
    return bor(bnot(a), b)


# ---------------------------------------------------------------- misc
def show(t, depth=5):
    op = t.op
    if op == 'c':
        return '0x%x:%d' % (t.a[0], t.w)
    if op == 'v':
        return t.a[0]
    if depth == 0:
        return '#%d' % t.id
    if op == 'add':
        s = []
        for x, c in t.a[1]:
            cc = c if c < (1 << (t.w - 1)) else c - (1 << t.w)
            s.append(('' if cc == 1 else '%d*' % cc) + show(x, depth - 1))
        if t.a[0]:
            s.append(str(t.a[0] if t.a[0] < (1 << (t.w - 1)) else t.a[0] - (1 << t.w)))
        return '(' + ' + '.join(s) + ')'
    if op == 'ext':
        return '%s[%d+:%d]' % (show(t.a[0], depth - 1), t.a[1], t.w)
    return '%s(%s)' % (op, ', '.join(show(x, depth - 1) if isinstance(x, T) else
                                      str(getattr(x, 'name', x)) if not isinstance(x, tuple) else '..' for x in t.a))


def children(t):
    op = t.op
    if op == 'c' or op == 'v':
        return ()
    if op == 'add':
        return tuple(x for x, _ in t.a[1])
    if op == 'F':
        return t.a[1].args
    return tuple(x for x in t.a if isinstance(x, T))


def rebuild(t, ch):
    """rebuild t with new children (same order as children())"""
    op = t.op
    if op == 'add':
        r = C(t.a[0], t.w)
        for (x, c), y in zip(t.a[1], ch):
            r = add(r, mulc(y, c))
        return r
    f = _RB.get(op)
    if f:
        return f(t, ch)
    if op == 'F':
        return mkF(t.a[1].variant, ch)[t.a[0]]
    it = iter(ch)
    return mk(op, t.w, *[next(it) if isinstance(x, T) else x for x in t.a])


def _red(f):
    def g(t, ch):
        r = ch[0]
        for x in ch[1:]:
            r = f(r, x)
        return r
    return g


_RB = {
    'mul': lambda t, c: mul(*c), 'udiv': lambda t, c: udiv(*c), 'urem': lambda t, c: urem(*c),
    'sdiv': lambda t, c: sdiv(*c), 'srem': lambda t, c: srem(*c),
    'and': _red(band), 'or': _red(bor), 'xor': _red(bxor),
    'cat': lambda t, c: cat(*c), 'ext': lambda t, c: ext(c[0], t.a[1], t.w),
    'sext': lambda t, c: sext(c[0], t.w), 'shl': lambda t, c: shl(*c), 'lshr': lambda t, c: lshr(*c),
    'ashr': lambda t, c: ashr(*c), 'eq': lambda t, c: eq(*c), 'ult': lambda t, c: ult(*c),
    'slt': lambda t, c: slt(*c), 'ite': lambda t, c: ite(*c),
}


def topo(roots):
    """post-order list of the DAG below roots"""
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        st = [(r, iter(children(r)))]
        seen.add(r.id)
        while st:
            t, it = st[-1]
            for c in it:
                if c.id not in seen:
                    seen.add(c.id)
                    st.append((c, iter(children(c))))
                    break
            else:
                out.append(t)
                st.pop()
    return out


def subst(roots, m):
    """simultaneous substitution; m: {term: term}"""
    memo = {k.id: v for k, v in m.items()}
    for t in topo(roots):
        if t.id in memo:
            continue
        ch = children(t)
        if not ch:
            memo[t.id] = t
            continue
        nc = tuple(memo[c.id] for c in ch)
        memo[t.id] = t if all(x is y for x, y in zip(ch, nc)) else rebuild(t, nc)
    return [memo[r.id] for r in roots]


# ---------------------------------------------------------------- F applications
class FApp:
    """one opaque application of the compression function: args = h0..7, m0..15, tlo, thi, f0, f1"""
    __slots__ = ('variant', 'args', 'outs', 'exp')

    def __init__(self, variant, args):
        self.variant = variant
        self.args = args
        self.outs = None
        self.exp = None


_ftab = {}


def mkF(variant, args):
    args = tuple(args)
    k = (variant, args)
    f = _ftab.get(k)
    if f is None:
        f = FApp(variant, args)
        w = 64 if variant == 'b' else 32
        f.outs = tuple(mk('F', w, i, f) for i in range(8))
        _ftab[k] = f
    return f.outs
