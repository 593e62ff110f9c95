"""Symbolic memory: byte-addressed objects made of typed cells over lazily-described layers."""
from . import term as t


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return '&%s+%r' % (self.obj, self.off)


class PIte:
    """a pointer that is p or q depending on a condition"""
    __slots__ = ('c', 'p', 'q')

    def __init__(self, c, p, q):
        self.c = c
        self.p = p
        self.q = q

    def __repr__(self):
        return 'ite(%r,%r,%r)' % (self.c, self.p, self.q)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class MemError(Exception):
    """construct outside the engine's reach (tool limit, not a finding)"""


class Array:
    """a ghost byte array (message contents, buffer contents, ...)"""
    __slots__ = ('name', 'iw', 'uid')

    def __init__(self, name, iw=64):
        self.name = name
        self.uid = t.fresh('array', 1).id       # creation order
        self.iw = iw

    def at(self, idx):
        return t.mk('rd', 8, self, idx)

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------ layers
class Base:
    """content given by a function of the byte index"""

    def __init__(self, fn):
        self.fn = fn

    def byte(self, idx, m):
        return self.fn(idx)


class Bytes:
    """constant data with relocations"""

    def __init__(self, data, relocs=None):
        self.data = data
        self.relocs = relocs or {}

    def read_c(self, off, n, m):
        r = self.relocs.get(off)
        if r is not None and n == 8:
            return r
        for o in self.relocs:
            if o < off + n and off < o + 8:
                raise MemError('partial read of a relocation')
        d = self.data[off:off + n]
        if any(x is None for x in d):
            return UNDEF
        return t.C(int.from_bytes(bytes(d), 'little'), 8 * n)

    def byte(self, idx, m):
        if idx.op == 'c':
            return self.read_c(idx.a[0], 1, m)
        if len(self.data) > 512 or self.relocs:
            raise MemError('symbolic index into a large table')
        hi = t.maxu(idx)
        r = None
        n = min(len(self.data), hi + 1)
        for i in range(n - 1, -1, -1):
            b = t.C(self.data[i] or 0, 8)
            r = b if r is None else t.ite(t.eq(idx, t.C(i, idx.w)), b, r)
        return r


class Cells:
    def __init__(self, cells, below):
        self.cells = cells
        self.below = below


class Copy:
    """bytes [dst, dst+n) come from node src at offset so"""

    def __init__(self, dst, n, src, so, below):
        self.dst = dst
        self.n = n
        self.src = src
        self.so = so
        self.below = below


class Fill:
    def __init__(self, dst, n, val, below):
        self.dst = dst
        self.n = n
        self.val = val
        self.below = below


class Choice:
    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


def as_int(v, m):
    """a stored value as an integer term"""
    if isinstance(v, t.T):
        return v
    if isinstance(v, Ptr):
        return t.add(m.addr(v.obj), v.off)
    if isinstance(v, PIte):
        return t.ite(v.c, as_int(v.p, m), as_int(v.q, m))
    if isinstance(v, FnPtr):
        return t.V('fn@' + v.name, 64)
    raise MemError('not an integer: %r' % (v,))


def find_cell(cells, pos):
    c = cells.get(pos)
    if c is not None:
        return pos, c
    for d in range(1, 32):
        c = cells.get(pos - d)
        if c is not None:
            if c[0] > d:
                return pos - d, c
            return None
    return None


def read_c(node, off, n, m):
    """n bytes at concrete offset"""
    while True:
        if node is None:
            return UNDEF
        k = type(node)
        if k is Cells:
            cells = node.cells
            c = cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            if not cells:
                node = node.below
                continue
            return _asm(cells, node.below, off, n, m)
        if k is Fill or k is Copy:
            d, ln = node.dst, node.n
            if d.op == 'c' and ln.op == 'c':
                lo = d.a[0]
                hi = lo + ln.a[0]
                if off + n <= lo or off >= hi:
                    node = node.below
                    continue
                if lo <= off and off + n <= hi:
                    if k is Fill:
                        v = node.val
                        if v is UNDEF:
                            return UNDEF
                        return t.cat(*([v] * n))
                    if node.so.op == 'c':
                        off = node.so.a[0] + off - lo
                        node = node.src
                        continue
                    return read_s(node.src, t.add(node.so, t.C(off - lo, 64)), n, m)
                # straddles: split
                cut = lo if off < lo else hi
                k1 = cut - off
                a = read_c(node, off, k1, m)
                b = read_c(node, cut, n - k1, m)
                return _join([(k1, a), (n - k1, b)], m)
            w = m.within(node.dst, node.n, t.C(off, 64), n)
            if w is True:
                if k is Fill:
                    return t.cat(*([node.val] * n)) if node.val is not UNDEF else UNDEF
                return read_s(node.src, t.add(node.so, t.sub(t.C(off, 64), node.dst)), n, m)
            if w is False:
                node = node.below
                continue
            parts = []
            for i in range(n):
                parts.append((1, _byte_layer(node, t.C(off + i, 64), m)))
            return _join(parts, m)
        if k is Choice:
            a = read_c(node.a, off, n, m)
            b = read_c(node.b, off, n, m)
            return m.merge_val(node.c, a, b)
        if k is Bytes:
            return node.read_c(off, n, m)
        if k is Base:
            parts = [node.fn(t.C(off + i, 64)) for i in range(n)]
            parts.reverse()
            return t.cat(*parts)
        raise MemError('node %r' % node)


def _join(parts, m):
    """parts low to high [(nbytes, val)]"""
    if len(parts) == 1:
        return parts[0][1]
    if all(v is UNDEF for _, v in parts):
        return UNDEF
    out = []
    for n, v in parts:
        if v is UNDEF:
            v = t.fresh('undef', 8 * n)
        out.append(as_int(v, m))
    out.reverse()
    return t.cat(*out)


def _asm(cells, below, off, n, m):
    pos = off
    end = off + n
    parts = []
    while pos < end:
        f = find_cell(cells, pos)
        if f is not None:
            o, (sz, v) = f
            k = min(o + sz, end) - pos
            if k == sz:
                parts.append((k, v))
            elif v is UNDEF:
                parts.append((k, UNDEF))
            else:
                parts.append((k, t.ext(as_int(v, m), 8 * (pos - o), 8 * k)))
            pos += k
        else:
            g = 1
            while pos + g < end and (pos + g) not in cells:
                g += 1
            parts.append((g, read_c(below, pos, g, m)))
            pos += g
    return _join(parts, m)


def _byte_layer(node, idx, m):
    """one byte at (possibly symbolic) idx of a Copy/Fill node"""
    inside = t.band(t.ule(node.dst, idx), t.ult(t.sub(idx, node.dst), node.n))
    if inside is t.FALSE:
        return read_s(node.below, idx, 1, m)
    if type(node) is Fill:
        a = node.val
    else:
        a = read_s(node.src, t.add(node.so, t.sub(idx, node.dst)), 1, m)
    if inside is t.TRUE:
        return a
    b = read_s(node.below, idx, 1, m)
    if b is UNDEF:
        return a
    if a is UNDEF:
        return b
    return t.ite(inside, as_int(a, m), as_int(b, m))


def read_s(node, off, n, m):
    """n bytes at a term offset"""
    if off.op == 'c':
        return read_c(node, off.a[0], n, m)
    while True:
        if node is None:
            return UNDEF
        k = type(node)
        if k is Cells:
            if not node.cells:
                node = node.below
                continue
            return _sym_cells(node, off, n, m)
        if k is Fill or k is Copy:
            w = m.within(node.dst, node.n, off, n)
            if w is True:
                if k is Fill:
                    return t.cat(*([node.val] * n)) if node.val is not UNDEF else UNDEF
                return read_s(node.src, t.add(node.so, t.sub(off, node.dst)), n, m)
            if w is False:
                node = node.below
                continue
            parts = [(1, _byte_layer(node, t.add(off, t.C(i, 64)), m)) for i in range(n)]
            return _join(parts, m)
        if k is Choice:
            return m.merge_val(node.c, read_s(node.a, off, n, m), read_s(node.b, off, n, m))
        parts = [(1, node.byte(t.add(off, t.C(i, 64)), m)) for i in range(n)]
        return _join(parts, m)


def _sym_cells(node, off, n, m):
    cells = node.cells
    c = m.concretize(off)
    if c is not None:
        return read_c(node, c, n, m)
    total = sum(x[0] for x in cells.values())
    if total > 4096:
        raise MemError('symbolic index over %d bytes of cells' % total)
    # cells that can overlap at all
    parts = []
    for i in range(n):
        idx = t.add(off, t.C(i, 64))
        r = read_s(node.below, idx, 1, m)
        for o in sorted(cells):
            sz, v = cells[o]
            if v is UNDEF:
                continue
            vi = as_int(v, m)
            for j in range(sz):
                b = t.ext(vi, 8 * j, 8)
                cnd = t.eq(idx, t.C(o + j, 64))
                r = b if r is UNDEF else t.ite(cnd, b, r)
        parts.append((1, r))
    return _join(parts, m)


# ------------------------------------------------------------------ objects
class Obj:
    __slots__ = ('id', 'name', 'size', 'align', 'cells', 'below', 'own', 'ro', 'tag')

    def __init__(self, oid, name, size, align, below=None, ro=False, tag=None):
        self.id = oid
        self.name = name
        self.size = size        # int or T(64)
        self.align = align
        self.cells = {}
        self.below = below
        self.own = None
        self.ro = ro
        self.tag = tag

    def clone(self, own):
        o = Obj(self.id, self.name, self.size, self.align, self.below, self.ro, self.tag)
        o.cells = dict(self.cells)
        o.own = own
        return o

    def node(self):
        """immutable snapshot of the content"""
        if not self.cells:
            return self.below
        return Cells(dict(self.cells), self.below)

    def top(self):
        return Cells(self.cells, self.below)

    def write_c(self, off, n, val, m):
        cells = self.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, val)
            return
        self._clear(off, n, m)
        cells[off] = (n, val)

    def _clear(self, off, n, m):
        cells = self.cells
        if not cells:
            return
        f = find_cell(cells, off)
        end = off + n
        if f is not None and f[0] < off:
            o, (sz, v) = f
            del cells[o]
            if v is not UNDEF:
                iv = as_int(v, m)
                self._put(o, t.ext(iv, 0, 8 * (off - o)))
                if o + sz > end:
                    self._put(end, t.ext(iv, 8 * (end - o), 8 * (o + sz - end)))
            else:
                self._put(o, UNDEF, off - o)
                if o + sz > end:
                    self._put(end, UNDEF, o + sz - end)
        if n <= 64:
            rng = [p for p in range(off, end) if p in cells]
        else:
            rng = [p for p in cells if off <= p < end]
        for p in rng:
            sz, v = cells.pop(p)
            if p + sz > end:
                if v is UNDEF:
                    self._put(end, UNDEF, p + sz - end)
                else:
                    self._put(end, t.ext(as_int(v, m), 8 * (end - p), 8 * (p + sz - end)))

    def _put(self, off, v, n=None):
        """store possibly odd-sized remainder"""
        if n is None:
            n = v.w // 8
        self.cells[off] = (n, v)

    def push(self, layer_fn):
        """freeze the current content and put a layer on top"""
        self.below = layer_fn(self.node())
        self.cells = {}
