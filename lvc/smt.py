"""Bridge to Z3: satisfiability of path conditions, models, validity of goals."""
import time
import z3
from . import term as t


class Unknown(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.hits = 0
        self.by = {}


class Solver:
    def __init__(self, timeout_ms=20000, seed=1):
        self.ctx = z3.Context()
        self.s = z3.Solver(ctx=self.ctx)
        self.s.set('timeout', timeout_ms)
        self.s.set('random_seed', seed)
        self.timeout_ms = timeout_ms
        self.memo = {}
        self.keep = []
        self.funs = {}
        self.stack = []
        self.stats = Stats()
        self.cache = {}
        self.acache = {}
        self._syms = {}
        self._min = {}
        self._ax = {}
        self.minax = {}
        self.last_pc = None
        self.models = []          # recent environments (Env) used as quick SAT witnesses

    # ---- translation
    def bv(self, x):
        """term -> z3 bit-vector expression"""
        m = self.memo
        r = m.get(x.id)
        if r is not None:
            return r
        for n in t.topo([x]) if x.op != 'c' else [x]:
            if n.id not in m:
                m[n.id] = self._tr(n)
                self.keep.append(n)
        return m[x.id]

    def fun(self, name, *ws):
        f = self.funs.get(name)
        if f is None:
            f = z3.Function(name, *[z3.BitVecSort(w, self.ctx) for w in ws])
            self.funs[name] = f
        return f

    def _b(self, cond):
        return z3.If(cond, z3.BitVecVal(1, 1, self.ctx), z3.BitVecVal(0, 1, self.ctx))

    def _tr(self, n):
        op = n.op
        m = self.memo
        g = lambda y: m[y.id]
        if op == 'c':
            return z3.BitVecVal(n.a[0], n.w, self.ctx)
        if op == 'v':
            return z3.BitVec('v!' + n.a[0], n.w, self.ctx)
        if op == 'add':
            full = 1 << n.w
            r = z3.BitVecVal(n.a[0], n.w, self.ctx) if n.a[0] else None
            for x, c in n.a[1]:
                y = g(x)
                if c == full - 1:
                    r = -y if r is None else r - y
                    continue
                if c != 1:
                    y = y * z3.BitVecVal(c, n.w, self.ctx)
                r = y if r is None else r + y
            return r
        if op == 'mul':
            return g(n.a[0]) * g(n.a[1])
        if op == 'udiv':
            return z3.UDiv(g(n.a[0]), g(n.a[1]))
        if op == 'urem':
            return z3.URem(g(n.a[0]), g(n.a[1]))
        if op == 'sdiv':
            return g(n.a[0]) / g(n.a[1])
        if op == 'srem':
            return z3.SRem(g(n.a[0]), g(n.a[1]))
        if op in ('and', 'or', 'xor'):
            r = g(n.a[0])
            for x in n.a[1:]:
                y = g(x)
                r = r & y if op == 'and' else r | y if op == 'or' else r ^ y
            return r
        if op == 'cat':
            return z3.Concat(*[g(x) for x in n.a])
        if op == 'ext':
            lo = n.a[1]
            return z3.Extract(lo + n.w - 1, lo, g(n.a[0]))
        if op == 'sext':
            return z3.SignExt(n.w - n.a[0].w, g(n.a[0]))
        if op == 'shl':
            return g(n.a[0]) << g(n.a[1])
        if op == 'lshr':
            return z3.LShR(g(n.a[0]), g(n.a[1]))
        if op == 'ashr':
            return g(n.a[0]) >> g(n.a[1])
        if op == 'eq':
            return self._b(g(n.a[0]) == g(n.a[1]))
        if op == 'ult':
            return self._b(z3.ULT(g(n.a[0]), g(n.a[1])))
        if op == 'slt':
            return self._b(g(n.a[0]) < g(n.a[1]))
        if op == 'ite':
            ls = self.minimum(n)
            if len(ls) > 2:
                # a name for the minimum, and what makes it one, instead of the nest of comparisons
                r = z3.BitVec('min!%d' % n.id, n.w, self.ctx)
                zl = [self.bv(x) for x in ls]
                self.minax[n.id] = [z3.ULE(r, z) for z in zl] + [z3.Or(*[r == z for z in zl])]
                return r
            return z3.If(g(n.a[0]) == 1, g(n.a[1]), g(n.a[2]))
        if op == 'rd':
            arr, idx = n.a
            return self.fun('rd!' + arr.name, idx.w, 8)(g(idx))
        if op == 'H':
            i, ch, k = n.a
            return self.fun('H!%s!%d' % (ch.name, i), k.w, n.w)(g(k))
        if op == 'F':
            return z3.BitVec('F!%d' % n.id, n.w, self.ctx)
        if op == 'uf':
            name = n.a[0]
            args = [x for x in n.a[1:] if isinstance(x, t.T)]
            f = self.fun('uf!' + str(name), *([x.w for x in args] + [n.w]))
            return f(*[g(x) for x in args])
        raise Unknown('smt: %s' % op)

    def minimum(self, n):
        """the terms n is the minimum of, [n] if it is no nest of minima"""
        r = self._min.get(n.id)
        if r is None:
            r = [n]
            if n.op == 'ite':
                c, p, q = n.a
                if c.op == 'xor' and c.a[-1] is t.TRUE and len(c.a) == 2:
                    c, p, q = c.a[0], q, p
                # ite(p < q, p, q), ite(not q < p, p, q)
                if c.op == 'ult' and p is not q and ((c.a[0] is p and c.a[1] is q)):
                    r = []
                    for y in (p, q):
                        for z in self.minimum(y):
                            if not any(z is w for w in r):
                                r.append(z)
            self._min[n.id] = r
        return r

    def axioms(self, c):
        """what the names in the translation of c stand for"""
        r = self._ax.get(c.id)
        if r is None:
            self.bv(c)
            r = []
            for n in t.topo([c]):
                if n.id in self.minax:
                    r.extend(self.minax[n.id])
            self._ax[c.id] = r
            self.keep.append(c)
        return r

    def boolz(self, c):
        """1-bit term as z3 Bool, with structure"""
        op = c.op
        if op == 'eq':
            return self.bv(c.a[0]) == self.bv(c.a[1])
        if op == 'ult':
            return z3.ULT(self.bv(c.a[0]), self.bv(c.a[1]))
        if op == 'slt':
            return self.bv(c.a[0]) < self.bv(c.a[1])
        if op == 'and':
            return z3.And(*[self.boolz(x) for x in c.a])
        if op == 'or':
            return z3.Or(*[self.boolz(x) for x in c.a])
        if op == 'xor' and c.a[-1] is t.TRUE and len(c.a) == 2:
            return z3.Not(self.boolz(c.a[0]))
        if op == 'c':
            return z3.BoolVal(bool(c.a[0]), self.ctx)
        return self.bv(c) == 1

    # ---- path handling
    def sync(self, pc):
        """make the solver's assertion stack equal to the path condition (a linked list)"""
        want = []
        n = pc
        while n is not None:
            want.append(n)
            n = n.parent
        want.reverse()
        i = 0
        while i < len(want) and i < len(self.stack) and self.stack[i] is want[i]:
            i += 1
        if i < len(self.stack):
            self.s.pop(len(self.stack) - i)
            del self.stack[i:]
        for n in want[i:]:
            z = self.boolz(n.cond)
            self.s.push()
            self.s.add(z, *self.axioms(n.cond))
            self.stack.append(n)

    def check(self, pc, extra=(), want_model=False, timeout=None, roots=()):
        """-> 'sat' | 'unsat' | 'unknown'"""
        for c in extra:
            if c is t.FALSE:
                return 'unsat'
        key = (id(pc), tuple(c.id for c in extra))
        if not want_model:
            r = self.cache.get(key)
            if r is not None and r[0] is pc:
                return r[1]
        t0 = time.time()
        ck = None
        pc1 = pc
        base = []
        if (extra or roots) and (roots or not want_model):
            # only the facts that share symbols with the question (transitively) matter
            sl, nf = self.slice(pc, list(extra) + list(roots))
            if not want_model:
                ck = self.alpha(sl, extra)
                r = self.acache.get(ck)
                if r is not None:
                    self.cache[key] = (pc, r)
                    self.stats.hits += 1
                    return r
            if 2 * len(sl) < nf and self.last_pc is not pc:
                if self.stack:
                    self.s.pop(len(self.stack))
                    del self.stack[:]
                base = sl
                pc1 = None
        zs = [self.boolz(c) for c in base] + [self.boolz(c) for c in extra if c is not t.TRUE]
        for c in base + list(extra) + list(roots):
            zs.extend(self.axioms(c))
        self.last_pc = pc
        if pc1 is not None:
            self.sync(pc)
        self.s.push()
        for z in zs:
            self.s.add(z)
        full = timeout or self.timeout_ms
        self.model = None
        r = 'unknown'
        # incremental for a moment, then a fresh solver with the bit-vector tactic, then incremental for the full time
        for step in (min(full, 400), None, full):
            if step is None:
                self.model = None
                r = self._second(pc1, zs, timeout)
            else:
                self.s.set('timeout', step)
                r = str(self.s.check())
                if r == 'sat':
                    self.model = self.s.model()
            if r != 'unknown' or full <= 400:
                break
        self.s.set('timeout', self.timeout_ms)
        self.s.pop()
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        if r == 'unknown':
            self.stats.unknown += 1
        self.cache[key] = (pc, r)
        if ck is not None and r != 'unknown':
            self.acache[ck] = r
        return r

    def syms(self, c):
        r = self._syms.get(c.id)
        if r is None:
            s = set()
            for n in t.topo([c]):
                op = n.op
                if op == 'v' or op == 'F':
                    s.add(n.id)
                elif op == 'rd':
                    s.add('rd!' + n.a[0].name)
                elif op == 'H':
                    s.add('H!' + n.a[1].name)
                elif op == 'uf':
                    s.add('uf!' + str(n.a[0]))
            r = self._syms[c.id] = frozenset(s)
        return r

    def slice(self, pc, roots):
        want = set()
        for c in roots:
            want |= self.syms(c)
        rest = []
        n = pc
        seen = set()
        while n is not None:
            if n.cond.id not in seen:
                seen.add(n.cond.id)
                rest.append((self.syms(n.cond), n.cond))
            n = n.parent
        rest.reverse()
        inn = [False] * len(rest)
        more = True
        while more:
            more = False
            for i, (s, c) in enumerate(rest):
                # a fact without symbols is kept (it may be false)
                if not inn[i] and (not s or not s.isdisjoint(want)):
                    inn[i] = True
                    if not s <= want:
                        want |= s
                        more = True
        return [c for i, (s, c) in enumerate(rest) if inn[i]], len(rest)

    def alpha(self, facts, extra):
        """the question up to renaming of its symbols"""
        roots = list(facts) + list(extra)
        num, ix, out = {}, {}, []
        for n in t.topo(roots):
            op = n.op
            if op == 'v' or op == 'F':
                e = (op, n.w, num.setdefault(n.id, len(num)))
            elif op == 'c':
                e = (op, n.w, n.a[0])
            elif op == 'add':
                e = (op, n.w, n.a[0]) + tuple((ix[x.id], k) for x, k in n.a[1])
            elif op == 'rd':
                e = (op, num.setdefault('rd!%s!%d' % (n.a[0].name, n.a[1].w), len(num)), ix[n.a[1].id])
            elif op == 'H':
                e = (op, n.w, num.setdefault('H!%s!%d' % (n.a[1].name, n.a[0]), len(num)), ix[n.a[2].id])
            else:
                e = (op, n.w) + tuple((0, ix[y.id]) if isinstance(y, t.T) else (1, y) for y in n.a)
            ix[n.id] = len(out)
            out.append(e)
        return (tuple(out), tuple(ix[c.id] for c in roots), len(extra))

    def _second(self, pc, zs, timeout):
        s = z3.SolverFor('QF_UFBV', ctx=self.ctx)
        s.set('timeout', (timeout or self.timeout_ms) * 2)
        n = pc
        while n is not None:
            s.add(self.boolz(n.cond), *self.axioms(n.cond))
            n = n.parent
        for z in zs:
            s.add(z)
        r = str(s.check())
        if r == 'sat':
            self.model = s.model()
        return r

    def env(self):
        return Env(self, self.model)


class Env:
    """A concrete assignment: variables from a model (or given), ghost arrays from the model or pseudo-random."""

    def __init__(self, solver=None, model=None, vals=None, seed=0, arrays=None):
        self.solver = solver
        self.model = model
        self.vals = dict(vals or {})
        self.seed = seed
        self.memo = {}
        self.hmemo = {}
        self.arrays = arrays or {}
        self.constrained = set()     # array names fixed by the model
        self.fixed = None            # variables fixed by the model (None: all)

    def var(self, n):
        name = n.a[0]
        v = self.vals.get(name)
        if v is None:
            if self.model is not None and (self.fixed is None or name in self.fixed):
                v = self.model.eval(self.solver.bv(n), model_completion=True).as_long()
            else:
                import hashlib
                v = int.from_bytes(hashlib.blake2b(('%s/%d' % (name, self.seed)).encode(), digest_size=32).digest(), 'little') & ((1 << n.w) - 1)
            self.vals[name] = v
        return v

    def rd(self, arr, idx):
        a = self.arrays.get(arr.name)
        if a is not None:
            return a(idx)
        f = self.solver.funs.get('rd!' + arr.name) if self.solver is not None else None
        if self.model is not None and f is not None and (arr.name in self.constrained):
            import z3 as _z
            return self.model.eval(f(_z.BitVecVal(idx, f.domain(0).size(), self.solver.ctx)), model_completion=True).as_long()
        x = (idx * 0x9E3779B97F4A7C15 + hash(arr.name) * 0 + self.seed * 0x1234567 + len(arr.name) * 77) & ((1 << 64) - 1)
        for c in arr.name:
            x = (x * 31 + ord(c)) & ((1 << 64) - 1)
        x ^= x >> 29
        x = x * 0xBF58476D1CE4E5B9 & ((1 << 64) - 1)
        return (x >> 37) & 0xff

    def ev(self, x):
        m = self.memo
        r = m.get(x.id)
        if r is not None:
            return r
        st = [x]
        while st:
            n = st[-1]
            if n.id in m:
                st.pop()
                continue
            todo = [c for c in t.children(n) if c.id not in m]
            if todo:
                st.extend(todo)
            else:
                m[n.id] = self._ev(n)
                st.pop()
        return m[x.id]

    def _ev(self, n):
        op = n.op
        m = self.memo
        if op == 'c':
            return n.a[0]
        if op == 'v':
            return self.var(n)
        w = n.w
        full = (1 << w) - 1
        if op == 'add':
            r = n.a[0]
            for x, c in n.a[1]:
                r += c * m[x.id]
            return r & full
        if op == 'cat':
            r = 0
            for x in n.a:
                r = (r << x.w) | m[x.id]
            return r
        if op == 'ext':
            return (m[n.a[0].id] >> n.a[1]) & full
        if op == 'xor':
            r = 0
            for x in n.a:
                r ^= m[x.id]
            return r
        if op == 'and':
            r = full
            for x in n.a:
                r &= m[x.id]
            return r
        if op == 'or':
            r = 0
            for x in n.a:
                r |= m[x.id]
            return r
        if op == 'ite':
            return m[n.a[1].id] if m[n.a[0].id] else m[n.a[2].id]
        if op == 'eq':
            return int(m[n.a[0].id] == m[n.a[1].id])
        if op == 'ult':
            return int(m[n.a[0].id] < m[n.a[1].id])
        sg = lambda v, ww: v - (1 << ww) if v >> (ww - 1) else v
        if op == 'slt':
            ww = n.a[0].w
            return int(sg(m[n.a[0].id], ww) < sg(m[n.a[1].id], ww))
        if op == 'sext':
            return sg(m[n.a[0].id], n.a[0].w) & full
        if op == 'mul':
            return m[n.a[0].id] * m[n.a[1].id] & full
        if op == 'udiv':
            b = m[n.a[1].id]
            return m[n.a[0].id] // b if b else full
        if op == 'urem':
            b = m[n.a[1].id]
            return m[n.a[0].id] % b if b else m[n.a[0].id]
        if op == 'shl':
            b = m[n.a[1].id]
            return (m[n.a[0].id] << b) & full if b < w else 0
        if op == 'lshr':
            b = m[n.a[1].id]
            return m[n.a[0].id] >> b if b < w else 0
        if op == 'rd':
            return self.rd(n.a[0], m[n.a[1].id])
        if op == 'F':
            f = n.a[1]
            from . import spec
            k = ('F', id(f))
            o = self.hmemo.get(k)
            if o is None:
                o = spec.fcompress(f.variant, [m[x.id] for x in f.args])
                self.hmemo[k] = o
            return o[n.a[0]]
        if op == 'H':
            i, ch, k = n.a
            return ch.eval(self, m[k.id])[i]
        if op == 'uf':
            import hashlib
            s = repr((n.a[0], [m[x.id] if isinstance(x, t.T) else x for x in n.a[1:]], self.seed))
            return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=32).digest(), 'little') & full
        raise Unknown('eval: %s' % op)
