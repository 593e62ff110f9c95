"""Equality proofs between terms that mention compression-function applications (F) and message chains (H)."""
import random
from . import term as t
from . import spec
from .smt import Env, Unknown

CW = {'b': 128, 's': 64}      # width of the byte counter
KW = {'b': 64, 's': 64}        # chain indices count the blocks of one input, hence fit a machine word


class Chain:
    """H(0) = words0; H(k+1) = F(H(k), block(k), count(k), 0, 0)   -- a definition, hence consistent

    byte(k, i): byte i (int) of block k;  count(k): the counter passed with block k (after adding it)."""

    def __init__(self, name, variant, words0, byte, count):
        self.name = name
        self.variant = variant
        self.words0 = list(words0)
        self.byte = byte
        self.count = count
        self.w = spec.W[variant]
        self.kw = KW[variant]
        self._step = {}

    def H(self, i, k):
        if k.op == 'c' and k.a[0] == 0:
            return self.words0[i]
        return t.mk('H', self.w, i, self, k)

    def Hs(self, k):
        return [self.H(i, k) for i in range(8)]

    def block(self, k):
        nb = self.w // 8
        return [t.cat(*[self.byte(k, nb * j + b) for b in reversed(range(nb))]) for j in range(16)]

    def args(self, k, m=None, cnt=None, f0=None, f1=None):
        w = self.w
        c = self.count(k) if cnt is None else cnt
        z = t.C(0, w)
        return self.Hs(k) + (self.block(k) if m is None else m) + [t.ext(c, 0, w), t.ext(c, w, w), f0 or z, f1 or z]

    def unfold(self, k):
        """H(k) for k != 0, as F(H(k-1), ...)"""
        r = self._step.get(k.id)
        if r is None:
            r = t.mkF(self.variant, self.args(t.sub(k, t.C(1, self.kw))))
            self._step[k.id] = r
        return r

    def eval(self, env, k):
        key = ('H', self.name, id(self), k)
        r = env.hmemo.get(key)
        if r is not None:
            return r
        if k > 4000:
            raise Unknown('chain too long')
        if k == 0:
            r = [env.ev(x) for x in self.words0]
        else:
            # iterative to keep the stack flat
            j = k
            while j > 0 and ('H', self.name, id(self), j) not in env.hmemo:
                j -= 1
            cur = env.hmemo.get(('H', self.name, id(self), j)) or [env.ev(x) for x in self.words0]
            while j < k:
                kj = t.C(j, self.kw)
                m = [env.ev(x) for x in self.block(kj)]
                c = env.ev(self.count(kj))
                mask = (1 << self.w) - 1
                cur = spec.fcompress(self.variant, list(cur) + m + [c & mask, c >> self.w, 0, 0])
                j += 1
                env.hmemo[('H', self.name, id(self), j)] = cur
            r = cur
        env.hmemo[key] = r
        return r

    def __repr__(self):
        return self.name


class Prover:
    def __init__(self, ctx, small=None, nenv=None):
        self.ctx = ctx
        self.small = small or []     # terms to keep small in the sampled environments
        self.nenv = nenv or (8 if getattr(ctx, 'spread', ()) else 3)
        self.cc = {}
        self.depth = 0
        self.envs_cache = {}
        self.fail = None             # last refuting environment
        self.z3_leaf = 0
        self.nest = 0
        self.trace = None
        self.cone = {}
        self.flats, self.keepflat = {}, []

    # ------------------------------------------------------------- sampled environments
    def envs(self, pc):
        r = self.envs_cache.get(id(pc))
        if r is not None and r[0] is pc:
            return r[1]
        sv = self.ctx.sv
        out = []
        bounds = [1 << 9, 1 << 11, 1 << 14, None]
        vars_ = self.small
        spread = list(getattr(self.ctx, 'spread', ()))
        for b in bounds:
            for rr in range(self.nenv):
                extra = []
                if b is not None:
                    extra = [t.ule(x, t.C(b, x.w)) for x in vars_]
                if sv.check(pc, tuple(extra), timeout=4000) == 'unsat':
                    break
                rnd = random.Random(rr * 1000003 + (b or 0))
                # pin the interesting terms to scattered values as far as the path condition allows
                order = list(vars_)
                rnd.shuffle(order)
                for x in order + spread if (rr or spread) else []:
                    for lo, n in ((0, min(10, x.w)), (min(7, x.w - 1), min(6, x.w - 7))):
                        if n <= 0 or b is None:
                            continue
                        q = t.eq(t.ext(x, lo, n), t.C(rnd.getrandbits(n), n))
                        if sv.check(pc, tuple(extra + [q]), timeout=1500) == 'sat':
                            extra.append(q)
                            break
                res = sv.check(pc, tuple(extra), want_model=True, timeout=4000)
                if res == 'sat' and sv.model is not None:
                    e = Env(sv, sv.model, seed=rr + 17 * len(out))
                    self.constrain(e, pc)
                    out.append(e)
                    if not vars_ and len(out) >= self.nenv:
                        break
                elif res == 'unsat':
                    break
            if len(out) >= self.nenv:
                break
        self.envs_cache[id(pc)] = (pc, out)
        return out

    def constrain(self, env, pc):
        """arrays mentioned in the path condition must take the model's values"""
        n = pc
        roots = []
        while n is not None:
            roots.append(n.cond)
            n = n.parent
        env.fixed = {x.a[0] for x in self.small if x.op == 'v'}
        for x in t.topo(roots):
            if x.op == 'rd':
                env.constrained.add(x.a[0].name)
            elif x.op == 'v':
                env.fixed.add(x.a[0])
        for x in t.topo(self.small + list(getattr(self.ctx, 'spread', ()))):
            if x.op == 'v':
                env.fixed.add(x.a[0])

    def sig(self, n, envs):
        out = []
        for e in envs:
            try:
                out.append(e.ev(n))
            except Unknown:
                out.append(('?', n.id))
        return tuple(out)

    # ------------------------------------------------------------- main entry
    def equal(self, st, pairs):
        """prove all pairs equal under st's path condition -> True | False (refuted by evaluation) | None"""
        todo = [(a, b) for a, b in pairs if a is not b]
        if not todo:
            return True
        pc = st.pc
        envs = self.envs(pc)
        if not envs:
            # path condition unsatisfiable or unknown
            if self.ctx.sv.check(pc, ()) == 'unsat':
                return True
        for a, b in todo:
            for e in envs:
                try:
                    if e.ev(a) != e.ev(b):
                        self.fail = (e, a, b)
                        return False
                except Unknown:
                    pass
        rep = {}
        roots = [x for p in todo for x in p]
        self.sweep(st, roots, envs, rep)
        ok = True
        for a, b in todo:
            x, y = rep.get(a.id, a), rep.get(b.id, b)
            if x is y:
                continue
            if not self.leaf(st, x, y, envs):
                ok = None
                self.bad = (x, y)
                if self.depth == 0 and self.refute(st, x, y):
                    ok = False
                break
        return ok

    # ------------------------------------------------------------- a difference no evaluation reaches (lengths too large to run)
    def refute(self, st, x, y, depth=0):
        """do x and y differ for some values?  F is taken to be injective in counter, flags and block (they differ unless
        the compression function collides); chains are only compared by their index"""
        if x is y or depth > 10:
            return False
        for p, q in ((x, y), (y, x)):
            if p.op == 'ite' and (self.hasFH(p) or self.hasFH(q)):
                for c, r in ((p.a[0], p.a[1]), (t.bnot(p.a[0]), p.a[2])):
                    if self.hasFH(c):
                        continue
                    s2 = st.fork()
                    s2.assume(c)
                    if self.ctx.sv.check(s2.pc, (), timeout=4000) == 'sat' and self.refute(s2, r, self.prune(q, p.a[0], r is p.a[1]), depth + 1):
                        return True
                return False
        if x.op == 'F' and y.op == 'F':
            if x.a[0] != y.a[0] or x.a[1].variant != y.a[1].variant:
                return False
            # a difference in the chaining words alone settles nothing unless it is the same question again
            ar = list(zip(x.a[1].args, y.a[1].args))
            for p, q in ar[8:]:
                if p is not q and not self.hasFH(p) and not self.hasFH(q) and self.refute(st, p, q, depth + 1):
                    return True
            p, q = ar[0]
            return p is not q and p.op == q.op == 'F' and self.refute(st, p, q, depth + 1)
        if x.op == 'H' and y.op == 'H':
            return x.a[0] == y.a[0] and x.a[1] is y.a[1] and self.refute(st, x.a[2], y.a[2], depth + 1)
        if x.op == 'cat' and y.op == 'cat' and [p.w for p in x.a] == [p.w for p in y.a]:
            return any(self.refute(st, p, q, depth + 1) for p, q in zip(x.a, y.a))
        if self.hasFH(x) or self.hasFH(y):
            return False
        n = st.pc
        while n is not None:
            if self.hasFH(n.cond):
                return False
            n = n.parent
        if self.ctx.sv.check(st.pc, (t.ne(x, y),), timeout=6000) == 'unsat':
            return False
        if self.ctx.sv.check(st.pc, (t.ne(x, y),), want_model=True, timeout=6000) != 'sat' or self.ctx.sv.model is None:
            return False
        self.fail = (Env(self.ctx.sv, self.ctx.sv.model), x, y)
        return True

    def sweep(self, st, roots, envs, rep):
        classes = {}
        budget = [6000]
        for n in t.topo(roots):
            if n.id in rep:
                continue
            ch = t.children(n)
            m = n
            if ch:
                nc = tuple(rep.get(c.id, c) for c in ch)
                if any(x is not y for x, y in zip(ch, nc)):
                    m = t.rebuild(n, nc)
            if m.op == 'c':
                rep[n.id] = m
                continue
            if m.w >= 8:
                key = (m.w, self.sig(m, envs))
                lst = classes.setdefault(key, [])
                hit = None
                for r in lst:
                    if r is m:
                        hit = r
                        break
                if hit is None and len(lst) < 16 and budget[0] > 0:
                    for r in lst:
                        budget[0] -= 1
                        if self.leaf(st, r, m, envs):
                            hit = r
                            break
                        if self.trace is not None:
                            self.trace(r, m)
                if hit is None:
                    lst.append(m)
                    hit = m
                rep[n.id] = hit
            else:
                rep[n.id] = m

    # ------------------------------------------------------------- one equality, arguments already normalised
    def leaf(self, st, x, y, envs):
        if x is y:
            return True
        if x.op == 'F' and y.op == 'F':
            if x.a[0] != y.a[0] or x.a[1].variant != y.a[1].variant:
                return False
            return all(p is q or self.leaf(st, p, q, envs) for p, q in zip(x.a[1].args, y.a[1].args))
        if x.op == 'H' or y.op == 'H':
            return self.leafH(st, x, y, envs)
        if x.op == 'F' or y.op == 'F':
            f, o = (x, y) if x.op == 'F' else (y, x)
            if o.op in ('v', 'c', 'rd'):
                return False
            if o.op == 'ite':
                return self.split(st, o.a[0], x, y, envs)
            return self.expandF(st, f, o, envs)
        if x.op == 'cat' and y.op == 'cat' and len(x.a) == len(y.a) and all(p.w == q.w for p, q in zip(x.a, y.a)):
            if all(p is q or self.leaf(st, p, q, envs) for p, q in zip(x.a, y.a)):
                return True
            return False
        if x.op == 'rd' and y.op == 'rd' and x.a[0] is y.a[0]:
            return self.z3(st, x.a[1], y.a[1])
        if x.op == y.op and x.op in ('ite', 'eq', 'ult', 'xor', 'and', 'or', 'ext') and len(x.a) == len(y.a) and self.nest < 8:
            cx, cy = t.children(x), t.children(y)
            if [p.w for p in cx] == [p.w for p in cy] and (x.op != 'ext' or x.a[1] == y.a[1]):
                self.nest += 1
                try:
                    if all(p is q or self.plausible(p, q, envs) for p, q in zip(cx, cy)) and \
                            all(p is q or self.leaf(st, p, q, envs) for p, q in zip(cx, cy)):
                        return True
                finally:
                    self.nest -= 1
        for p, q in ((x, y), (y, x)):
            if p.op == 'ite':
                d = self.cond(st, p.a[0], envs)
                if d is not None:
                    return self.leaf(st, p.a[1] if d else p.a[2], q, envs)
        for p in (x, y):
            if p.op == 'ite' and self.hasFH(p):
                return self.split(st, p.a[0], x, y, envs)
        return self.z3(st, x, y)

    def cond(self, st, c, envs):
        """is c decided under the path condition?  comparisons of one term with constants share a bound"""
        if c.op == 'c':
            return bool(c.a[0])
        neg = False
        if c.op == 'xor' and c.a[-1] is t.TRUE and len(c.a) == 2:
            c = c.a[0]
            neg = True
        seen = set()
        for e in envs:
            try:
                seen.add(e.ev(c))
            except Unknown:
                pass
        if len(seen) == 2:
            return None
        key = (id(st.pc), 'cond', c.id)
        r = self.cc.get(key)
        if r is not None and r[0] is st.pc:
            v = r[1]
        else:
            v = self._cond(st, c, seen)
            self.cc[key] = (st.pc, v)
        return v if v is None or not neg else not v

    def _cond(self, st, c, seen):
        sv = self.ctx.sv
        if c.op == 'ult' and (c.a[0].op == 'c') != (c.a[1].op == 'c'):
            k, X = (c.a[0].a[0], c.a[1]) if c.a[0].op == 'c' else (c.a[1].a[0], c.a[0])
            key = (id(st.pc), 'bnd', X.id)
            r = self.cc.get(key)
            if r is None or r[0] is not st.pc:
                r = (st.pc, [0, (1 << X.w) - 1])
                self.cc[key] = r
            b = r[1]
            if c.a[0].op == 'c':      # k < X
                if k < b[0]:
                    return True
                if k >= b[1]:
                    return False
                if 1 in seen or not seen:
                    for g in (127, 63, k):
                        if g >= k and g < (1 << X.w) - 1 and sv.check(st.pc, (t.ule(X, t.C(g, X.w)),), timeout=4000) == 'unsat':
                            b[0] = max(b[0], g + 1)
                            return True
                if 0 in seen or not seen:
                    if sv.check(st.pc, (t.ult(t.C(k, X.w), X),), timeout=4000) == 'unsat':
                        b[1] = min(b[1], k)
                        return False
                return None
            # X < k
            if b[1] < k:
                return True
            if b[0] >= k:
                return False
        if (1 in seen or not seen) and sv.check(st.pc, (t.bnot(c),), timeout=4000) == 'unsat':
            return True
        if (0 in seen or not seen) and sv.check(st.pc, (c,), timeout=4000) == 'unsat':
            return False
        return None

    def plausible(self, p, q, envs):
        for e in envs:
            try:
                if e.ev(p) != e.ev(q):
                    return False
            except Unknown:
                pass
        return True

    def big(self, x, lim=220):
        """more than lim nodes below x"""
        r = self.cone.get(x.id)
        if r is None:
            seen = {x.id}
            work = [x]
            while work and len(seen) <= lim:
                for c in t.children(work.pop()):
                    if c.id not in seen:
                        seen.add(c.id)
                        work.append(c)
            r = self.cone[x.id] = len(seen) > lim
        return r

    def z3(self, st, x, y):
        if x.op in ('add', 'xor', 'cat', 'ext') and self.big(x) and self.big(y):
            # deep arithmetic: equality must come from merging below
            return False
        if x.w >= 8:
            # constants cancel: one query serves every byte of a block
            d = self.flat(t.sub(self.unzext(st, x), self.unzext(st, y)))
            if d.op == 'c':
                return d.a[0] == 0
            x, y = d, t.C(0, x.w)
        key = (id(st.pc), x.id, y.id)
        r = self.cc.get(key)
        if r is not None and r[0] is st.pc:
            return r[1]
        self.z3_leaf += 1
        v = self.ctx.sv.check(st.pc, (t.ne(x, y),), timeout=6000) == 'unsat'
        self.cc[key] = (st.pc, v)
        return v

    def flat(self, x):
        """sums inside zero extensions, where they cannot wrap, become part of the sum around them"""
        r = self.flats.get(x.id)
        if r is not None:
            return r
        r = x
        if x.op == 'add':
            r = t.C(x.a[0], x.w)
            for y, k in x.a[1]:
                r = t.add(r, t.mulc(self.flat(y), k))
        elif x.op == 'cat' and x.a[0].op == 'c' and x.a[0].a[0] == 0 and len(x.a) == 2 and x.a[1].op == 'add':
            y = self.flat(x.a[1])
            r = t.zext(y, x.w)
            if y.op == 'add' and y.a[0] + sum(k * t.maxu(z) for z, k in y.a[1]) < 1 << y.w:
                r = t.C(y.a[0], x.w)
                for z, k in y.a[1]:
                    r = t.add(r, t.mulc(t.zext(z, x.w), k))
        self.flats[x.id] = r
        self.keepflat.append((x, r))
        return r

    def unzext(self, st, x):
        """zext(A + c) as zext(A) + c where the sum cannot wrap"""
        if x.op == 'cat' and len(x.a) == 2 and x.a[0].op == 'c' and x.a[0].a[0] == 0 and x.a[1].op == 'add':
            y = x.a[1]
            c = y.a[0]
            if 0 < c < 256:
                A = t.sub(y, t.C(c, y.w))
                key = (id(st.pc), 'nowrap', A.id)
                r = self.cc.get(key)
                if r is None or r[0] is not st.pc:
                    v = self.ctx.sv.check(st.pc, (t.ult(t.C(-256, y.w), A),), timeout=6000) == 'unsat'
                    r = self.cc[key] = (st.pc, v)
                if r[1]:
                    return t.add(t.zext(A, x.w), t.C(c, x.w))
        return x

    def hasFH(self, p):
        for n in t.topo([p]):
            if n.op in ('F', 'H'):
                return True
        return False

    def split(self, st, c, x, y, envs):
        if self.depth > 12:
            return False
        self.depth += 1
        try:
            for cc in (c, t.bnot(c)):
                s2 = st.fork()
                s2.assume(cc)
                if self.ctx.sv.check(s2.pc, ()) == 'unsat':
                    continue
                px = self.prune(x, c, cc is c)
                py = self.prune(y, c, cc is c)
                if self.equal(s2, [(px, py)]) is not True:
                    return False
            return True
        finally:
            self.depth -= 1

    def prune(self, x, c, val):
        return t.subst([x], {c: t.B(val)})[0]

    def expandF(self, st, f, o, envs):
        """F application against a raw expression: expand the definition of F"""
        app = f.a[1]
        if app.exp is None:
            app.exp = spec.expand(app.variant, app.args)
        e = app.exp[f.a[0]]
        if e is o:
            return True
        if self.depth > 6:
            return False
        self.depth += 1
        try:
            rep = {}
            self.sweep(st, [e, o], envs, rep)
            return rep.get(e.id, e) is rep.get(o.id, o)
        finally:
            self.depth -= 1

    def leafH(self, st, x, y, envs):
        if x.op != 'H':
            x, y = y, x
        i, ch, k = x.a
        if y.op == 'H':
            i2, ch2, k2 = y.a
            if ch is ch2:
                if i != i2:
                    return False
                return self.z3(st, k, k2)
            if i == i2 and ch.variant == ch2.variant:
                if self.chains(st, ch, k, ch2, k2):
                    return True
        if y.op == 'ite':
            return self.split(st, y.a[0], x, y, envs)
        if self.depth > 6:
            return False
        self.depth += 1
        try:
            zero = t.eq(k, t.C(0, k.w))
            d = self.ctx.decide(st, zero)
            if d is True:
                return self.equal(st, [(ch.words0[i], y)]) is True
            if d is False:
                if y.op not in ('F', 'H') and y.op not in ('add', 'xor'):
                    return False
                return self.equal(st, [(ch.unfold(k)[i], y)]) is True
            for c in (zero, t.bnot(zero)):
                s2 = st.fork()
                s2.assume(c)
                if c is zero:
                    r = self.equal(s2, [(ch.words0[i], y)])
                else:
                    r = self.equal(s2, [(ch.unfold(k)[i], y)])
                if r is not True:
                    return False
            return True
        finally:
            self.depth -= 1

    def chains(self, st, c1, k1, c2, k2):
        """H1(k1) == H2(k2) by induction along the shorter chain"""
        key = ('ch', id(st.pc), id(c1), k1.id, id(c2), k2.id)
        r = self.cc.get(key)
        if r is not None and r[0] is st.pc:
            return r[1]
        self.cc[key] = (st.pc, False)
        v = False
        if self.depth <= 4:
            self.depth += 1
            try:
                v = self._chains(st, c1, k1, c2, k2) or self._chains(st, c2, k2, c1, k1)
            finally:
                self.depth -= 1
        self.cc[key] = (st.pc, v)
        return v

    def _chains(self, st, c1, k1, c2, k2):
        # index map j -> j + d, d = k2 - k1; base H1(0) = H2(d)
        d = t.sub(k2, k1)
        if self.ctx.sv.check(st.pc, (t.ult(k2, k1),)) != 'unsat':
            return False
        if d.op != 'c':
            self.ctx.cur = st
            c = self.ctx.concretize(d)
            if c is not None:
                d = t.C(c, d.w)
        if self.equal(st, list(zip(c1.words0, c2.Hs(d)))) is not True:
            return False
        s2 = st.fork()
        j = t.fresh('ind', c1.kw)
        s2.assume(t.ult(j, k1))
        jd = t.add(j, d)
        pairs = [(c1.count(j), c2.count(jd))]
        for i in range(spec.BLOCK[c1.variant]):
            pairs.append((c1.byte(j, i), c2.byte(jd, i)))
        return self.equal(s2, pairs) is True
