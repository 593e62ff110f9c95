"""Loop rule: one symbolic iteration from an arbitrary k-th state, with the invariant

    for every live location x:  x == g_x(k)      k <= J

The closed forms g_x are proposed (linear progressions, the chains of the specification, halves of the byte counter);
they are accepted only if they hold on entry and every back edge re-establishes them.  Locations without a form are
arbitrary.  Nothing is unrolled and k has no bound."""
from . import term as t
from . import ir
from .mem import *
from .exec import *
from .exec import short
from .prove import Prover, KW


class Lin:
    """x0 + d*k"""

    def __init__(self, x0, d, c):
        self.x0, self.d, self.c = x0, d, c

    def at(self, k):
        w = self.x0.w
        kk = t.sub(k, t.C(self.c, k.w)) if self.c else k
        kw = t.ext(kk, 0, w) if w <= kk.w else t.zext(kk, w)
        return t.add(self.x0, t.mul(kw, self.d))


class LinPtr:
    def __init__(self, p, lin):
        self.p, self.lin = p, lin

    def at(self, k):
        return Ptr(self.p.obj, self.lin.at(k))


class Fam:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def at(self, k):
        return self.f(k)


class Havoc:
    def __init__(self, w):
        self.w = w


class LoopSpec:
    """what a task proposes: families k -> term, upper bounds J for k, terms to keep small when sampling"""

    def __init__(self, kw, families=(), bounds=(), small=(), max_c=2, hints=None):
        self.kw = kw
        self.families = list(families)     # (name, width, fn(k))
        self.bounds = list(bounds)
        self.small = list(small)
        self.max_c = max_c
        self.hints = hints                 # k -> facts worth proving once and then assuming


def _vals(x, y):
    """pair up scalar leaves of two register values -> list of (path, a, b) or None"""
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y):
        r = []
        for i, (p, q) in enumerate(zip(x, y)):
            s = _vals(p, q)
            if s is None:
                return None
            r += [((i,) + a, b, c) for a, b, c in s]
        return r
    return [((), x, y)]


def _put(x, path, v):
    if not path:
        return v
    l = list(x)
    l[path[0]] = _put(l[path[0]], path[1:], v)
    return l if isinstance(x, list) else tuple(l)


def _get(x, path):
    for i in path:
        x = x[i]
    return x


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and a.off is b.off
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(_same(p, q) for p, q in zip(a, b))
    return False


def common_layout(objs):
    """cell boundaries that all the given versions of an object respect"""
    if len({tuple(sorted((k, c[0]) for k, c in o.cells.items())) for o in objs}) == 1:
        return set()
    out = set()
    for o in objs:
        for k, c in o.cells.items():
            out |= {k, k + c[0]}
    return out


def split_cells(o, lay):
    """o's cells cut at the boundaries lay; None if a pointer would have to be cut"""
    if not lay:
        return o.cells
    out = {}
    for k, (n, v) in o.cells.items():
        cuts = sorted(b for b in lay if k < b < k + n)
        if not cuts:
            out[k] = (n, v)
            continue
        if v is not UNDEF and not isinstance(v, t.T):
            return None
        for a, b in zip([k] + cuts, cuts + [k + n]):
            out[a] = (b - a, v if v is UNDEF else t.ext(v, 8 * (a - k), 8 * (b - a)))
    return out


class ChainLoops:
    def direct(self, act, h):
        return False

    def __init__(self, spec):
        self.spec = spec
        self.log = []
        self.depth = 0

    def __call__(self, ctx, act, h, regs, st, n_obs, n_rets, backs):
        key = (act.f.name, h)
        if self.depth > 3:
            return None
        self.depth += 1
        try:
            r = self.attempt(ctx, act, h, regs, st, n_obs, n_rets, backs)
        finally:
            self.depth -= 1
        self.log.append((short(act.f.pretty), h, r is not None))
        return r

    # ------------------------------------------------------------ locations
    def changed(self, ctx, act, h, regs, st, backs):
        hdr = act.f.blocks[h]
        phis = {p.dst for p in hdr.phis}
        body = act.info.loops[h]
        inside = set()
        for b in body:
            for I in act.f.blocks[b].ins:
                if I.dst:
                    inside.add(I.dst)
            for p in act.f.blocks[b].phis:
                inside.add(p.dst)
        locs = []          # (kind, where..., x0, [x1 per back])
        for r in phis:
            if r not in regs:
                continue
            x0 = regs[r]
            for bi, (rg, s) in enumerate(backs):
                ps = _vals(x0, rg[r])
                if ps is None:
                    return None
                for path, a, b in ps:
                    locs.append((('r', r, path), a, b, bi))
        live = {r: v for r, v in regs.items() if r not in inside or r in phis}
        wipe = set()
        for oid, o in st.mem.items():
            for bi, (rg, s) in enumerate(backs):
                o1 = s.mem.get(oid)
                if o1 is None:
                    wipe.add(oid)
                    continue
                if o1 is o:
                    continue
                if o1.below is not o.below:
                    wipe.add(oid)
                    continue
                lay = common_layout([o] + [b[1].mem[oid] for b in backs if oid in b[1].mem])
                c0, c1 = split_cells(o, lay), split_cells(o1, lay)
                if c0 is None or c1 is None:
                    wipe.add(oid)
                    continue
                for k in set(c0) | set(c1):
                    a = c0.get(k)
                    b = c1.get(k)
                    if b is None or a is not None and a[0] != b[0]:
                        wipe.add(oid)
                        continue
                    if a is None:
                        # written for the first time: the old content shows through on entry
                        ctx.cur = st
                        a = (b[0], ctx.load_bytes(st, Ptr(oid, t.C(k, 64)), b[0]))
                    locs.append((('m', oid, k, b[0]), a[1], b[1], bi))
        return live, locs, wipe

    def propose(self, ctx, st, s1, x0, x1, pr):
        """candidate closed forms for a location that is x0 on entry and x1 after one iteration"""
        out = []
        if isinstance(x0, Ptr) and isinstance(x1, Ptr) and x0.obj == x1.obj:
            d = t.sub(x1.off, x0.off)
            out.append(LinPtr(x0, Lin(x0.off, d, 0)))
            return out
        if not isinstance(x0, t.T) or not isinstance(x1, t.T) or x0.w != x1.w:
            return out
        w = x0.w
        kw = self.spec.kw
        if x0.op == 'c' and x1.op == 'c' and w >= 8:
            out.append((None, t.sub(x1, x0)))
        for c in range(self.spec.max_c):
            for name, fw, f in self.spec.families:
                if fw != w:
                    continue
                g0 = f(t.C(c, kw))
                if g0 is not x0 and not (g0.op != 'H' and self.quick(pr, st, g0, x0)):
                    continue
                g1 = f(t.C(c + 1, kw))
                if g1 is x1 or self.quick(pr, s1, g1, x1):
                    out.append((c, Fam(f, name)))
            if out:
                break
        fws = {fw for _, fw, _ in self.spec.families}
        if not out and w not in fws and any(fw < w and w % fw == 0 for fw in fws):
            # several values packed in one cell
            fw = max(f for f in fws if f < w and w % f == 0)
            parts = []
            for lo in range(0, w, fw):
                g = [c for c in self.propose(ctx, st, s1, t.ext(x0, lo, fw), t.ext(x1, lo, fw), pr) if c[0] is not None]
                g = [c for c in g if self.holds(ctx, pr, st, t.ext(x0, lo, fw), c[1].at(t.C(c[0], kw)))]
                if not g:
                    parts = None
                    break
                parts.append(g[0])
            if parts and len({c for c, _ in parts}) == 1:
                fs = [g.f for _, g in parts]
                out.append((parts[0][0], Fam(lambda k, fs=fs: t.cat(*[f(k) for f in reversed(fs)]), '+'.join(g.name for _, g in parts))))
        if w >= 8:
            d = t.sub(x1, x0)
            if (d.op == 'c' or self.small_delta(d) and not (out and '+' in getattr(out[0][1], 'name', ''))) and not out[:1] == [(None, d)]:
                out.append((None, d))
        return out

    def small_delta(self, d):
        return d.op in ('v', 'cat', 'ext', 'add') and len(list(t.topo([d]))) < 30

    def quick(self, pr, st, a, b):
        """agreement on sampled environments"""
        if a is b:
            return True
        envs = pr.envs(st.pc)
        n = 0
        for e in envs:
            try:
                if e.ev(a) != e.ev(b):
                    return False
                n += 1
            except Exception:
                return False
        return n > 0

    # ------------------------------------------------------------ main
    def attempt(self, ctx, act, h, regs, st, n_obs, n_rets, backs):
        spec = self.spec
        kw = spec.kw
        obs_keep = ctx.obs[:n_obs]
        rets_keep = act.rets[:n_rets]
        pr = Prover(ctx, spec.small)
        got = self.changed(ctx, act, h, regs, st, backs)
        if got is None:
            return None
        live, locs, wipe = got
        # offset c of the chain index: taken from the first family that matches
        cands = {}
        offs = set()
        by = {}
        for loc, x0, x1, bi in locs:
            by.setdefault(loc, []).append((x0, x1, bi))
        for loc, lst in by.items():
            if loc[0] == 'm' and loc[1] in wipe:
                continue
            if all(_same(x0, x1) for x0, x1, bi in lst) and len(lst) == len(backs):
                continue
            x0 = lst[0][0]
            if x0 is UNDEF or any(x1 is UNDEF for _, x1, _ in lst):
                cands[loc] = [x0, []]
                continue
            cs = []
            for _, x1, bi in lst:
                if _same(x0, x1):
                    continue
                for c in self.propose(ctx, st, backs[bi][1], x0, x1, pr):
                    if c not in cs:
                        cs.append(c)
            cands[loc] = [x0, cs]
            for c in cs:
                if isinstance(c, tuple) and c[0] is not None:
                    offs.add(c[0])
        c0 = min(offs) if offs else 0
        for loc in cands:
            x0, cs = cands[loc]
            new = []
            for c in cs:
                if isinstance(c, LinPtr):
                    new.append(LinPtr(c.p, Lin(c.p.off, c.lin.d, c0)))
                elif c[0] is None:
                    new.append(Lin(x0, c[1], c0))
                elif c[0] == c0:
                    new.append(c[1])
            # the base case is proved, not sampled
            z0 = t.C(c0, kw)
            while new and not self.holds(ctx, pr, st, x0, new[0].at(z0)):
                new.pop(0)
            cands[loc] = [x0, new[:1] + [g for g in new[1:] if self.holds(ctx, pr, st, x0, g.at(z0))]]
        bounds = [b for b in spec.bounds]
        bounds = [b for b in bounds if ctx.valid(st, t.ule(t.C(c0, kw), b))]
        bounds.append(t.C(1 << 57, kw))
        peel = 0
        for attempt in range(14):
            del ctx.obs[n_obs:]
            del act.rets[n_rets:]
            k = t.fresh('k', kw)
            r = self.generic(ctx, act, h, live, st, cands, wipe, bounds, k, c0)
            if r is None:
                return self.undo(ctx, act, obs_keep, rets_keep)
            rg, s = r
            s0 = s.fork()
            bk, ex = act.iteration(h, dict(rg), s)
            # check every back edge
            demote = set()
            dropb = set()
            k1 = t.add(k, t.C(1, kw))
            prover = Prover(ctx, spec.small + [k])
            fails = []
            for (rg2, s2) in bk:
                f = []
                for loc, (x0, cs) in cands.items():
                    v = self.read(ctx, s2, rg2, loc)
                    if not cs:
                        continue
                    g = cs[0].at(k1)
                    if not self.holds(ctx, prover, s2, v, g):
                        f.append(loc)
                # locations assumed unchanged
                for u in self.other_changes(ctx, act, h, live, s0, rg, s2, rg2, cands, wipe):
                    f.append(('new',) + u)
                fb = [b for b in bounds if not ctx.valid(s2, t.ule(k1, b))]
                fails.append((f, fb))
            bad = [i for i, (f, fb) in enumerate(fails) if any(l[0] != 'new' for l in f)]
            good = [i for i, (f, fb) in enumerate(fails) if not f]
            if not any(f or fb for f, fb in fails):
                # accepted
                ctx.obs.append(Ob('loop-invariant', act_where(ctx, act, h), 'proved', '%d locations' % len(cands), None, 'z3+rewriting'))
                proper = [b for b in bounds if not (b.op == 'c' and b.a[0] == 1 << 57)]
                if proper:
                    ctx.obs.append(Ob('loop-terminates', act_where(ctx, act, h), 'proved', 'iterations bounded', None, 'z3'))
                out = list(ex)
                return out
            if bad and good and peel < 3 and all(self.is_chain(cands, fails[i][0]) for i in bad):
                # some paths leave the pattern: follow them separately from the state they reach
                res = self.peeled(ctx, act, h, [bk[i] for i in bad])
                if res is not None:
                    rest = [fails[i] for i in range(len(fails)) if i not in bad]
                    if not any(f or fb for f, fb in rest):
                        ctx.obs.append(Ob('loop-invariant', act_where(ctx, act, h), 'proved', '%d locations' % len(cands), None, 'z3+rewriting'))
                        return list(ex) + res
            progress = False
            for f, fb in fails:
                for loc in f:
                    if loc[0] == 'new':
                        l = loc[1:]
                        if l[0] == 'w':
                            if l[1] not in wipe:
                                wipe.add(l[1])
                                progress = True
                        elif l[0] not in cands:
                            cands[l[0]] = [l[1], []]
                            progress = True
                    else:
                        if cands[loc][1]:
                            cands[loc][1].pop(0)
                            progress = True
                for b in fb:
                    if b in bounds:
                        bounds.remove(b)
                        progress = True
            if not progress:
                break
        return self.undo(ctx, act, obs_keep, rets_keep)

    def is_chain(self, cands, f):
        return all(l[0] != 'new' for l in f)

    def peeled(self, ctx, act, h, backs):
        """explore the given header states by plain unrolling; None if that does not finish in a few iterations"""
        out = []
        cur = list(backs)
        n = 0
        while cur:
            n += 1
            if n > 6:
                return None
            rg, s = cur.pop(0)
            b, e = act.iteration(h, rg, s)
            out += e
            cur += b
        return out

    def undo(self, ctx, act, obs, rets):
        ctx.obs[:] = obs
        act.rets[:] = rets
        return None

    def read(self, ctx, s, rg, loc):
        if loc[0] == 'r':
            return _get(rg[loc[1]], loc[2])
        ctx.cur = s
        return ctx.load_bytes(s, Ptr(loc[1], t.C(loc[2], 64)), loc[3])

    def holds(self, ctx, prover, s, v, g):
        if isinstance(g, Ptr):
            if not isinstance(v, Ptr) or v.obj != g.obj:
                return False
            v, g = v.off, g.off
        if v is g:
            return True
        if not isinstance(v, t.T) or v.w != g.w:
            return False
        if g.op == 'cat':
            pairs, lo = [], 0
            for p in reversed(g.a):
                pairs.append((t.ext(v, lo, p.w), p))
                lo += p.w
            return prover.equal(s, pairs) is True
        return prover.equal(s, [(v, g)]) is True

    def other_changes(self, ctx, act, h, live, s0, rg0, s1, rg1, cands, wipe):
        out = []
        phis = {p.dst for p in act.f.blocks[h].phis}
        for r in phis:
            for path, a, b in _vals(rg0[r], rg1[r]) or []:
                loc = ('r', r, path)
                if loc not in cands and not _same(a, b):
                    out.append((loc, a))
        for oid, o in s0.mem.items():
            if oid in wipe:
                continue
            o1 = s1.mem.get(oid)
            if o1 is o:
                continue
            if o1 is None or o1.below is not o.below:
                out.append(('w', oid))
                continue
            lay = common_layout([o, o1])
            for l in cands:
                if l[0] == 'm' and l[1] == oid:
                    lay |= {l[2], l[2] + l[3]}
            c0, c1 = split_cells(o, lay), split_cells(o1, lay)
            if c0 is None or c1 is None:
                out.append(('w', oid))
                continue
            for k in set(c0) | set(c1):
                a, b = c0.get(k), c1.get(k)
                if a is None or b is None or a[0] != b[0]:
                    if b is not None and ('m', oid, k, b[0]) in cands:
                        continue
                    if a is None and b is not None:
                        ctx.cur = s0
                        out.append((('m', oid, k, b[0]), ctx.load_bytes(s0, Ptr(oid, t.C(k, 64)), b[0])))
                    else:
                        out.append(('w', oid))
                    continue
                if not _same(a[1], b[1]) and ('m', oid, k, a[0]) not in cands:
                    out.append((('m', oid, k, a[0]), a[1]))
        return out

    def generic(self, ctx, act, h, live, st, cands, wipe, bounds, k, c0):
        s = st.fork()
        s.assume(t.ule(t.C(c0, k.w), k)) if c0 else None
        for b in bounds:
            s.assume(t.ule(k, b))
        if self.spec.hints is not None:
            for f in self.spec.hints(k):
                if ctx.valid(s, f):
                    s.assume(f)
        rg = dict(live)
        hav = False
        for oid in wipe:
            o = s.mem.get(oid)
            if o is None:
                continue
            if oid not in st.mem:
                continue
            o = s.wobj(oid)
            if o.ro:
                return None
            arr = Array('havoc%d!%d' % (oid, k.id))
            # pointers in a wiped object are lost: treat as unreadable
            if any(isinstance(c[1], (Ptr, PIte, FnPtr)) for c in o.cells.values()):
                pc = {p: c for p, c in o.cells.items() if isinstance(c[1], (Ptr, PIte, FnPtr))}
                return None
            o.cells = {}
            o.below = Base(lambda i, arr=arr: arr.at(i))
            hav = True
        for loc, (x0, cs) in cands.items():
            if cs:
                v = cs[0].at(k)
            else:
                hav = True
                if isinstance(x0, t.T):
                    v = t.fresh('havoc', x0.w)
                elif x0 is UNDEF:
                    n = loc[3] if loc[0] == 'm' else None
                    if n is None:
                        v = UNDEF
                    else:
                        v = t.fresh('havoc', 8 * n)
                else:
                    return None
            if loc[0] == 'r':
                rg[loc[1]] = _put(rg[loc[1]], loc[2], v)
            else:
                if loc[1] in wipe:
                    continue
                n = loc[3]
                s.wobj(loc[1]).write_c(loc[2], n, v, ctx)
        if hav:
            s.gh['generic'] = True
        return rg, s


def act_where(ctx, act, h):
    return '%s loop %s' % (short(act.f.pretty), h)
