"""Symbolic executor for rustc's LLVM IR: computes, path by path, the verification conditions of a function."""
import sys
import re
import time
from . import term as t
from . import ir
from .mem import *
from .mem import read_c, read_s, as_int

sys.setrecursionlimit(40000)


class Budget(Exception):
    """tool limit reached"""


class Unsupported(Exception):
    """construct outside the engine's reach"""


class Path:
    __slots__ = ('cond', 'parent', 'depth')

    def __init__(self, cond, parent):
        self.cond = cond
        self.parent = parent
        self.depth = parent.depth + 1 if parent is not None else 1


_tok = [0]


class St:
    __slots__ = ('mem', 'pc', 'tok', 'gh')

    def __init__(self):
        self.mem = {}
        self.pc = None
        _tok[0] += 1
        self.tok = _tok[0]
        self.gh = {}

    def fork(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.gh = dict(self.gh)
        _tok[0] += 1
        s.tok = _tok[0]
        _tok[0] += 1
        self.tok = _tok[0]
        return s

    def assume(self, c):
        if c is t.TRUE:
            return
        if c.op == 'and':
            for x in c.a:
                self.assume(x)
            return
        n = self.pc
        for _ in range(40):
            if n is None:
                break
            if n.cond is c:
                return
            n = n.parent
        self.pc = Path(c, self.pc)

    def wobj(self, oid):
        """object for writing (copy on write)"""
        o = self.mem[oid]
        if o.own != self.tok:
            o = o.clone(self.tok)
            self.mem[oid] = o
        return o


_oid = [0]


def pc_list(pc, upto=None):
    r = []
    while pc is not None and pc is not upto:
        r.append(pc.cond)
        pc = pc.parent
    r.reverse()
    return r


class Ob:
    """one proof obligation"""
    __slots__ = ('kind', 'where', 'status', 'detail', 'env', 'by', 'dt', 'gen')

    def __init__(self, kind, where, status, detail='', env=None, by='', dt=0.0):
        self.kind = kind
        self.where = where
        self.status = status      # proved | refuted | unknown
        self.detail = detail
        self.env = env
        self.by = by
        self.dt = dt
        self.gen = False          # refuted in a state that over-approximates the reachable ones


class Ctx:
    """one verification task: module, solver, contracts, obligations"""

    def __init__(self, mods, solver, budget_s=300):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.sv = solver
        self.obs = []
        self.contracts = []        # [(matcher(fn)->bool, handler)]
        self.loop_strategy = None
        self.eager = False        # decide the condition of every select
        self.merge = False
        self.merge_limit = 400
        self.nomerge = None
        self.deadline = time.time() + budget_s
        self.gobjs = {}
        self.steps = 0
        self.max_visits = 400
        self.panic_ok = None
        self.cur = None
        self.fnstack = []
        self.check_ub = True
        self.ccache = {}
        self.funcs_run = {}
        self.trace = None
        self.used_contracts = {}
        self.addr_facts = {}
        self.features = {}
        self.fcache = {}
        self.frames = []           # registers of the callers of the current activation
        self.branches = None       # when a list: every symbolic branch condition is recorded
        self.vartime = None

    # ---------------------------------------------------------- functions
    def find(self, name):
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and f.defined:
                return f
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None:
                return f
        return None

    def fn(self, pred):
        """unique defined function whose pretty name satisfies pred"""
        r = [f for m in self.mods for f in m.funcs.values() if f.defined and pred(f)]
        return r

    # ---------------------------------------------------------- solver helpers (mem callbacks need the current state)
    def sat(self, st, *conds):
        r = self.sv.check(st.pc, conds)
        return r != 'unsat'

    def valid(self, st, c):
        """True iff pc => c is proved"""
        if c is t.TRUE:
            return True
        if c is t.FALSE:
            return self.sv.check(st.pc, ()) == 'unsat'
        return self.sv.check(st.pc, (t.bnot(c),)) == 'unsat'

    def decide(self, st, c):
        if c.op == 'c':
            return bool(c.a[0])
        n = st.pc
        nc = t.bnot(c)
        k = 0
        while n is not None and k < 60:
            if n.cond is c:
                return True
            if n.cond is nc:
                return False
            n = n.parent
            k += 1
        if self.sv.check(st.pc, (nc,)) == 'unsat':
            return True
        if self.sv.check(st.pc, (c,)) == 'unsat':
            return False
        return None

    # memory callbacks ------------------------------------------------
    def addr(self, oid):
        o = self.cur.mem.get(oid) or self.gobjs_by_id.get(oid)
        al = max(1, o.align if o is not None else 1)
        k = al.bit_length() - 1
        v = t.V('addr@%s#%d' % (o.name if o is not None else '?', oid), 40 - k)
        # user-space address: nonzero, aligned, and far from wrap-around
        a = t.cat(t.C(1, 24), v, t.C(0, k)) if k else t.cat(t.C(1, 24), v)
        if oid not in self.addr_facts:
            self.addr_facts[oid] = a
        return a

    @property
    def gobjs_by_id(self):
        return self._gid

    _gid = {}

    def within(self, dst, n, off, k):
        """is [off, off+k) inside (True) / outside (False) of [dst, dst+n)?"""
        st = self.cur
        rel = t.sub(off, dst)
        kk = t.C(k, 64)
        ins = t.land(t.ule(dst, off), t.ule(t.add(rel, kk), n), t.ule(rel, t.add(rel, kk)))
        if ins is t.TRUE:
            return True
        out = t.lor(t.ule(t.add(dst, n), off), t.ule(t.add(off, kk), dst))
        if out is t.TRUE:
            return False
        if self.valid(st, ins):
            return True
        if self.valid(st, out):
            return False
        return None

    def concretize(self, x):
        """unique value of x under the current path condition, or None"""
        if x.op == 'c':
            return x.a[0]
        st = self.cur
        key = (id(st.pc), x.id)
        r = self.ccache.get(key)
        if r is not None and r[0] is st.pc:
            return r[1]
        ck = ('value', self.sv.alpha(self.sv.slice(st.pc, (x,))[0], (x,)))
        if ck in self.sv.acache:
            v = self.sv.acache[ck]
            self.ccache[key] = (st.pc, v)
            return v
        v = None
        unk = self.sv.stats.unknown
        if self.sv.check(st.pc, (), want_model=True, roots=(x,)) == 'sat' and self.sv.model is not None:
            c = self.sv.model.eval(self.sv.bv(x), model_completion=True).as_long()
            if self.sv.check(st.pc, (t.ne(x, t.C(c, x.w)),)) == 'unsat':
                v = c
        if self.sv.stats.unknown == unk:
            self.sv.acache[ck] = v
        self.ccache[key] = (st.pc, v)
        return v

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, t.T) and isinstance(b, t.T):
            return t.ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if a.off is b.off:
                return a
            return Ptr(a.obj, t.ite(c, a.off, b.off))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
            r = [self.merge_val(c, x, y) for x, y in zip(a, b)]
            return tuple(r) if isinstance(a, tuple) else r
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        if isinstance(a, (Ptr, PIte, t.T, FnPtr)) and isinstance(b, (Ptr, PIte, t.T, FnPtr)):
            return PIte(c, a, b)
        raise Unsupported('merge %r %r' % (a, b))

    # ---------------------------------------------------------- obligations
    def oblige(self, st, cond, kind, where='', detail=''):
        """pc => cond must hold; afterwards it may be assumed"""
        if cond is t.TRUE:
            return True
        where = where or self.where()
        t0 = time.time()
        r = self.sv.check(st.pc, (t.bnot(cond),))
        if r == 'sat':
            r = self.sv.check(st.pc, (t.bnot(cond),), want_model=True)
        dt = time.time() - t0
        if r == 'unsat':
            self.obs.append(Ob(kind, where, 'proved', by='z3', dt=dt))
            st.assume(cond)
            return True
        if r == 'sat':
            env = self.sv.env() if self.sv.model is not None else None
            self.obs.append(Ob(kind, where, 'refuted', detail, env, 'z3', dt))
            self.obs[-1].gen = bool(st.gh.get('generic'))
        else:
            self.obs.append(Ob(kind, where, 'unknown', 'solver gave up', None, 'z3', dt))
        st.assume(cond)
        return False

    def proved(self, kind, where='', by='rewrite'):
        self.obs.append(Ob(kind, where or self.where(), 'proved', by=by))

    def fail(self, kind, where='', status='refuted', detail='', env=None):
        self.obs.append(Ob(kind, where or self.where(), status, detail, env))

    def where(self):
        return ' < '.join(reversed(self.fnstack[-3:]))

    # ---------------------------------------------------------- objects
    def new_obj(self, st, name, size, align=1, below=None, ro=False, tag=None):
        _oid[0] += 1
        o = Obj(_oid[0], name, size, align, below, ro, tag)
        o.own = st.tok
        st.mem[o.id] = o
        return o.id

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self._gid.get(oid)
            if o is None:
                raise Unsupported('dangling object %r' % oid)
        return o

    def global_ptr(self, name):
        g = self.gobjs.get(name)
        if g is None:
            for m in self.mods:
                if name in m.funcs:
                    return FnPtr(name)
            cand = [m for m in self.mods if name in m.globals]
            if not cand:
                return FnPtr(name)
            mod = cand[0]
            ty, v, al, const = mod.global_init(name)
            _oid[0] += 1
            o = Obj(_oid[0], name, ir.sizeof(ty), al, None, const, 'global')
            if v is not None:
                data = [None] * ir.sizeof(ty)
                rel = {}
                self._init(ty, v, 0, data, rel)
                o.below = Bytes(data, rel)
            else:
                o.tag = 'extern'
            self._gid = dict(self._gid)
            self._gid[o.id] = o
            g = Ptr(o.id, t.C(0, 64))
            self.gobjs[name] = g
        return g

    def _init(self, ty, v, off, data, rel):
        k = v[0]
        n = ir.sizeof(ty)
        if k == 'undef':
            return
        if k == 'zero':
            data[off:off + n] = [0] * n
            return
        if k == 'str':
            data[off:off + n] = list(v[1])
            return
        if k == 'c':
            data[off:off + n] = list((v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
            return
        if k == 'agg':
            if ty[0] == 'st':
                offs, _ = ir.layout(ty)
                for (ft, fv), fo in zip(v[1], offs):
                    self._init(ft, fv, off + fo, data, rel)
            else:
                es = ir.sizeof(ty[2])
                for i, (ft, fv) in enumerate(v[1]):
                    self._init(ft, fv, off + i * es, data, rel)
            return
        if k in ('g', 'ce'):
            rel[off] = self.operand_const(v, ty)
            return
        raise Unsupported('global init %r' % (v,))

    def operand_const(self, v, ty):
        k = v[0]
        if k == 'g':
            return self.global_ptr(v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.operand(v[3][0][1], v[3][0][0], None)
                return self.gep(v[2], base, [(x[0], self.operand(x[1], x[0], None)) for x in v[3][1:]])
            if v[1] == 'inttoptr':
                return self.operand(v[3], v[2], None)
            if v[1] == 'ptrtoint':
                return self.operand(v[3], v[2], None)
        raise Unsupported('const expr %r' % (v,))

    def operand(self, v, ty, regs):
        k = v[0]
        if k == 'r':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('register %s not available after a merge' % v[1])
        if k == 'c':
            if ty[0] == 'ptr':
                return t.C(v[1], 64)
            return t.C(v[1], ty[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            vals = [self.operand(x, xt, regs) for xt, x in v[1]]
            return vals if ty[0] == 'vec' else tuple(vals)
        if k == 'str':
            return tuple(t.C(b, 8) for b in v[1])
        return self.operand_const(v, ty)

    def zero(self, ty):
        k = ty[0]
        if k == 'i':
            return t.C(0, ty[1])
        if k == 'ptr':
            return t.C(0, 64)
        if k == 'vec':
            return [self.zero(ty[2])] * ty[1]
        if k == 'arr':
            return tuple([self.zero(ty[2])] * ty[1])
        if k == 'st':
            return tuple(self.zero(f) for f in ty[1])
        raise Unsupported('zero %r' % (ty,))

    # ---------------------------------------------------------- pointers
    def gep(self, ty, base, idx):
        off = t.C(0, 64)
        cur = ty
        first = True
        for it, iv in idx:
            if iv is UNDEF:
                raise Unsupported('undef index')
            if isinstance(iv, t.T) and iv.w != 64:
                iv = t.sext(iv, 64)
            if first:
                off = t.add(off, t.mulc(iv, ir.sizeof(cur)))
                first = False
            else:
                if cur[0] == 'st':
                    f = iv.a[0]
                    off = t.add(off, t.C(ir.layout(cur)[0][f], 64))
                    cur = cur[1][f]
                elif cur[0] in ('arr', 'vec'):
                    cur = cur[2]
                    off = t.add(off, t.mulc(iv, ir.sizeof(cur)))
                else:
                    raise Unsupported('gep into %r' % (cur,))
        return self.padd(base, off)

    def padd(self, p, off):
        if off.op == 'c' and off.a[0] == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.obj, t.add(p.off, off))
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.p, off), self.padd(p.q, off))
        if isinstance(p, t.T):
            q = self.int2ptr(t.add(p, off))
            return q
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def int2ptr(self, x):
        if x.op == 'c':
            return x
        for oid, a in self.addr_facts.items():
            d = t.sub(x, a)
            if not _has(d, a):
                return Ptr(oid, d)
        return x

    def ptr2int(self, p):
        if p is UNDEF:
            raise Unsupported('undef pointer')
        return as_int(p, self)

    def ptr_cmp(self, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return _icmp(pred, a.off, b.off)
        if pred in ('eq', 'ne') and not isinstance(a, PIte) and not isinstance(b, PIte):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ptr) and isinstance(y, t.T) and y.op == 'c' and y.a[0] == 0:
                    return t.B(pred == 'ne')
                if isinstance(x, FnPtr) and isinstance(y, t.T) and y.op == 'c':
                    return t.B(pred == 'ne')
        if isinstance(a, PIte):
            return t.ite(a.c, self.ptr_cmp(pred, a.p, b), self.ptr_cmp(pred, a.q, b))
        if isinstance(b, PIte):
            return t.ite(b.c, self.ptr_cmp(pred, a, b.p), self.ptr_cmp(pred, a, b.q))
        return _icmp(pred, self.ptr2int(a), self.ptr2int(b))

    # ---------------------------------------------------------- access
    def check_align(self, st, p, al):
        if isinstance(p, Ptr):
            o = self.obj(st, p.obj)
            k = al.bit_length() - 1
            if o.align % al == 0:
                low = t.ext(p.off, 0, k)
                if low.op == 'c':
                    if low.a[0] == 0:
                        return
            self.cur = st
            self.oblige(st, t.eq(t.ext(t.add(self.addr(p.obj), p.off), 0, k), t.C(0, k)), 'aligned',
                        detail='access to %s needs alignment %d' % (o.name, al))
        elif isinstance(p, PIte):
            self.check_align(st, p.p, al)
            self.check_align(st, p.q, al)

    def check_access(self, st, o, off, n, what):
        if n == 0:
            return
        size = o.size
        if isinstance(size, int):
            if off.op == 'c':
                if off.a[0] + n <= size:
                    self.nacc = getattr(self, 'nacc', 0) + 1
                    return
                self.oblige(st, t.FALSE, 'in-bounds', detail='%s of %d bytes at offset %d of %s (size %d)' % (what, n, off.a[0], o.name, size))
                raise DeadPath()
            if size < n:
                self.oblige(st, t.FALSE, 'in-bounds')
                raise DeadPath()
            c = t.ule(off, t.C(size - n, 64))
        else:
            # neighbouring accesses: one proof for a whole window of base + [lo, hi)
            base, k = t.addc(off)
            key = ('inb', o.id, base.id)
            got = st.gh.get(key)
            if got is not None and got[0] <= k and k + n <= got[1]:
                return
            if base.op != 'c' and k + n <= 128 and n < 128:
                for win in (128, 64):
                    if k + n <= win:
                        c = t.land(t.ule(t.C(win, 64), size), t.ule(base, t.sub(size, t.C(win, 64))))
                        if self.sv.check(st.pc, (t.bnot(c),), timeout=3000) == 'unsat':
                            self.obs.append(Ob('in-bounds', self.where(), 'proved', by='z3'))
                            st.gh[key] = (0, win)
                            return
            c = t.land(t.ule(t.C(n, 64), size), t.ule(off, t.sub(size, t.C(n, 64))))
        self.oblige(st, c, 'in-bounds', detail='%s of %d bytes of %s' % (what, n, o.name))

    def check_range(self, st, o, off, n, what):
        """n is a term"""
        if n.op == 'c':
            return self.check_access(st, o, off, n.a[0], what)
        size = o.size if isinstance(o.size, t.T) else t.C(o.size, 64)
        c = t.lor(t.eq(n, t.C(0, 64)), t.land(t.ule(n, size), t.ule(off, t.sub(size, n))))
        self.oblige(st, c, 'in-bounds', detail='%s range of %s' % (what, o.name))

    def load_bytes(self, st, p, n):
        if isinstance(p, PIte):
            d = self.decide(st, p.c)
            if d is True:
                return self.load_bytes(st, p.p, n)
            if d is False:
                return self.load_bytes(st, p.q, n)
            s1 = st.fork(); s1.assume(p.c)
            s2 = st.fork(); s2.assume(t.bnot(p.c))
            a = self.load_bytes(s1, p.p, n)
            b = self.load_bytes(s2, p.q, n)
            self.cur = st
            return self.merge_val(p.c, a, b)
        if not isinstance(p, Ptr):
            if n == 0:
                return UNDEF
            self.oblige(st, t.FALSE, 'valid-pointer', detail='load through %r' % (p,))
            raise DeadPath()
        self.cur = st
        o = self.obj(st, p.obj)
        if o.tag == 'extern':
            raise Unsupported('read of external global %s' % o.name)
        off = p.off
        self.check_access(st, o, off, n, 'load')
        if off.op == 'c':
            c = o.cells.get(off.a[0])
            if c is not None and c[0] == n:
                return c[1]
            return read_c(o.top(), off.a[0], n, self)
        c = self.concretize(off) if isinstance(o.size, int) and o.tag != 'symidx' else None
        if c is not None:
            return read_c(o.top(), c, n, self)
        return read_s(o.top(), off, n, self)

    def load_many(self, st, p, ofs):
        """[(offset, bytes)] relative to p -> values; each case of a conditional pointer is entered once"""
        if isinstance(p, PIte):
            d = self.decide(st, p.c)
            if d is not None:
                return self.load_many(st, p.p if d else p.q, ofs)
            s1 = st.fork(); s1.assume(p.c)
            s2 = st.fork(); s2.assume(t.bnot(p.c))
            a = self.load_many(s1, p.p, ofs)
            b = self.load_many(s2, p.q, ofs)
            self.cur = st
            return [self.merge_val(p.c, x, y) for x, y in zip(a, b)]
        return [self.load_bytes(st, self.padd(p, t.C(o, 64)), n) for o, n in ofs]

    def load_run(self, st, p, nb, cnt):
        """cnt consecutive nb-byte values, bounds checked once"""
        if isinstance(p, Ptr):
            o = self.obj(st, p.obj)
            self.cur = st
            if o.tag != 'extern' and p.off.op != 'c' and not isinstance(o.size, int):
                self.check_access(st, o, p.off, nb * cnt, 'load')
                r = []
                for i in range(cnt):
                    v = read_s(o.top(), t.add(p.off, t.C(nb * i, 64)), nb, self)
                    r.append(v)
            else:
                r = [self.load_bytes(st, self.padd(p, t.C(nb * i, 64)), nb) for i in range(cnt)]
        else:
            r = self.load_many(st, p, [(nb * i, nb) for i in range(cnt)])
        out = []
        for v in r:
            if v is UNDEF:
                raise Unsupported('uninitialised block')
            out.append(v if isinstance(v, t.T) else as_int(v, self))
        return out

    def store_bytes(self, st, p, n, val):
        if isinstance(p, PIte):
            d = self.decide(st, p.c)
            if d is True:
                return self.store_bytes(st, p.p, n, val)
            if d is False:
                return self.store_bytes(st, p.q, n, val)
            old = self.load_bytes(st, p.p, n)
            self.store_bytes(st, p.p, n, self.merge_val(p.c, val, old))
            old = self.load_bytes(st, p.q, n)
            self.store_bytes(st, p.q, n, self.merge_val(p.c, old, val))
            return
        if not isinstance(p, Ptr):
            if n == 0:
                return
            self.oblige(st, t.FALSE, 'valid-pointer', detail='store through %r' % (p,))
            raise DeadPath()
        self.cur = st
        o = self.obj(st, p.obj)
        if o.ro:
            self.oblige(st, t.FALSE, 'frame', detail='write to read-only %s' % o.name)
            raise DeadPath()
        off = p.off
        self.check_access(st, o, off, n, 'store')
        o = st.wobj(p.obj)
        if off.op != 'c' and isinstance(o.size, int):
            c = self.concretize(off)
            if c is not None:
                off = t.C(c, 64)
        if off.op == 'c':
            o.write_c(off.a[0], n, val, self)
        else:
            o.push(lambda below: Copy(off, t.C(n, 64), Cells({0: (n, val)}, None), t.C(0, 64), below))

    def load(self, st, p, ty):
        k = ty[0]
        if k == 'i':
            w = ty[1]
            n = ir.sizeof(ty)
            v = self.load_bytes(st, p, n)
            if v is UNDEF:
                return UNDEF
            if not isinstance(v, t.T):
                v = as_int(v, self)
            return t.ext(v, 0, w) if v.w != w else v
        if k == 'ptr':
            v = self.load_bytes(st, p, 8)
            if isinstance(v, t.T):
                return self.int2ptr(v)
            return v
        if k == 'vec':
            es = ir.sizeof(ty[2])
            if isinstance(p, PIte) and ty[2][0] == 'i':
                vs = self.load_many(st, p, [(i * es, es) for i in range(ty[1])])
                return [v if v is UNDEF or isinstance(v, t.T) else as_int(v, self) for v in vs]
            return [self.load(st, self.padd(p, t.C(i * es, 64)), ty[2]) for i in range(ty[1])]
        if k == 'arr':
            es = ir.sizeof(ty[2])
            return tuple(self.load(st, self.padd(p, t.C(i * es, 64)), ty[2]) for i in range(ty[1]))
        if k == 'st':
            offs, _ = ir.layout(ty)
            return tuple(self.load(st, self.padd(p, t.C(o, 64)), f) for o, f in zip(offs, ty[1]))
        raise Unsupported('load %r' % (ty,))

    def store(self, st, p, ty, v):
        k = ty[0]
        if k == 'i':
            n = ir.sizeof(ty)
            if v is not UNDEF and v.w != 8 * n:
                v = t.zext(v, 8 * n)
            return self.store_bytes(st, p, n, v)
        if k == 'ptr':
            return self.store_bytes(st, p, 8, v)
        if v is UNDEF:
            return self.store_bytes(st, p, ir.sizeof(ty), UNDEF)
        if k in ('vec', 'arr'):
            es = ir.sizeof(ty[2])
            for i in range(ty[1]):
                self.store(st, self.padd(p, t.C(i * es, 64)), ty[2], v[i])
            return
        if k == 'st':
            offs, _ = ir.layout(ty)
            for o, f, x in zip(offs, ty[1], v):
                self.store(st, self.padd(p, t.C(o, 64)), f, x)
            return
        raise Unsupported('store %r' % (ty,))

    def memcpy(self, st, d, s, n, move=False):
        if n.op == 'c' and n.a[0] == 0:
            return
        for x in (d, s):
            if isinstance(x, PIte):
                dec = self.decide(st, x.c)
                if dec is None:
                    if x is s and n.op == 'c':
                        nn = n.a[0]
                        ofs = [(i, min(8, nn - i)) for i in range(0, nn, 8)]
                        for (i, k), v in zip(ofs, self.load_many(st, s, ofs)):
                            self.store_bytes(st, self.padd(d, t.C(i, 64)), k, v)
                        return
                    raise NeedFork(x.c)
                if x is d:
                    d = x.p if dec else x.q
                else:
                    s = x.p if dec else x.q
                return self.memcpy(st, d, s, n, move)
        if n.op != 'c':
            self.cur = st
            c = self.concretize(n)
            if c is not None:
                n = t.C(c, 64)
                if c == 0:
                    return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            # zero-length copies through dangling pointers are fine
            self.oblige(st, t.eq(n, t.C(0, 64)), 'valid-pointer', detail='memcpy %r <- %r' % (d, s))
            return
        self.cur = st
        so = self.obj(st, s.obj)
        do = self.obj(st, d.obj)
        if do.ro:
            self.oblige(st, t.eq(n, t.C(0, 64)), 'frame', detail='memcpy into read-only %s' % do.name)
            return
        soff, doff = s.off, d.off
        if isinstance(so.size, int) and soff.op != 'c':
            c = self.concretize(soff)
            if c is not None:
                soff = t.C(c, 64)
        if isinstance(do.size, int) and doff.op != 'c':
            c = self.concretize(doff)
            if c is not None:
                doff = t.C(c, 64)
        self.check_range(st, so, soff, n, 'memcpy source')
        self.check_range(st, do, doff, n, 'memcpy destination')
        if so.tag == 'extern':
            raise Unsupported('read of external global')
        if n.op == 'c' and soff.op == 'c' and doff.op == 'c':
            nn, a, b = n.a[0], soff.a[0], doff.a[0]
            seg = self._segments(so, a, nn)
            if seg is not None:
                o = st.wobj(d.obj)
                if nn > 16:
                    o._clear(b, nn, self)
                for off, k, v in seg:
                    o.write_c(b + off, k, v, self)
                return
        node = so.node()
        o = st.wobj(d.obj)
        if o.id == so.id:
            node = o.node()
        o.push(lambda below: Copy(doff, n, node, soff, below))

    def _segments(self, so, a, nn):
        """source range as cells, or None when a layer is better"""
        out = []
        pos = a
        end = a + nn
        cells = so.cells
        gaps = 0
        from .mem import find_cell
        while pos < end:
            f = find_cell(cells, pos)
            if f is not None:
                o, (sz, v) = f
                k = min(o + sz, end) - pos
                if o == pos and k == sz:
                    out.append((pos - a, k, v))
                elif v is UNDEF:
                    out.append((pos - a, k, UNDEF))
                else:
                    out.append((pos - a, k, t.ext(as_int(v, self), 8 * (pos - o), 8 * k)))
                pos += k
                continue
            g = pos + 1
            while g < end and g not in cells:
                g += 1
            gl = g - pos
            if so.below is None:
                out.append((pos - a, gl, UNDEF))
            elif isinstance(so.below, Bytes) and gl <= 256:
                b = so.below
                q = pos
                while q < g:
                    if q in b.relocs:
                        out.append((q - a, 8, b.relocs[q]))
                        q += 8
                    else:
                        k = 1
                        while q + k < g and k < 8 and (q + k) not in b.relocs:
                            k += 1
                        out.append((q - a, k, b.read_c(q, k, self)))
                        q += k
            elif gl <= 8:
                out.append((pos - a, gl, read_c(so.below, pos, gl, self)))
            else:
                return None
            pos = g
        return out

    def memset(self, st, d, v, n):
        if n.op == 'c' and n.a[0] == 0:
            return
        if n.op != 'c':
            self.cur = st
            c = self.concretize(n)
            if c is not None:
                n = t.C(c, 64)
                if c == 0:
                    return
        if not isinstance(d, Ptr):
            if isinstance(d, PIte):
                raise NeedFork(d.c)
            self.oblige(st, t.eq(n, t.C(0, 64)), 'valid-pointer', detail='memset')
            return
        o = self.obj(st, d.obj)
        if o.ro:
            self.oblige(st, t.eq(n, t.C(0, 64)), 'frame', detail='memset of read-only %s' % o.name)
            return
        self.cur = st
        off = d.off
        if isinstance(o.size, int) and off.op != 'c':
            c = self.concretize(off)
            if c is not None:
                off = t.C(c, 64)
        self.check_range(st, o, off, n, 'memset')
        o = st.wobj(d.obj)
        if n.op == 'c' and off.op == 'c' and n.a[0] <= 64 and v is not UNDEF:
            nn, a = n.a[0], off.a[0]
            o._clear(a, nn, self)
            i = 0
            while i < nn:
                k = 8 if nn - i >= 8 else 1
                o.write_c(a + i, k, t.cat(*([v] * k)), self)
                i += k
            return
        o.push(lambda below: Fill(off, n, v, below))

    # ---------------------------------------------------------- calls
    def call(self, name, args, st, ret_ty=None):
        """-> list of (state, return value)"""
        f = self.find(name)
        if f is None:
            return self.extern(name, None, args, st)
        if name.startswith('@llvm.'):
            return self.intrinsic(name, args, st)
        for match, h in self.contracts:
            if match(f):
                r = h(self, st, f, args)
                if r is not None:
                    k = getattr(h, 'label', h.__name__)
                    self.used_contracts[k] = self.used_contracts.get(k, 0) + 1
                    return r
        if is_panic(f):
            self.on_panic(st, f, args)
            return []
        if not f.defined:
            return self.extern(name, f, args, st)
        return self.run_fn(f, args, st)

    def on_panic(self, st, f, args):
        if self.panic_ok is not None and self.panic_ok(self, st, f, args):
            return
        self.oblige(st, t.FALSE, 'no-panic', detail='panic reachable: %s' % short(f.pretty or f.name))

    def extern(self, name, f, args, st):
        raise Unsupported('external function %s' % (name if f is None else f.pretty or name))

    def run_fn(self, f, args, st):
        f.parse()
        if len(self.fnstack) > 120:
            raise Budget('call depth')
        self.funcs_run[f.name] = self.funcs_run.get(f.name, 0) + 1
        if self.trace:
            self.trace('%s> %s' % ('  ' * len(self.fnstack), short(f.pretty)))
        self.fnstack.append(short(f.pretty or f.name))
        try:
            act = Activation(self, f)
            rets = act.run(args, st)
        finally:
            self.fnstack.pop()
        for s, v in rets:
            for oid in s.gh.get(('al', act.id), ()):
                s.mem.pop(oid, None)
            s.gh.pop(('al', act.id), None)
        if self.merge and len(rets) > 1:
            rets = self.merge_rets(rets)
        return rets

    # ---------------------------------------------------------- merging
    def merge_rets(self, rets):
        out = [rets[0]]
        for s, v in rets[1:]:
            m = self.merge2(out[-1][0], s, {'ret': out[-1][1]}, {'ret': v})
            if m is None:
                out.append((s, v))
            else:
                out[-1] = (m[0], m[1]['ret'])
        return out

    def merge2(self, s1, s2, r1, r2):
        """merge two states; returns (state, regs) or None"""
        # common prefix of the path conditions
        a, b = s1.pc, s2.pc
        while a is not b:
            da = a.depth if a is not None else 0
            db = b.depth if b is not None else 0
            if da >= db:
                a = a.parent
            if db >= da:
                b = b.parent if b is not None else None
        c1 = t.land(*pc_list(s1.pc, a))
        c2 = t.land(*pc_list(s2.pc, a))
        if self.nomerge is not None and self.nomerge(c1, c2):
            return None
        for k in set(s1.gh) | set(s2.gh):
            if isinstance(k, tuple):
                continue
            if s1.gh.get(k) != s2.gh.get(k):
                return None
        try:
            regs = {}
            for k, v in r1.items():
                if k in r2:
                    regs[k] = self.merge_val(c1, v, r2[k])
            st = St()
            st.pc = a
            st.gh = dict(s1.gh)
            for k in [k for k in st.gh if isinstance(k, tuple) and k[0] == 'inb' and s2.gh.get(k) != st.gh[k]]:
                del st.gh[k]
            for k, v in s2.gh.items():
                if isinstance(k, tuple) and k[0] == 'inb':
                    continue
                if isinstance(k, tuple) and k in st.gh and st.gh[k] != v:
                    st.gh[k] = tuple(set(st.gh[k]) | set(v))
                else:
                    st.gh.setdefault(k, v)
            self.cur = st
            diff = 0
            mem = {}
            for oid, o1 in s1.mem.items():
                o2 = s2.mem.get(oid)
                if o2 is None or o1 is o2:
                    mem[oid] = o1
                    continue
                st.mem = mem
                if o1.below is o2.below:
                    cells = {}
                    keys = set(o1.cells) | set(o2.cells)
                    ok = True
                    for k in keys:
                        x = o1.cells.get(k); y = o2.cells.get(k)
                        if x is None or y is None or x[0] != y[0]:
                            ok = False
                            break
                        if x[1] is y[1]:
                            cells[k] = x
                        else:
                            diff += 1
                            if self.nomerge_cell(o1, k, x[1], y[1]):
                                return None
                            cells[k] = (x[0], self.merge_val(c1, x[1], y[1]))
                    if ok:
                        o = o1.clone(st.tok)
                        o.cells = cells
                        mem[oid] = o
                        continue
                o = o1.clone(st.tok)
                # cells present in both are merged as cells (keeps pointers whole)
                keys = [k for k in o1.cells if k in o2.cells and o1.cells[k][0] == o2.cells[k][0]]
                cells = {}
                for k in keys:
                    x = o1.cells[k]; y = o2.cells[k]
                    if x[1] is not y[1] and self.nomerge_cell(o1, k, x[1], y[1]):
                        return None
                    cells[k] = (x[0], self.merge_val(c1, x[1], y[1]))
                n1, n2 = o1.node(), o2.node()
                if n1 is None:
                    o.below = n2
                elif n2 is None:
                    o.below = n1
                else:
                    o.below = Choice(c1, n1, n2)
                o.cells = cells
                mem[oid] = o
                diff += 4
            for oid, o2 in s2.mem.items():
                if oid not in mem:
                    mem[oid] = o2
            if diff > self.merge_limit:
                return None
            st.mem = mem
            st.assume(t.bor(c1, c2))
            return st, regs
        except (Unsupported, MemError):
            return None

    def nomerge_cell(self, o, off, a, b):
        return False

    # ---------------------------------------------------------- intrinsics
    def intrinsic(self, name, a, st):
        n = name[6:]
        if n.startswith('lifetime'):
            p = a[-1]
            if n.startswith('lifetime.end') and isinstance(p, Ptr) and p.off.op == 'c' and p.obj in st.mem:
                o = st.mem[p.obj]
                if o.cells or o.below is not None:
                    o = st.wobj(p.obj)
                    o.cells = {}
                    o.below = None
            return [(st, None)]
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, a[0], a[1], a[2], n.startswith('memmove'))
            return [(st, None)]
        if n.startswith('memset'):
            self.memset(st, a[0], a[1], a[2])
            return [(st, None)]
        if n.startswith('expect'):
            return [(st, a[0])]
        if n.startswith('assume'):
            if a[0] is not UNDEF:
                self.oblige(st, a[0], 'assume-holds')
            return [(st, None)]
        if n.startswith('is.constant'):
            return [(st, t.FALSE)]
        if n.startswith('experimental.noalias') or n.startswith('dbg.') or n.startswith('prefetch'):
            return [(st, None)]
        if any(x is UNDEF for x in a):
            raise Unsupported('undef operand of %s' % name)

        def vec(f):
            if any(isinstance(x, list) for x in a):
                k = max(len(x) for x in a if isinstance(x, list))
                return [f(*[x[i] if isinstance(x, list) else x for x in a]) for i in range(k)]
            return f(*a)
        if n.startswith('fshr') or n.startswith('fshl'):
            def f(x, y, z):
                if z.op != 'c':
                    raise Unsupported('funnel shift by a variable')
                return (t.fshr if n.startswith('fshr') else t.fshl)(x, y, z.a[0])
            return [(st, vec(f))]
        if n.startswith('bswap'):
            return [(st, vec(lambda x: t.cat(*[t.ext(x, 8 * i, 8) for i in range(x.w // 8)])))]
        if n.startswith('umin'):
            return [(st, vec(lambda x, y: t.ite(t.ult(x, y), x, y)))]
        if n.startswith('umax'):
            return [(st, vec(lambda x, y: t.ite(t.ult(x, y), y, x)))]
        if n.startswith('smin'):
            return [(st, vec(lambda x, y: t.ite(t.slt(x, y), x, y)))]
        if n.startswith('smax'):
            return [(st, vec(lambda x, y: t.ite(t.slt(x, y), y, x)))]
        if n.startswith('abs'):
            return [(st, vec(lambda x, *r: t.ite(t.slt(x, t.C(0, x.w)), t.neg(x), x)))]
        if n.startswith('usub.sat'):
            return [(st, vec(lambda x, y: t.ite(t.ult(x, y), t.C(0, x.w), t.sub(x, y))))]
        if n.startswith('uadd.sat'):
            return [(st, vec(lambda x, y: t.ite(t.ult(t.add(x, y), x), t.C(-1, x.w), t.add(x, y))))]
        if n.startswith('uadd.with'):
            s = t.add(a[0], a[1])
            return [(st, (s, t.ult(s, a[0])))]
        if n.startswith('usub.with'):
            return [(st, (t.sub(a[0], a[1]), t.ult(a[0], a[1])))]
        if n.startswith('umul.with') or n.startswith('smul.with') or n.startswith('sadd.with') or n.startswith('ssub.with'):
            x, y = a
            w = x.w
            e = t.zext if n[0] == 'u' else t.sext
            op = t.mul if n[1:4] == 'mul' else t.add if n[1:4] == 'add' else t.sub
            ww = 2 * w if n[1:4] == 'mul' else w + 1
            full = op(e(x, ww), e(y, ww))
            low = op(x, y)
            return [(st, (low, t.ne(full, e(low, ww))))]
        if n.startswith('ucmp') or n.startswith('scmp'):
            lt = t.ult if n[0] == 'u' else t.slt
            w = 8
            return [(st, t.ite(lt(a[0], a[1]), t.C(-1, w), t.ite(t.eq(a[0], a[1]), t.C(0, w), t.C(1, w))))]
        if n.startswith('ctpop'):
            x = a[0]
            if x.op == 'c':
                return [(st, t.C(bin(x.a[0]).count('1'), x.w))]
            r = t.C(0, x.w)
            for i in range(x.w):
                r = t.add(r, t.zext(t.ext(x, i, 1), x.w))
            return [(st, r)]
        if n.startswith('cttz') or n.startswith('ctlz'):
            x = a[0]
            if x.op == 'c':
                v = x.a[0]
                if n.startswith('cttz'):
                    r = (v & -v).bit_length() - 1 if v else x.w
                else:
                    r = x.w - v.bit_length()
                return [(st, t.C(r, x.w))]
        if n.startswith('x86.ssse3.pshuf.b') or n.startswith('x86.avx2.pshuf.b'):
            x, m = a
            out = []
            for i in range(len(x)):
                mi = m[i]
                if mi.op != 'c':
                    raise Unsupported('variable byte shuffle')
                v = mi.a[0]
                out.append(t.C(0, 8) if v & 0x80 else x[(i & ~15) | (v & 15)])
            return [(st, out)]
        if n.startswith('vector.reduce.'):
            op = n.split('.')[2]
            f = {'or': t.bor, 'and': t.band, 'xor': t.bxor, 'add': t.add}.get(op)
            if f:
                r = a[0][0]
                for x in a[0][1:]:
                    r = f(r, x)
                return [(st, r)]
        if n.startswith('trap') or n.startswith('ubsantrap') or n.startswith('abort'):
            self.oblige(st, t.FALSE, 'no-panic', detail=name)
            return []
        raise Unsupported('intrinsic %s' % name)


class DeadPath(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, c):
        self.c = c


def _has(d, a):
    """does the linear form d mention the base of address a?"""
    base = next(x for x in a.a if x.op == 'v')
    for n in t.topo([d]):
        if n is base or n is a:
            return True
    return False


PANIC_PAT = ('9panicking', '16slice_index_fail', '13unwrap_failed', '13expect_failed', 'len_mismatch_fail', '11begin_panic',
             'handle_alloc_error', 'panic_bounds', '15begin_panic_fmt', 'slice_error_fail', '17panic_already', 'capacity_overflow',
             '12handle_error', 'panic_display', '18panic_in_cleanup', 'panic_cold', 'assert_failed', 'rust_panic', 'panic_fmt')


def is_panic(f):
    n = f.name
    return any(p in n for p in PANIC_PAT)


def short(s):
    import re
    s = re.sub(r'::\{closure.*', '::{closure}', s)
    return s[-110:]


def _icmp(c, a, b):
    if c == 'eq':
        return t.eq(a, b)
    if c == 'ne':
        return t.ne(a, b)
    if c == 'ult':
        return t.ult(a, b)
    if c == 'ugt':
        return t.ult(b, a)
    if c == 'ule':
        return t.ule(a, b)
    if c == 'uge':
        return t.ule(b, a)
    if c == 'slt':
        return t.slt(a, b)
    if c == 'sgt':
        return t.slt(b, a)
    if c == 'sle':
        return t.sle(a, b)
    if c == 'sge':
        return t.sle(b, a)
    raise Unsupported('icmp ' + c)


_BINF = {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'udiv': t.udiv, 'urem': t.urem, 'sdiv': t.sdiv, 'srem': t.srem,
         'and': t.band, 'or': t.bor, 'xor': t.bxor, 'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr}

_act = [0]


class FnInfo:
    """control-flow facts of one function: reverse post-order, natural loops"""

    def __init__(self, f):
        blocks = f.order
        succ = {b.name: succs(b) for b in blocks}
        entry = blocks[0].name
        seen = set()
        post = []
        st = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = list(reversed(post))
        self.rpo = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        # dominators
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(p, new, idom)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if self._dom(s, b, idom, entry):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        # topological-ish priority where loop bodies come before loop exits
        self.prio = self._prio(rpo, succ)

    def _prio(self, rpo, succ):
        # order by nested loop structure: RPO already places exits after bodies only sometimes; recompute with
        # a DFS that visits loop exits first (so they end up later in reverse post-order)
        loops = self.loops
        inner = {}
        for h, body in sorted(loops.items(), key=lambda kv: -len(kv[1])):
            for b in body:
                inner[b] = h
        entry = rpo[0]
        seen = {entry}
        post = []

        def order(b):
            h = inner.get(b)
            ss = list(succ[b])
            if h is not None:
                body = loops[h]
                ss.sort(key=lambda s: 0 if s not in body else 1)
            return iter(ss)
        st = [(entry, order(entry))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, order(s)))
                    break
            else:
                post.append(b)
                st.pop()
        return {b: i for i, b in enumerate(reversed(post))}

    def _inter(self, a, b, idom):
        r = self.rpo
        while a != b:
            while r[a] > r[b]:
                a = idom[a]
            while r[b] > r[a]:
                b = idom[b]
        return a

    def _dom(self, a, b, idom, entry):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]


def succs(b):
    i = b.term
    if i.op == 'br':
        return [i.a[0]]
    if i.op == 'condbr':
        return [i.a[1], i.a[2]]
    if i.op == 'switch':
        return [i.a[2]] + [x[1] for x in i.a[3]]
    if i.op == 'invoke':
        return [i.a[2]]      # unwind edges are panics, which are obligations of their own
    return []


class Activation:
    def __init__(self, ctx, f):
        self.ctx = ctx
        self.f = f
        info = getattr(f, 'info', None)
        if info is None:
            info = FnInfo(f)
            f.info = info
        self.info = info
        _act[0] += 1
        self.id = _act[0]
        self.rets = []

    def run(self, args, st):
        f = self.f
        regs = {}
        if len(args) != len(f.args):
            raise Unsupported('arity of %s' % f.pretty)
        for (ty, nm), v in zip(f.args, args):
            regs[nm] = v
        st.gh[('al', self.id)] = ()
        pend = {f.order[0].name: [(None, regs, st)]}
        ex = self.explore(pend, None, None)
        assert not ex
        return self.rets

    def explore(self, pend, region, header):
        """run until everything has left `region` (set of block names) or returned to header.
        -> list of (block, prev, regs, st) that left, backs under key header"""
        out = []
        info = self.info
        ctx = self.ctx
        while pend:
            bn = min(pend, key=lambda b: info.prio.get(b, 1 << 30))
            items = pend.pop(bn)
            if ctx.merge and len(items) > 1:
                items = self.merge_items(items)
            for prev, regs, st in items:
                if bn in info.loops and bn != header:
                    res = self.loop(bn, prev, regs, st)
                else:
                    res = self.block(bn, regs, st)
                for nb, pv, rg, s in res:
                    if region is not None and (nb not in region or nb == header):
                        out.append((nb, pv, rg, s))
                    else:
                        pend.setdefault(nb, []).append((pv, rg, s))
            if time.time() > ctx.deadline:
                raise Budget('time')
        return out

    def merge_items(self, items):
        out = [items[0]]
        for it in items[1:]:
            done = False
            for k in range(len(out)):
                m = self.ctx.merge2(out[k][2], it[2], out[k][1], it[1])
                if m is not None:
                    out[k] = (out[k][0], m[1], m[0])
                    done = True
                    break
            if not done:
                out.append(it)
        return out

    def iteration(self, h, regs, st):
        """one pass over the loop body from the header: -> (backs, exits)"""
        body = self.info.loops[h]
        res = self.explore({h: [(None, regs, st)]}, body, h)
        backs = [(rg, s) for nb, pv, rg, s in res if nb == h]
        exits = [r for r in res if r[0] != h]
        return backs, exits

    def loop(self, h, prev, regs, st):
        """all iterations of the loop at header h: -> exits"""
        ctx = self.ctx
        exits = []
        cur = [(regs, st)]
        visits = 0
        while cur:
            if ctx.merge and len(cur) > 1:
                cur = [(r, s) for _, r, s in self.merge_items([(None, r, s) for r, s in cur])]
            regs, st = cur.pop(0)
            visits += 1
            if visits > ctx.max_visits:
                raise Budget('loop iterations in %s' % short(self.f.pretty))
            snap = None
            if ctx.loop_strategy is not None and ctx.loop_strategy.direct(self, h):
                r = ctx.loop_strategy(ctx, self, h, dict(regs), st.fork(), len(ctx.obs), len(self.rets), None)
                if r is not None:
                    exits.extend(r)
                    continue
            if ctx.loop_strategy is not None:
                snap = (dict(regs), st.fork(), len(ctx.obs), len(self.rets))
            backs, ex = self.iteration(h, regs, st)
            if snap is not None and backs and (ex or len(self.rets) > snap[3] or visits > 40):
                r = ctx.loop_strategy(ctx, self, h, snap[0], snap[1], snap[2], snap[3], backs)
                if r is not None:
                    exits.extend(r)
                    continue
            exits.extend(ex)
            cur = backs + cur
        return exits

    # ------------------------------------------------------------ block
    def block(self, bn, regs, st):
        """execute one block; -> [(next, prev, regs, st)] (returns go to self.rets)"""
        b = self.f.blocks[bn]
        ctx = self.ctx
        out = []
        work = [(0, regs, st)]
        while work:
            i, regs, st = work.pop()
            ins = b.ins
            n = len(ins)
            alive = True
            while i < n:
                I = ins[i]
                ctx.steps += 1
                try:
                    if I.op == 'call':
                        res = self.do_call(I, regs, st)
                        i += 1
                        if not res:
                            alive = False
                            break
                        if len(res) > 1:
                            for s2, v in res[1:]:
                                r2 = dict(regs)
                                if I.dst:
                                    r2[I.dst] = v
                                work.append((i, r2, s2))
                        st, v = res[0]
                        if I.dst:
                            if len(res) > 1:
                                regs = dict(regs)
                            regs[I.dst] = v
                        continue
                    self.instr(I, regs, st)
                except NeedFork as e:
                    d = ctx.decide(st, e.c)
                    if d is None:
                        s2 = st.fork()
                        s2.assume(t.bnot(e.c))
                        work.append((i, dict(regs), s2))
                        st.assume(e.c)
                        regs = dict(regs)
                    continue
                except DeadPath:
                    alive = False
                    break
                i += 1
            if not alive:
                continue
            ctx.cur = st
            self.term(b, regs, st, out)
        return out

    def goto(self, b, target, regs, st, out):
        blk = self.f.blocks[target]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                for v, pb in ph.a:
                    if pb == b.name or (b.name == '%entry!' and pb == '%start'):
                        vals.append((ph.dst, self.ctx.operand(v, ph.ty, regs)))
                        break
                else:
                    raise Unsupported('phi edge')
            for d, v in vals:
                regs[d] = v
        out.append((target, b.name, regs, st))

    def term(self, b, regs, st, out):
        I = b.term
        ctx = self.ctx
        op = I.op
        if op == 'br':
            return self.goto(b, I.a[0], regs, st, out)
        if op == 'condbr':
            c = ctx.operand(I.a[0], ir.I1, regs)
            if c is UNDEF:
                raise Unsupported('branch on undef in %s' % short(self.f.pretty))
            if c.op == 'c':
                return self.goto(b, I.a[1] if c.a[0] else I.a[2], regs, st, out)
            if ctx.branches is not None:
                ctx.branches.append(c)
            d = ctx.decide(st, c)
            if d is not None:
                return self.goto(b, I.a[1] if d else I.a[2], regs, st, out)
            s2 = st.fork()
            r2 = dict(regs)
            st.assume(c)
            s2.assume(t.bnot(c))
            self.goto(b, I.a[1], regs, st, out)
            self.goto(b, I.a[2], r2, s2, out)
            return
        if op == 'switch':
            v = ctx.operand(I.a[1], I.a[0], regs)
            if v is UNDEF:
                raise Unsupported('switch on undef')
            if v.op == 'c':
                for c, tgt in I.a[3]:
                    if (c & ((1 << v.w) - 1)) == v.a[0]:
                        return self.goto(b, tgt, regs, st, out)
                return self.goto(b, I.a[2], regs, st, out)
            rest = t.TRUE
            if ctx.branches is not None:
                ctx.branches.append(v)
            for c, tgt in I.a[3]:
                e = t.eq(v, t.C(c, v.w))
                rest = t.band(rest, t.bnot(e))
                if e is t.FALSE or ctx.sv.check(st.pc, (e,)) == 'unsat':
                    continue
                s2 = st.fork()
                s2.assume(e)
                self.goto(b, tgt, dict(regs), s2, out)
            if rest is not t.FALSE and ctx.sv.check(st.pc, (rest,)) != 'unsat':
                st.assume(rest)
                self.goto(b, I.a[2], regs, st, out)
            return
        if op == 'ret':
            v = None
            if I.a[0] is not None:
                v = ctx.operand(I.a[0], I.ty, regs)
            self.rets.append((st, v))
            return
        if op == 'unreachable':
            ctx.oblige(st, t.FALSE, 'unreachable', detail='unreachable reached in %s' % short(self.f.pretty))
            return
        if op == 'invoke':
            res = self.do_call(I, regs, st)
            for k, (s, v) in enumerate(res):
                r = dict(regs) if len(res) > 1 else regs
                if I.dst:
                    r[I.dst] = v
                self.goto(b, I.a[2], r, s, out)
            return
        if op == 'resume':
            return
        raise Unsupported('terminator ' + op)

    def do_call(self, I, regs, st):
        ctx = self.ctx
        callee, args = I.a[0], I.a[1]
        vals = [ctx.operand(v, ty, regs) for ty, v in args]
        if callee[0] == 'g':
            name = callee[1]
        elif callee[0] == 'asm':
            if callee[1] == '""':
                # optimisation barrier: value passes through unchanged
                return [(st, vals[0] if len(vals) == 1 else tuple(vals) if vals else None)]
            if re.fullmatch(r'"/\* \$\{0\} \*/"', callee[1].strip()) and len(vals) == 1:
                # constant_time_eq's optimizer barrier: an empty template whose output is its input
                ctx.used_contracts['empty asm template'] = ctx.used_contracts.get('empty asm template', 0) + 1
                return [(st, vals[0])]
            raise Unsupported('inline asm %s' % callee[1])
        else:
            fv = ctx.operand(callee, ir.PTR, regs)
            if not isinstance(fv, FnPtr):
                r = ctx.indirect(st, fv, vals) if hasattr(ctx, 'indirect') else None
                if r is None:
                    raise Unsupported('indirect call through %r' % (fv,))
                return r
            name = fv.name
        ctx.cur = st
        ctx.frames.append(regs)
        try:
            return ctx.call(name, vals, st)
        finally:
            ctx.frames.pop()

    # ------------------------------------------------------------ instructions
    def instr(self, I, regs, st):
        ctx = self.ctx
        op = I.op
        O = ctx.operand
        if op == 'load':
            p = O(I.a[0], ir.PTR, regs)
            if I.a[1] > 1:
                ctx.check_align(st, p, I.a[1])
            regs[I.dst] = ctx.load(st, p, I.ty)
        elif op == 'store':
            p = O(I.a[1], ir.PTR, regs)
            if I.a[2] > 1:
                ctx.check_align(st, p, I.a[2])
            ctx.store(st, p, I.ty, O(I.a[0], I.ty, regs))
        elif op == 'gep':
            regs[I.dst] = ctx.gep(I.a[0], O(I.a[1], ir.PTR, regs), [(ty, O(v, ty, regs)) for ty, v in I.a[2]])
        elif op == 'bin':
            o, a, b, fl = I.a
            x = O(a, I.ty, regs)
            y = O(b, I.ty, regs)
            f = _BINF[o]
            if I.ty[0] == 'vec':
                if x is UNDEF or y is UNDEF:
                    regs[I.dst] = UNDEF
                else:
                    regs[I.dst] = [f(p, q) if p is not UNDEF and q is not UNDEF else UNDEF for p, q in zip(x, y)]
            else:
                if x is UNDEF or y is UNDEF:
                    raise Unsupported('arithmetic on undef in %s' % short(self.f.pretty))
                if o in ('udiv', 'urem', 'sdiv', 'srem') and y.op != 'c':
                    ctx.cur = st
                    c = ctx.concretize(y)
                    if c is not None:
                        y = t.C(c, y.w)
                    ctx.oblige(st, t.ne(y, t.C(0, y.w)), 'no-div-by-zero')
                if o == 'mul' and x.op != 'c' and y.op != 'c':
                    ctx.cur = st
                    c = ctx.concretize(y)
                    if c is not None:
                        y = t.C(c, y.w)
                    else:
                        c = ctx.concretize(x)
                        if c is not None:
                            x = t.C(c, x.w)
                regs[I.dst] = f(x, y)
        elif op == 'icmp':
            c, a, b = I.a
            x = O(a, I.ty, regs)
            y = O(b, I.ty, regs)
            if x is UNDEF or y is UNDEF:
                raise Unsupported('comparison of undef in %s' % short(self.f.pretty))
            if I.ty[0] == 'vec':
                regs[I.dst] = [_icmp(c, p, q) for p, q in zip(x, y)]
            elif I.ty[0] == 'ptr':
                ctx.cur = st
                regs[I.dst] = ctx.ptr_cmp(c, x, y)
            else:
                regs[I.dst] = _icmp(c, x, y)
        elif op == 'cast':
            regs[I.dst] = self.cast(I, regs, st)
        elif op == 'alloca':
            ty, al = I.a
            oid = ctx.new_obj(st, I.dst, ir.sizeof(ty), al)
            st.gh[('al', self.id)] = st.gh[('al', self.id)] + (oid,)
            regs[I.dst] = Ptr(oid, t.C(0, 64))
        elif op == 'select':
            ct, c, a, b = I.a
            cv = O(c, ct, regs)
            x = O(a, I.ty, regs)
            y = O(b, I.ty, regs)
            if cv is UNDEF:
                raise Unsupported('select on undef')
            if ctx.eager and ct[0] != 'vec' and cv.op != 'c':
                dv = ctx.decide(st, cv)
                if dv is not None:
                    cv = t.B(dv)
            if ct[0] == 'vec':
                regs[I.dst] = [ctx.merge_val(p, q, r) if p.op != 'c' else (q if p.a[0] else r) for p, q, r in zip(cv, x, y)]
            elif cv.op == 'c':
                regs[I.dst] = x if cv.a[0] else y
            else:
                if x is UNDEF or y is UNDEF:
                    regs[I.dst] = x if y is UNDEF else y
                elif ctx.nomerge is not None and x is not y and not (isinstance(x, t.T) and isinstance(y, t.T)) \
                        and ctx.nomerge(cv, t.bnot(cv)):
                    raise NeedFork(cv)
                else:
                    regs[I.dst] = ctx.merge_val(cv, x, y)
        elif op == 'extractvalue':
            v = O(I.a[0], I.ty, regs)
            for k in I.a[1]:
                v = v[k] if v is not UNDEF else UNDEF
            regs[I.dst] = v
        elif op == 'insertvalue':
            a, t2, v, ix = I.a
            agg = O(a, I.ty, regs)
            val = O(v, t2, regs)
            regs[I.dst] = self.insertv(agg, I.ty, ix, val)
        elif op == 'extractelement':
            a, t2, i = I.a
            k = O(i, t2, regs)
            if k.op != 'c':
                raise Unsupported('variable lane')
            v = O(a, I.ty, regs)
            regs[I.dst] = v[k.a[0]] if v is not UNDEF else UNDEF
        elif op == 'insertelement':
            a, t1, v, t2, i = I.a
            k = O(i, t2, regs)
            if k.op != 'c':
                raise Unsupported('variable lane')
            vec = O(a, I.ty, regs)
            vec = [UNDEF] * I.ty[1] if vec is UNDEF else list(vec)
            vec[k.a[0]] = O(v, t1, regs)
            regs[I.dst] = vec
        elif op == 'shufflevector':
            a, b, mask = I.a
            n = I.ty[1]
            x = O(a, I.ty, regs)
            y = O(b, I.ty, regs)
            x = [UNDEF] * n if x is UNDEF else x
            y = [UNDEF] * n if y is UNDEF else y
            z = list(x) + list(y)
            regs[I.dst] = [UNDEF if m is None else z[m] for m in mask]
        elif op == 'freeze':
            v = O(I.a[0], I.ty, regs)
            if v is UNDEF and I.ty[0] == 'i':
                v = t.fresh('freeze', I.ty[1])
            regs[I.dst] = v
        else:
            raise Unsupported('instruction %s: %s' % (op, I.text[:100]))

    def insertv(self, agg, ty, ix, val):
        n = len(ty[1]) if ty[0] == 'st' else ty[1]
        a = [UNDEF] * n if agg is UNDEF else list(agg)
        k = ix[0]
        if len(ix) == 1:
            a[k] = val
        else:
            sub = ty[1][k] if ty[0] == 'st' else ty[2]
            a[k] = self.insertv(a[k], sub, ix[1:], val)
        return tuple(a)

    def cast(self, I, regs, st):
        op, ft, a = I.a
        ctx = self.ctx
        v = ctx.operand(a, ft, regs)
        tt = I.ty
        if v is UNDEF:
            return UNDEF
        ctx.cur = st
        if op in ('zext', 'sext', 'trunc'):
            f = {'zext': t.zext, 'sext': t.sext, 'trunc': t.trunc}[op]
            if tt[0] == 'vec':
                return [f(x, tt[2][1]) for x in v]
            return f(v, tt[1])
        if op == 'ptrtoint':
            r = ctx.ptr2int(v)
            return t.trunc(r, tt[1]) if tt[1] < 64 else r
        if op == 'inttoptr':
            return ctx.int2ptr(v)
        if op == 'bitcast':
            bits = flatten(v, ctx)
            if tt[0] == 'vec':
                w = tt[2][1]
                if isinstance(v, list) and ft[0] == 'vec' and ft[2] == tt[2]:
                    return v
                return [t.ext(bits, i * w, w) for i in range(tt[1])]
            if tt[0] == 'i':
                return bits
        raise Unsupported('cast %s' % op)


def flatten(v, ctx):
    if isinstance(v, list):
        return t.cat(*[flatten(x, ctx) for x in reversed(v)])
    if v is UNDEF:
        raise Unsupported('bitcast of undef lane')
    return v
