"""The tree modes (BLAKE2bp, BLAKE2sp): parameters, states, one-shot hashing, and compress_many over the leaves.

A tree state is (h[0..DEG), cnt0, R[0..pend)): leaf i has chaining words h[i] after cnt0 bytes, and its next bytes are the blocks
i, i+DEG, ... of the pending stream R.  update may turn K whole rounds of R into chaining words; what finalize
computes does not depend on how many (the progress lemma of the kernels' contracts)."""
from . import term as t
from . import ir, spec
from .b2 import *
from .lemmas import *
from .api import *
from .many import *
from .batch import Batch

Z = t.C(0, 64)


# ------------------------------------------------------------------ compress_many over the leaves
def reaches(x):
    """functions from which a compression loop can be reached"""
    if hasattr(x, '_reach'):
        return x._reach
    goal = {f.name for f in [compress1_fn(x)] + [kernel_fn(x, N) for N in kernel_platforms(x)] if f is not None}
    calls = {}
    for m in x.mods:
        for f in m.funcs.values():
            if f.defined and (x.crate in (f.pretty or '') or 'arrayvec' in (f.pretty or '')):
                calls[f.name] = f
    x._reach_goal, x._calls = goal, calls
    x._reach = {}
    return x._reach


def callees(f):
    f.parse()
    for b in f.order:
        for I_ in list(b.ins) + [b.term]:
            if I_.op in ('call', 'invoke'):
                yield b, I_


class Leaves(Batch):
    """the loops of compress_many when the jobs are the leaves of one tree: every round ends at least one of them, so there
    are finitely many scheduling states; in each a started leaf is (unknown words, unknown rest, the words V it must end with)"""

    def __init__(self, x):
        self.x = x
        self.stats = dict(states=0, canon=0)
        self.log, self.depth = None, 0
        self.loops, self.memo_iter, self._made, self._own = set(), {}, {}, {}
        self.items = set()
        self.base = None
        self.mark = 0
        self.on = 0
        self._direct = {}

    def direct(self, act, h):
        if not self.on:
            return False
        k = (act.f.name, h)
        r = self._direct.get(k)
        if r is None:
            r = False
            body = act.info.loops[h]
            for b, I_ in callees(act.f):
                if b.name in body and any(n in str(I_.a) or n in str(I_.__dict__ if hasattr(I_, '__dict__') else '') for n in self.goal()):
                    r = True
            self._direct[k] = r
        return r

    def goal(self):
        if not hasattr(self, '_goal'):
            x = self.x
            self._goal = [f.name for f in [compress1_fn(x)] + [kernel_fn(x, N) for N in kernel_platforms(x)] if f is not None]
        return self._goal

    def __call__(self, ctx, act, h, regs, st, n_obs, n_rets, backs):
        if not self.direct(act, h):
            return None
        return Batch.__call__(self, ctx, act, h, regs, st, n_obs, n_rets, backs)

    def mentioned(self, m):
        return True if self.depth > 1 else Batch.mentioned(self, m)

    def old(self, c):
        """mentions nothing made since compress_many was entered"""
        r = self._own.get(c.id)
        if r is None:
            r = self._own[c.id] = all((n.a[0].uid if n.op == 'rd' else n.id) <= self.mark for n in t.topo([c]) if n.op in ('v', 'rd', 'H'))
        return r

    def leaves(self, st):
        return {k[1]: g for k, g in st.gh.items() if isinstance(k, tuple) and k[0] == 'job'}

    def words_at(self, k):
        return Ptr(k[0], t.C(k[1], 64))

    def same_words(self, st, k, ws):
        return all(a is b for a, b in zip(self.x.rd_words(st, self.words_at(k)), ws))

    def canon(self, regs, st, where=''):
        x, ctx = self.x, self.x.ctx
        self.stats['canon'] += 1
        st = st.fork()
        ctx.cur = st
        L = x.lay['Job']
        gs = self.leaves(st)
        self.items = {k[0] for k in gs}
        self.scrub(st)
        names, facts = {}, []
        known = st.gh.get('canon', frozenset())
        new = set()
        for c in pc_list(st.pc, self.base):
            if c.id not in known:
                new |= ctx.sv.syms(c)
        where_ = {}
        for oid, o in st.mem.items():
            if o.ro or o.tag == 'anonin':
                continue
            for off, (n, v) in o.cells.items():
                if isinstance(v, Ptr) and v.off.op == 'c' and (v.obj, v.off.a[0]) in gs:
                    b = off - L['words']
                    c = o.cells
                    if b >= 0 and all((b + k) in c and c[b + k][0] == m for k, m in ((L['input'], 8), (L['input'] + 8, 8), (L['count'], x.CW // 8), (L['last_node'], 1))):
                        where_.setdefault((v.obj, v.off.a[0]), []).append((oid, b))
        for k in sorted(gs):
            g = gs[k]
            pl = []
            for o, b in sorted(where_.get(k, ())):
                p, n, cnt, last, wp = self.rec_fields(st, o, b)
                if g.off is not None and isinstance(p, Ptr) and p.obj == g.obj and p.off is g.off and n is g.n and cnt is g.cnt:
                    pl.append((o, b))
                else:
                    self.kill(st, o, b)
            if not self.same_words(st, k, g.w):
                continue
            att = st.gh.get(('att', k))
            if att is not None and att[0] is g and (g.n is Z or new.isdisjoint(ctx.sv.syms(g.n))):
                nz, fc = att[1:3]
            else:
                nz = False if g.n is Z else ctx.decide(st, t.ne(g.n, Z))
                bb = x.B.bit_length() - 1
                if nz is False:
                    n2, words, fc = Z, g.V, []
                else:
                    n2 = t.fresh('len', 64) if g.fin else t.cat(t.fresh('len', 64 - bb), t.C(0, bb))
                    w2 = [t.fresh('w', x.W) for _ in range(8)]
                    fc = [t.ult(n2, t.C(1 << 62, 64))] + ([t.ne(n2, Z)] if nz else [])
                    words = w2 if nz else [t.ite(t.eq(n2, Z), v, w) for v, w in zip(g.V, w2)]
                c2 = t.cat(t.fresh('cnt', x.CW - bb), t.C(0, bb))
                io = ctx.new_obj(st, 'rest', n2, 1, Base(Array('rest%d' % t._next[0]).at), ro=True, tag='anonin')
                if pl:
                    g2 = JobGhost(g.V, io, Z, n2, c2, g.last, words, g.fin, g.S, True)
                    for o, b in pl:
                        ob = st.wobj(o)
                        ob.cells[b + L['input']] = (8, Ptr(io, Z))
                        ob.cells[b + L['input'] + 8] = (8, n2)
                        ob.cells[b + L['count']] = (x.CW // 8, c2)
                else:
                    g2 = JobGhost(g.V, g.obj, None, n2, None, None, words, g.fin, g.S, True)
                x.wr_words(st, self.words_at(k), words)
                st.gh[('job', k)] = g2
                st.gh[('cur', k)] = (Z, n2, c2, io)
                st.gh[('att', k)] = (g2, nz, fc)
                g = g2
            facts += fc
            nm = ('leaf', k, nz, tuple(v.id for v in g.V))
            for o, b in pl:
                for d in (L['input'], L['input'] + 8, L['count']):
                    names[o, b + d] = ('rec', d, nm)
            if nz is not False:
                for i in range(8):
                    names[k[0], k[1] + i * x.WB] = ('lw', i, nm)
        # unused remainders
        refs = {v.obj for oid, o in st.mem.items() if not o.ro for n, v in o.cells.values() if isinstance(v, Ptr)}
        for oid in [i for i, o in st.mem.items() if o.tag == 'anonin' and i not in refs]:
            del st.mem[oid]
        kept = [c for c in pc_list(st.pc, self.base) if c not in facts and self.old(c)]
        st.pc = self.base
        for c in kept + facts:
            st.assume(c)
        st.gh['canon'] = frozenset(c.id for c in facts)
        key = []
        if regs is not None:
            for r in sorted(regs):
                key.append((r, self.norm(regs[r])))
        for oid in sorted(st.mem):
            o = st.mem[oid]
            if o.tag == 'anonin' or o.ro:
                continue
            cs = tuple((k, n, names.get((oid, k)) or self.norm(v)) for k, (n, v) in sorted(o.cells.items()))
            key.append((oid, id(o.below) if o.below is not None else 0, cs))
        key.append(tuple(sorted((k, tuple(v.id for v in g.V)) for k, g in self.leaves(st).items())))
        key.append(tuple(sorted(c.id for c in kept)))
        return tuple(key), st

    # -------------------------------------------------------------- compress_many as one step
    def compress_many(self, ctx, st, f, a):
        if self.on:
            return None
        save = self.base, self.mark
        keep = {k: v for k, v in st.gh.items() if isinstance(k, tuple) and k[0] in ('job', 'cur', 'att')}
        for k in keep:
            del st.gh[k]
        st.gh.pop('canon', None)
        self.base, self.mark, self.on = st.pc, t.fresh('mark', 1).id, 1
        self.memo_iter = {}
        rets = []
        try:
            seen = set()
            for s, v in ctx.run_fn(f, a, st):
                k, c = self.canon({'ret': v} if v is not None else {}, s)
                if k in seen:
                    continue
                seen.add(k)
                for q in [q for q in c.gh if isinstance(q, tuple) and q[0] in ('job', 'cur', 'att')]:
                    del c.gh[q]
                c.gh.pop('canon', None)
                rets.append((c, v))
        finally:
            self.on = 0
            self.base, self.mark = save
        return rets
    compress_many.__dict__['label'] = 'compress_many (its body, states merged)'


def install_leaves(x):
    """kernels by contract, compress_many's loops closed by Leaves"""
    x.leaf_keys = True
    kernels_contract(x)
    job_ghosts(x)
    lv = Leaves(x)
    x.ctx.loop_strategy = lv
    x.ctx.max_visits = 100000
    pre = x.crate + '::many::compress_many'

    def cm(ctx, st, f, a):
        return lv.compress_many(ctx, st, f, a)
    cm.label = 'compress_many (its body, states merged)'
    x.ctx.contracts.insert(0, (lambda f: (f.pretty or '').startswith(pre + '::<'), cm))
    return lv


# ------------------------------------------------------------------ specification
def leaf_slots(x):
    return [x.lay['TState']['leaf_words'] + i * 8 * x.WB for i in range(x.DEG)]


def leaf_byte(x, i, byte, j):
    """byte j of the stride view of leaf i: the stream from block i on"""
    return byte(t.add(t.C(i * x.B, 64), j))


def leaf_cases(x, st, N, top=None):
    """[(state, how many blocks have input)] for N pending bytes: all cases up to `top`, the last one open unless N is bounded"""
    out = []
    top = top or x.DEG
    for c in range(top + 1):
        s = st.fork()
        if c:
            s.assume(t.ult(t.C((c - 1) * x.B, 64), N))
        if c < top:
            s.assume(t.ule(N, t.C(c * x.B, 64)))
        out.append((s, c))
    return out


def leaf_value(x, st, i, h, cnt, N, byte, c):
    """the final words of leaf i when the first c leaves have input"""
    n = Z if i >= c else t.sub(N, t.C(i * x.B, 64))
    return job_value(x, st, lambda j: leaf_byte(x, i, byte, j), n, h, cnt, True, x.B * x.DEG, t.B(i == x.DEG - 1))


def root_value(x, leaf, root):
    """the root hashes the concatenated digests of the leaves, as the last node"""
    by = [t.ext(w, 8 * b, 8) for ws in leaf for w in ws for b in range(x.WB)]
    nb = len(by) // x.B
    h = root
    for k in range(nb):
        blk = x.block_terms(lambda j: by[k * x.B + j.a[0] if isinstance(j, t.T) else k * x.B + j])
        end = k == nb - 1
        h = x.F(h, blk, t.C((k + 1) * x.B, x.CW), x.flag(t.B(end)), x.flag(t.B(end)))
    return h


def tree_param_words(x, hl, kl):
    """the parameter blocks of leaf i and of the root, from the BLAKE2 paper, section 2.10 / the reference implementations"""
    def node(off, depth):
        d = default_params(x, None)
        d.update(hash_length=hl, key_length=kl, fanout=t.C(x.DEG, 8), max_depth=t.C(2, 8), max_leaf_length=t.C(0, 32),
                 node_offset=t.C(off, 64), node_depth=t.C(depth, 8), inner_hash_length=t.C(x.OUT, 8))
        return spec_param_words(x, d)
    return [node(i, 0) for i in range(x.DEG)], node(0, 1)


# ------------------------------------------------------------------ parameters
def sym_tparams(x, st, name='tp', keyed=None, keyarr=None):
    d = {}
    hl, kl = t.V(name + '.hash_length', 8), t.V(name + '.key_length', 8)
    st.assume(t.land(t.ne(hl, t.C(0, 8)), t.ule(hl, t.C(x.OUT, 8))))
    st.assume(t.ule(kl, t.C(KEYB[x.v], 8)))
    if keyed is True:
        st.assume(t.ne(kl, t.C(0, 8)))
    if keyed is False:
        kl = t.C(0, 8)
    K = Array(name + '.key')
    d['hash_length'], d['key_length'] = hl, kl
    d['key'] = [t.ite(t.ult(t.C(i, 8), kl), K.at(t.C(i, 64)), t.C(0, 8)) for i in range(KEYB[x.v])]
    d['implementation'] = sym_impl(x, st, name)
    return d


def write_tparams(x, st, d, name='tp'):
    oid = x.ctx.new_obj(st, name, *x.size['TParams'])
    L = x.lay['TParams']
    for f in TPARAMS_F:
        put(x, st, oid, L[f], d[f])
    return Ptr(oid, Z)


def check_tparams(x, st, p, d, kind, where):
    L = x.lay['TParams']
    pairs = []
    for f in TPARAMS_F:
        if f == 'key':
            pairs += list(zip(gbytes(x, st, p, L[f], KEYB[x.v]), d[f]))
        else:
            pairs.append((get(x, st, p, L[f], 1), d[f]))
    return x.equal_all(st, pairs, kind, where)


def prove_t_setter(x, name):
    ctx = x.ctx
    st = St()
    d = sym_tparams(x, st)
    p = write_tparams(x, st, d)
    where = 'tree Params::' + name
    d2 = dict(d)
    if name == 'key':
        A = Array('arg')
        ap, n = x.slice(st, 'arg', A)
        bad = t.ult(t.C(KEYB[x.v], 64), n)
        d2['key_length'] = t.ext(n, 0, 8)
        d2['key'] = [t.ite(t.ult(t.C(i, 64), n), A.at(t.C(i, 64)), t.C(0, 8)) for i in range(KEYB[x.v])]
        args = [p, ap, n]
    else:
        n = t.V('arg', 64)
        bad = t.lor(t.ult(t.C(x.OUT, 64), n), t.eq(n, Z))
        d2['hash_length'] = t.ext(n, 0, 8)
        args = [p, n]
    ctx.panic_ok = panic_only_if(x, bad, 'setter-panic', where, lambda s: check_tparams(x, s, p, d, 'setter-panic-frame', where))
    try:
        rets = x.call('t_' + name, args, st)
    finally:
        ctx.panic_ok = None
    for s, r in rets:
        ctx.oblige(s, t.bnot(bad), 'setter-range', where, 'an out-of-range argument is accepted')
        if not (isinstance(r, Ptr) and r.obj == p.obj and r.off is Z):
            ctx.fail('setter-returns-self', where, 'refuted', 'returned %r' % (r,))
        check_tparams(x, s, p, d2, 'setter-post', where)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')


def default_tparams(x, imp):
    return dict(hash_length=t.C(x.OUT, 8), key_length=t.C(0, 8), key=[t.C(0, 8)] * KEYB[x.v], implementation=imp)


def prove_t_params(x, which):
    ctx = x.ctx
    st = St()
    where = 'tree Params::' + which
    o = ctx.new_obj(st, 'p', *x.size['TParams'])
    args = [Ptr(o, Z)]
    if which == 'clone':
        d = sym_tparams(x, st)
        p = write_tparams(x, st, d)
        st.wobj(p.obj).ro = True
        args = [p] + args
    rets = x.call('t_params_' + which, args, st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s, _ in rets:
        if which != 'clone':
            imp = get(x, s, Ptr(o, Z), x.lay['TParams']['implementation'], 1)
            imp_valid(x, s, imp, where)
            if imp is UNDEF:
                continue
            d = default_tparams(x, imp)
        check_tparams(x, s, Ptr(o, Z), d, 'clone-post' if which == 'clone' else 'params-default', where)


# ------------------------------------------------------------------ states
def round_bytes(x):
    return x.DEG * x.B


def sym_tstate(x, st, name='ts'):
    """any tree state satisfying the invariant: after some rounds at least one byte for each leaf is pending"""
    B, CW, RB = x.B, x.CW, round_bytes(x)
    s = SV()
    s.name = name
    s.R = Array(name + '.R')
    s.leaf = [[t.V('%s.leaf%d.%d' % (name, i, j), x.W) for j in range(8)] for i in range(x.DEG)]
    s.root = [t.V('%s.root.%d' % (name, j), x.W) for j in range(8)]
    sh, dg = B.bit_length() - 1, x.DEG.bit_length() - 1
    # cnt0 * DEG is within the counter
    s.cnt0 = t.cat(t.C(0, dg), t.V(name + '.blocks', CW - sh - dg), t.C(0, sh))
    s.buflen = t.V(name + '.buf_len', 16)
    s.pend = t.zext(s.buflen, 64)
    s.stale = Array(name + '.stale')
    s.total = t.add(t.mulc(s.cnt0, x.DEG), t.zext(s.buflen, CW))
    st.assume(t.ule(s.buflen, t.C(2 * RB, 16)))
    st.assume(t.lor(t.eq(s.cnt0, t.C(0, CW)), t.ult(t.C((x.DEG - 1) * B, 16), s.buflen)))
    st.assume(t.ule(t.mulc(s.cnt0, x.DEG), s.total))
    s.hash_length = t.V(name + '.hash_length', 8)
    st.assume(t.land(t.ne(s.hash_length, t.C(0, 8)), t.ule(s.hash_length, t.C(x.OUT, 8))))
    s.impl = sym_impl(x, st, name)
    s.keyed = t.V(name + '.is_keyed', 1)
    st.assume(t.lor(t.bnot(s.keyed), t.ule(t.C(RB, CW), s.total)))
    return s


def write_tstate(x, st, s, ro=False, whole=False):
    L = x.lay['TState']
    oid = x.ctx.new_obj(st, s.name, *x.size['TState'])
    for i in range(x.DEG):
        for j in range(8):
            put(x, st, oid, L['leaf_words'] + (8 * i + j) * x.WB, s.leaf[i][j])
    for j in range(8):
        put(x, st, oid, L['root_words'] + j * x.WB, s.root[j])
    # whole: R is the whole buffer
    put_base(x, st, oid, L['buf'], 2 * round_bytes(x), s.R.at if whole else lambda i: t.ite(t.ult(i, s.pend), s.R.at(i), s.stale.at(i)))
    put(x, st, oid, L['buf_len'], s.buflen)
    put(x, st, oid, L['count'], s.cnt0)
    put(x, st, oid, L['hash_length'], s.hash_length)
    put(x, st, oid, L['implementation'], s.impl)
    put(x, st, oid, L['is_keyed'], t.zext(s.keyed, 8))
    if ro:
        st.wobj(oid).ro = True
    return Ptr(oid, Z)


def leaf_chain(x, s, i, byte):
    RB = round_bytes(x)
    return chain_for(x, s.leaf[i], lambda j: leaf_byte(x, i, byte, j), RB, s.cnt0)


def check_tstate(x, st, p, s, N, byte, kind, where, small=(), rounds=None):
    """the state is that of the stream byte(0..N) from (s.leaf, s.cnt0), some K rounds of it compressed (rounds: how many)"""
    ctx = x.ctx
    L, RB, CW = x.lay['TState'], round_bytes(x), x.CW
    g = lambda f, n, k=0: get(x, st, p, L[f] + k, n)
    bl, cnt = g('buf_len', 2), g('count', CW // 8)
    same = [(g('hash_length', 1), s.hash_length), (g('is_keyed', 1), t.zext(s.keyed, 8)), (g('implementation', 1), s.impl)]
    same += [(g('root_words', x.WB, j * x.WB), s.root[j]) for j in range(8)]
    x.equal_all(st, same, kind, where, small, 'parameters and root words')
    if bl is UNDEF or cnt is UNDEF:
        ctx.fail(kind, where, 'refuted', 'buf_len or count uninitialised')
        return
    b = t.zext(bl, 64)
    sh = RB.bit_length() - 1
    done = t.sub(N, b)
    ob = lambda c, d: ctx.oblige(st, c, kind, where, d)
    ob(t.ule(bl, t.C(2 * RB, 16)), 'the buffer length is within the buffer')
    ob(t.ule(b, N), 'no more is pending than was given')
    ob(t.eq(t.ext(done, 0, sh), t.C(0, sh)), 'whole rounds were compressed')
    c = ctx.concretize(done) if done.op != 'c' else done.a[0]
    K = t.lshr(done, t.C(sh, 64)) if c is None else t.C(c >> sh, 64)
    ob(t.lor(t.eq(K, Z), t.ult(t.C((x.DEG - 1) * x.B, 16), bl)), 'after a round every leaf has input pending')
    ob(t.lor(t.eq(cnt, t.C(0, CW)), t.ult(t.C((x.DEG - 1) * x.B, 16), bl)), 'after a round every leaf has input pending (count)')
    x.equal_all(st, [(cnt, t.add(s.cnt0, t.mulc(x.nat(K), x.B)))], kind, where, small, 'count per leaf')
    pairs = []
    for i in range(x.DEG):
        got = [g('leaf_words', x.WB, (8 * i + j) * x.WB) for j in range(8)]
        want = s.leaf[i] if K is Z else leaf_chain(x, s, i, byte).Hs(K)
        pairs += list(zip(got, want))
    x.equal_all(st, pairs, kind, where, small, 'leaf words')
    s2 = st.fork()
    j = t.fresh('j', 64)
    s2.assume(t.ult(j, b))
    x.equal_all(s2, [(buf_at(x, s2, p, 'buf', j, 'TState'), byte(t.add(done, j)))], kind, where, small, 'pending bytes')


def leaves_fn(x):
    for f in x.by_pretty.values():
        if f.pretty and f.pretty.endswith('::compress_to_leaves') and x.crate in f.pretty:
            f.parse_header()
            if [ty for ty, _ in f.args] == [PTR, PTR, I(64), PTR, I(8)]:
                return f
    return None


def prove_leaves(x, plat):
    """compress_to_leaves: K > 0 whole rounds of input become chaining words of the leaves, the counter advances by K blocks"""
    ctx = x.ctx
    fn = leaves_fn(x)
    if fn is None:
        raise Lost('compress_to_leaves')
    install_leaves(x)
    st = St()
    RB = round_bytes(x)
    sh = RB.bit_length() - 1
    s = SV()
    R = Array('in')
    s.leaf = [[t.V('leaf%d.%d' % (i, j), x.W) for j in range(8)] for i in range(x.DEG)]
    K = t.zext(t.V('K', 62 - sh), 64)
    st.assume(t.ne(K, Z))
    ip, n = x.slice(st, 'input', R, size=t.mulc(K, RB))
    bb = x.B.bit_length() - 1
    s.cnt0 = t.cat(t.V('blocks', x.CW - bb), t.C(0, bb))
    lo = ctx.new_obj(st, 'leaves', x.DEG * 8 * x.WB, 16)
    for i in range(x.DEG):
        for j in range(8):
            put(x, st, lo, (8 * i + j) * x.WB, s.leaf[i][j])
    co = ctx.new_obj(st, 'count', x.CW // 8, 16)
    put(x, st, co, 0, s.cnt0)
    where = 'compress_to_leaves ' + plat
    rets = ctx.run_fn(fn, [Ptr(lo, Z), ip, n, Ptr(co, Z), t.C(x.imp[plat], 8)], st)
    ctx.loop_strategy = None
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s2, _ in rets:
        x.equal_all(s2, [(get(x, s2, Ptr(co, Z), 0, x.CW // 8), t.add(s.cnt0, t.mulc(x.nat(K), x.B)))], 'leaves-post', where, [K], 'count')
        pairs = []
        for i in range(x.DEG):
            pairs += list(zip(x.rd_words(s2, Ptr(lo, t.C(i * 8 * x.WB, 64))), leaf_chain(x, s, i, R.at).Hs(K)))
        x.equal_all(s2, pairs, 'leaves-post', where, [K], 'leaf words')


def leaves_contract(x):
    """the contract proved by prove_leaves; False if there is no such function"""
    fn = leaves_fn(x)
    if fn is None:
        return False
    RB = round_bytes(x)
    sh = RB.bit_length() - 1

    def compress_to_leaves(ctx, st, f, a):
        lp, p, n, cp, impl = a
        if impl is UNDEF:
            raise Unsupported('undef implementation')
        ctx.oblige(st, t.lor(*[t.eq(impl, t.C(v, 8)) for v in x.imp.values()]), 'pre:compress_to_leaves', detail='valid implementation')
        ctx.oblige(st, t.land(t.ne(n, Z), t.eq(t.ext(n, 0, sh), t.C(0, sh))), 'pre:compress_to_leaves', detail='a positive number of whole rounds')
        ctx.check_range(st, ctx.obj(st, p.obj), p.off, n, 'compress_to_leaves input')
        cnt = ctx.load(st, cp, I(x.CW))
        if cnt is UNDEF:
            raise Unsupported('uninitialised count')
        bb = x.B.bit_length() - 1
        ctx.oblige(st, t.eq(t.ext(cnt, 0, bb), t.C(0, bb)), 'pre:compress_to_leaves', detail='the counter has counted whole blocks')
        c = ctx.concretize(n) if n.op != 'c' else n.a[0]
        K = t.C(c >> sh, 64) if c is not None else t.lshr(n, t.C(sh, 64))
        byte = reader(ctx, st, p)
        new = []
        for i in range(x.DEG):
            h = x.rd_words(st, ctx.padd(lp, t.C(i * 8 * x.WB, 64)))
            if any(v is UNDEF for v in h):
                raise Unsupported('uninitialised words')
            ch = chain_for(x, h, lambda j, i=i: leaf_byte(x, i, byte, j), RB, cnt)
            new.append(few(ch, K.a[0]) if K.op == 'c' and K.a[0] <= 4 else ch.Hs(K))
        for i in range(x.DEG):
            x.wr_words(st, ctx.padd(lp, t.C(i * 8 * x.WB, 64)), new[i])
        ctx.store(st, cp, I(x.CW), t.add(cnt, t.mulc(x.nat(K), x.B)))
        return [(st, None)]
    compress_to_leaves.label = 'State::compress_to_leaves'
    x.ctx.contracts.insert(0, (lambda f: f is fn, compress_to_leaves))
    return True


def prove_t_update(x, via='t_update'):
    ctx = x.ctx
    st = St()
    s = sym_tstate(x, st)
    p = write_tstate(x, st, s)
    ip, n = x.slice(st, 'input', s.R, base=s.pend)
    tot = t.add(s.total, x.nat(n))
    st.assume(t.ule(s.total, tot))
    where = {'t_update': 'tree State::update', 'io::t_write': 'io::Write for tree State::write'}[via]
    if not leaves_contract(x):
        install_leaves(x)
    rets = x.call(via, [p, ip, n], st)
    ctx.loop_strategy = None
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s2, r in rets:
        if via == 't_update':
            if not (isinstance(r, Ptr) and r.obj == p.obj and r.off is Z):
                ctx.fail('update-returns-self', where, 'refuted', 'returned %r' % (r,))
        else:
            check_write_result(x, s2, r, n, where)
        check_tstate(x, s2, p, s, t.add(s.pend, n), s.R.at, 'update-post', where, [n])


def prove_t_finalize(x, plat, part=(0, 1)):
    ctx = x.ctx
    install_leaves(x)
    st = St()
    s = sym_tstate(x, st)
    s.impl = t.C(x.imp[plat], 8)
    p = write_tstate(x, st, s, ro=True, whole=True)
    ho = ctx.new_obj(st, 'hash', *x.size['Hash'])
    where = 'tree State::finalize ' + plat
    ctx.eager = 2
    strat = ctx.loop_strategy
    for st, c in leaf_cases(x, st, s.pend, 2 * x.DEG):
        if c % part[1] != part[0]:
            continue
        ctx.loop_strategy = strat
        rets = x.call('t_finalize', [p, Ptr(ho, Z)], st)
        ctx.loop_strategy = None
        if not rets:
            ctx.fail('returns', where, 'refuted', 'never returns')
        for s2, _ in rets:
            ctx.cur = s2
            leaf = [leaf_value(x, s2, i, s.leaf[i], s.cnt0, s.pend, s.R.at, c) for i in range(x.DEG)]
            check_hash(x, s2, Ptr(ho, Z), root_value(x, leaf, s.root), s.hash_length, 'finalize-post', '%s (%d blocks with input)' % (where, c))


def prove_t_hash(x, plat, part=(0, 1)):
    ctx = x.ctx
    install_leaves(x)
    st = St()
    M = Array('M')
    d = sym_tparams(x, st, keyed=False)
    d['implementation'] = t.C(x.imp[plat], 8)
    p = write_tparams(x, st, d)
    st.wobj(p.obj).ro = True
    ip, n = x.slice(st, 'input', M)
    ho = ctx.new_obj(st, 'hash', *x.size['Hash'])
    where = 'tree Params::hash ' + plat
    lw, rw = tree_param_words(x, d['hash_length'], d['key_length'])
    ctx.eager = True
    strat = ctx.loop_strategy
    for st, c in leaf_cases(x, st, n):
        if c % part[1] != part[0]:
            continue
        ctx.loop_strategy = strat
        rets = x.call('t_hash', [p, ip, n, Ptr(ho, Z)], st)
        ctx.loop_strategy = None
        if not rets:
            ctx.fail('returns', where, 'refuted', 'never returns')
        for s2, _ in rets:
            leaf = [leaf_value(x, s2, i, lw[i], t.C(0, x.CW), n, M.at, c) for i in range(x.DEG)]
            check_hash(x, s2, Ptr(ho, Z), root_value(x, leaf, rw), d['hash_length'], 'hash-post', '%s (%d leaves with input)' % (where, c), [n])


def prove_t_count(x):
    ctx = x.ctx
    st = St()
    s = sym_tstate(x, st)
    p = write_tstate(x, st, s, ro=True)
    o = ctx.new_obj(st, 'count', x.CW // 8, x.CW // 8)
    want = t.ite(s.keyed, t.sub(s.total, t.C(round_bytes(x), x.CW)), s.total)
    rets = x.call('t_count', [p, Ptr(o, Z)], st)
    if not rets:
        ctx.fail('returns', 'tree State::count', 'refuted', 'never returns')
    for s2, _ in rets:
        x.equal_all(s2, [(get(x, s2, Ptr(o, Z), 0, x.CW // 8), want)], 'count-post', 'tree State::count')


def prove_t_clone(x):
    ctx = x.ctx
    st = St()
    s = sym_tstate(x, st)
    p = write_tstate(x, st, s, ro=True)
    o = ctx.new_obj(st, 'clone', *x.size['TState'])
    rets = x.call('t_state_clone', [p, Ptr(o, Z)], st)
    if not rets:
        ctx.fail('returns', 'tree State::clone', 'refuted', 'never returns')
    for s2, _ in rets:
        check_tstate(x, s2, Ptr(o, Z), s, s.pend, s.R.at, 'clone-post', 'tree State::clone')


def prove_t_flush(x):
    ctx = x.ctx
    st = St()
    s = sym_tstate(x, st)
    p = write_tstate(x, st, s, ro=True)
    rets = x.call('io::t_flush', [p], st)
    where = 'io::Write for tree State::flush'
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s2, r in rets:
        x.equal_all(s2, [(t.ext(r, 0, 1), t.TRUE)], 'flush-ok', where)


def fresh_tstate(x, d):
    """the abstract state of a new tree state: the padded key block for each leaf, or nothing"""
    s = SV()
    s.name = 'fresh'
    s.leaf, s.root = tree_param_words(x, d['hash_length'], d['key_length'])
    s.cnt0 = t.C(0, x.CW)
    s.keyed = t.ne(d['key_length'], t.C(0, 8))
    s.pend = t.ite(s.keyed, t.C(round_bytes(x), 64), Z)
    s.hash_length, s.impl = d['hash_length'], d['implementation']
    bb = x.B.bit_length() - 1
    s.byte = lambda i: key_byte(x, d['key'] + [t.C(0, 8)] * (x.B - len(d['key'])), t.zext(t.ext(i, 0, bb), 64))
    return s


def prove_t_to_state(x, how):
    ctx = x.ctx
    for keyed in ((True, False) if how == 'to_state' else (False,)):
        st = St()
        args = []
        if how == 'to_state':
            d = sym_tparams(x, st, keyed=keyed)
            p = write_tparams(x, st, d)
            st.wobj(p.obj).ro = True
            args = [p]
        o = ctx.new_obj(st, 'state', *x.size['TState'])
        q = Ptr(o, Z)
        where = {'to_state': 'tree Params::to_state', 'new': 'tree State::new', 'default': 'tree State::default'}[how]
        rets = x.call('t_to_state' if how == 'to_state' else 't_state_' + how, args + [q], st)
        if not rets:
            ctx.fail('returns', where, 'refuted', 'never returns')
        for s2, _ in rets:
            if how != 'to_state':
                imp = get(x, s2, q, x.lay['TState']['implementation'], 1)
                imp_valid(x, s2, imp, where)
                if imp is UNDEF:
                    continue
                d = default_tparams(x, imp)
            s = fresh_tstate(x, d)
            check_tstate(x, s2, q, s, s.pend, s.byte, 'fresh-state', where)


# ------------------------------------------------------------------ the public methods by contract
def tree_fn(x, ty, name):
    return x.fn('<%s::%s::%s>::%s' % (x.crate, TREE[x.v], ty, name))


def read_tparams(x, st, p):
    L = x.lay['TParams']
    d = {f: get(x, st, p, L[f], 1) for f in TPARAMS_F if f != 'key'}
    d['key'] = gbytes(x, st, p, L['key'], KEYB[x.v])
    if any(v is UNDEF for v in [d['hash_length'], d['key_length'], d['implementation']] + d['key']):
        raise Unsupported('uninitialised parameters')
    kl, hl = d['key_length'], d['hash_length']
    ok = [t.ne(hl, t.C(0, 8)), t.ule(hl, t.C(x.OUT, 8)), t.ule(kl, t.C(KEYB[x.v], 8))]
    ok += [t.lor(t.ult(t.C(i, 8), kl), t.eq(b, t.C(0, 8))) for i, b in enumerate(d['key'])]
    ok.append(t.lor(*[t.eq(d['implementation'], t.C(c, 8)) for c in x.imp.values()]))
    x.ctx.oblige(st, t.land(*ok), 'pre:tree Params', detail='the invariant of the parameters')
    return d


def write_hash(x, st, hp, words, length):
    L = x.lay['Hash']
    x.wr_words(st, x.ctx.padd(hp, t.C(L['bytes'], 64)), words)
    x.ctx.store(st, x.ctx.padd(hp, t.C(L['len'], 64)), I(8), length)


def digest_cases(x, st, hp, leaf, root, cnt, N, byte, length):
    """the contract of finalize: one state for each number of leaves with input"""
    out = []
    for s, c in leaf_cases(x, st, N):
        if x.ctx.sv.check(s.pc, ()) == 'unsat':
            continue
        x.ctx.cur = s
        vals = [leaf_value(x, s, i, leaf[i], cnt, N, byte, c) for i in range(x.DEG)]
        write_hash(x, s, hp, root_value(x, vals, root), length)
        out.append((s, None))
    return out


def opaque(x, st, p):
    """from here on the state is known by its abstraction only"""
    if p.off is not Z:
        raise Unsupported('a tree state inside another object')
    o = st.wobj(p.obj)
    o.cells, o.below = {}, None
    return o


def states_contract(x):
    """to_state, update and finalize of the tree modes in terms of (leaf words, counter, stream)"""
    ctx = x.ctx
    mod = '%s::%s' % (x.crate, TREE[x.v])

    def to_state(ctx, st, f, a):
        q, p = a
        d = read_tparams(x, st, p)
        s = fresh_tstate(x, d)
        keyed = ctx.decide(st, s.keyed)
        if keyed is None:
            raise NeedFork(s.keyed)
        opaque(x, st, q)
        st.gh['ts', q.obj] = (s.leaf, s.root, s.cnt0, t.C(round_bytes(x), 64) if keyed else Z, s.byte, s.hash_length)
        return [(st, None)]

    def known(st, p):
        g = st.gh.get(('ts', p.obj)) if isinstance(p, Ptr) else None
        o = st.mem.get(p.obj) if g is not None else None
        if g is None or o.cells or o.below is not None:
            raise Unsupported('a tree state nothing is known about')
        return g

    def update(ctx, st, f, a):
        p, ip, n = a
        leaf, root, cnt, N, byte, hl = known(st, p)
        ctx.check_range(st, ctx.obj(st, ip.obj), ip.off, n, 'update input')
        rd = reader(ctx, st, ip)
        st.gh['ts', p.obj] = (leaf, root, cnt, t.add(N, n), lambda i: t.ite(t.ult(i, N), byte(i), rd(t.sub(i, N))), hl)
        return [(st, p)]

    def finalize(ctx, st, f, a):
        hp, p = a
        leaf, root, cnt, N, byte, hl = known(st, p)
        return digest_cases(x, st, hp, leaf, root, cnt, N, byte, hl)
    for fn, names in ((to_state, ('<%s::Params>::to_state' % mod, '<%s::State>::with_params' % mod)), (update, ('<%s::State>::update' % mod,)),
                      (finalize, ('<%s::State>::finalize' % mod,))):
        fn.label = 'tree ' + fn.__name__
        ctx.contracts.insert(0, (lambda f, ns=names: f.pretty in ns, fn))


def prove_t_hash_keyed(x):
    """Params::hash with a key: the key blocks go before the message of every leaf, the root gets none"""
    ctx = x.ctx
    st = St()
    M = Array('M')
    d = sym_tparams(x, st, keyed=True)
    p = write_tparams(x, st, d)
    st.wobj(p.obj).ro = True
    ip, n = x.slice(st, 'input', M)
    ho = ctx.new_obj(st, 'hash', *x.size['Hash'])
    where = 'tree Params::hash keyed'
    states_contract(x)
    rets = x.call('t_hash', [p, ip, n, Ptr(ho, Z)], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    lw, rw = tree_param_words(x, d['hash_length'], d['key_length'])
    RB, bb = t.C(round_bytes(x), 64), x.B.bit_length() - 1
    pad = d['key'] + [t.C(0, 8)] * (x.B - len(d['key']))
    byte = lambda i: t.ite(t.ult(i, RB), key_byte(x, pad, t.zext(t.ext(i, 0, bb), 64)), M.at(t.sub(i, RB)))
    for s2, _ in rets:
        ctx.cur = s2
        leaf = [leaf_value(x, s2, i, lw[i], t.C(0, x.CW), t.add(RB, n), byte, x.DEG) for i in range(x.DEG)]
        check_hash(x, s2, Ptr(ho, Z), root_value(x, leaf, rw), d['hash_length'], 'hash-post', where, [n])


def prove_t_oneshot(x):
    """blake2bp() / blake2sp(): Params::hash with the default parameters"""
    ctx = x.ctx
    st = St()
    M = Array('M')
    ip, n = x.slice(st, 'input', M)
    ho = ctx.new_obj(st, 'hash', *x.size['Hash'])
    where = TREE[x.v] + '()'
    fn = tree_fn(x, 'Params', 'hash')

    def hash_(ctx, st, f, a):
        hp, p, ip, n = a
        d = read_tparams(x, st, p)
        if ctx.decide(st, t.eq(d['key_length'], t.C(0, 8))) is not True:
            raise Unsupported('key')
        ctx.check_range(st, ctx.obj(st, ip.obj), ip.off, n, 'hash input')
        lw, rw = tree_param_words(x, d['hash_length'], d['key_length'])
        return digest_cases(x, st, hp, lw, rw, t.C(0, x.CW), n, reader(ctx, st, ip), d['hash_length'])
    hash_.label = 'tree Params::hash'
    ctx.contracts.insert(0, (lambda f: f is fn, hash_))
    rets = x.call('t_oneshot', [ip, n, Ptr(ho, Z)], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    d = default_tparams(x, None)
    lw, rw = tree_param_words(x, d['hash_length'], d['key_length'])
    for s2, _ in rets:
        ctx.cur = s2
        c = [k for k, (s, k) in enumerate(leaf_cases(x, s2, n)) if ctx.sv.check(s.pc, ()) != 'unsat']
        if len(c) != 1:
            raise Unsupported('number of leaves with input')
        leaf = [leaf_value(x, s2, i, lw[i], t.C(0, x.CW), n, M.at, c[0]) for i in range(x.DEG)]
        check_hash(x, s2, Ptr(ho, Z), root_value(x, leaf, rw), d['hash_length'], 'hash-post', where, [n])
