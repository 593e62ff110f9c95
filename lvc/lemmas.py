"""Contracts on the compression layer: each is proved against the current body before anything may rely on it."""
import time
from . import term as t
from . import ir, spec
from .mem import *
from .exec import *
from .exec import short
from .prove import Chain, Prover
from .loops import ChainLoops, LoopSpec
from .b2 import *


class Pure:
    """memory reads that do not depend on a path condition"""

    def __init__(self, ctx):
        self.ctx = ctx

    def within(self, dst, n, off, k):
        rel = t.sub(off, dst)
        kk = t.C(k, 64)
        ins = t.land(t.ule(dst, off), t.ule(t.add(rel, kk), n), t.ule(rel, t.add(rel, kk)))
        if ins is t.TRUE:
            return True
        out = t.lor(t.ule(t.add(dst, n), off), t.ule(t.add(off, kk), dst))
        if out is t.TRUE:
            return False
        return None

    def concretize(self, x):
        return x.a[0] if x.op == 'c' else None

    def merge_val(self, c, a, b):
        return self.ctx.merge_val(c, a, b)

    def addr(self, oid):
        return self.ctx.addr(oid)


def reader(ctx, st, p):
    """byte(idx64) of the memory behind pointer p as it is now"""
    o = ctx.obj(st, p.obj)
    node = o.node()
    base = p.off
    pm = Pure(ctx)

    def byte(i):
        v = read_s(node, t.add(base, i), 1, pm)
        if v is UNDEF:
            raise Unsupported('uninitialised input byte')
        return v if isinstance(v, t.T) else as_int(v, pm)
    return byte


def chain_for(x, h, byte, S, cnt):
    """the chain of blocks of `byte` at stride S from (h, cnt); the same object whenever these are the same terms"""
    cache = x.ctx.__dict__.setdefault('chains', {})
    try:
        key = (tuple(w.id for w in h), S, cnt.id, byte(t.V('chain!probe', 64)).id)
    except (Unsupported, MemError):
        key = None
    c = cache.get(key) if key is not None else None
    if c is None:
        c = Chain('c%d' % t._next[0], x.v, h, lambda k, i: byte(t.add(t.mulc(k, S), t.C(i, 64))), lambda k: count_at(x, cnt, k))
        if key is not None:
            cache[key] = c
    return c


def is_block_fn(x, f):
    """signature of a one-block compression function: (block, words, count, flag, flag)"""
    f.parse_header()
    a = [ty for ty, _ in f.args]
    return a == [PTR, PTR, I(x.CW), I(x.W), I(x.W)] and f.rty == ir.VOID


def block_functions(x):
    """candidates for the block contract: any function of the crate with that signature"""
    out = []
    for m in x.mods:
        for f in m.funcs.values():
            if f.defined and (f.pretty or '').startswith(x.crate) and 'compress' in f.pretty and is_block_fn(x, f):
                out.append(f)
    return out


def prove_block(x, f):
    """compress_block: words' == F(words, block, count, flags); reads 1 block, writes only words; no panic"""
    ctx = x.ctx
    st = St()
    arr = Array('block')
    bo = ctx.new_obj(st, 'block', x.B, 1, Base(lambda i: arr.at(i)), ro=True)
    wo, h = x.words_obj(st, 'h')
    cnt = t.V('count', x.CW)
    f0, f1 = t.V('f0', x.W), t.V('f1', x.W)
    n0 = len(ctx.obs)
    rets = ctx.run_fn(f, [Ptr(bo, t.C(0, 64)), Ptr(wo, t.C(0, 64)), cnt, f0, f1], st)
    if not rets:
        ctx.fail('returns', short(f.pretty), 'refuted', 'never returns')
    m = x.block_terms(lambda i: arr.at(t.C(i, 64)))
    # the flag order (last block, last node) is fixed by the specification; which argument is which is not
    for s, _ in rets:
        got = x.rd_words(s, Ptr(wo, t.C(0, 64)))
        want = spec.expand(x.v, h + m + [t.ext(cnt, 0, x.W), t.ext(cnt, x.W, x.W), f0, f1])
        x.equal_all(s, list(zip(got, want)), 'compress-block', short(f.pretty), detail='output words = BLAKE2 F')
    return all(o.status == 'proved' for o in ctx.obs[n0:])


def block_contract(x, fs):
    names = {f.name for f in fs}

    def compress_block(ctx, st, f, a):
        block, words, cnt, f0, f1 = a
        if any(v is UNDEF for v in (cnt, f0, f1)):
            raise Unsupported('undef argument of compress_block')
        h = x.rd_words(st, words)
        m = x.rd_block(st, block)
        if any(v is UNDEF for v in h):
            raise Unsupported('uninitialised words')
        x.wr_words(st, words, x.F(h, m, cnt, f0, f1))
        return [(st, None)]
    compress_block.label = 'compress_block'
    x.ctx.contracts.append((lambda f: f.name in names, compress_block))


def install_block(x):
    """prove and install; -> [(function, proved)]"""
    res = []
    ok = []
    for f in block_functions(x):
        n0 = len(x.ctx.obs)
        try:
            r = prove_block(x, f)
        except (Unsupported, Budget, MemError) as e:
            r = False
            x.ctx.obs.append(Ob('compress-block', short(f.pretty), 'unknown', 'engine: %s' % e))
        if r:
            ok.append(f)
        res.append((f, r, x.ctx.obs[n0:]))
        del x.ctx.obs[n0:]
    block_contract(x, ok)
    return res


# ------------------------------------------------------------------ compress1_loop
def count_at(x, cnt, k):
    """the counter passed with block k of an input whose first block starts at counter cnt"""
    return t.add(cnt, t.mulc(t.zext(t.add(k, t.C(1, 64)), x.CW), x.B))


def setup_loop(x, st):
    arr = Array('in')
    p, n = x.slice(st, 'input', arr)
    wo, h = x.words_obj(st, 'h')
    cnt = t.V('count', x.CW)
    return arr, p, n, wo, h, cnt


def enum_arg(x, st, nm, name):
    v = t.V(name, 1)
    # the driver takes references; the encoded byte is ite(v, yes, no)
    return v, t.ite(v, t.C(x.enc[nm, 1], 8), t.C(x.enc[nm, 0], 8))


def ref_byte(x, st, name, val):
    o = x.ctx.new_obj(st, name, 1, 1)
    st.wobj(o).write_c(0, 1, val, x.ctx)
    return Ptr(o, t.C(0, 64))


def prove_compress1(x, plat, S_par, fin):
    """Implementation::compress1_loop on platform `plat`, stride serial/parallel"""
    ctx = x.ctx
    st = St()
    arr, p, n, wo, h, cnt = setup_loop(x, st)
    S = x.B * (x.DEG if S_par else 1)
    if not fin:
        st.assume(t.ne(n, t.C(0, 64)))
        st.assume(t.eq(t.ext(n, 0, x.B.bit_length() - 1), t.C(0, x.B.bit_length() - 1)))
    last, lv = enum_arg(x, st, 'last_node', 'last')
    CW = x.CW
    byte = lambda i: arr.at(i)
    chain = Chain('H', x.v, h, lambda k, i: arr.at(t.add(t.mulc(k, S), t.C(i, 64))),
                  lambda k: count_at(x, cnt, k))
    want, K, fo, ln = x.spec_loop(chain, n, S, cnt, t.B(fin), last, byte)
    fams = [('H%d' % i, x.W, (lambda k, i=i: chain.H(i, k))) for i in range(8)]
    ctx.loop_strategy = ChainLoops(LoopSpec(64, fams, [K], [n]))
    args = [ref_byte(x, st, 'impl', t.C(x.imp[plat], 8)), p, n, Ptr(wo, t.C(0, 64)), None, ref_byte(x, st, 'last', lv),
            ref_byte(x, st, 'fin', t.C(x.enc['finalize', fin], 8)), ref_byte(x, st, 'stride', t.C(x.enc['stride', S_par], 8))]
    co = ctx.new_obj(st, 'count', CW // 8, CW // 8)
    st.wobj(co).write_c(0, CW // 8, cnt, ctx)
    args[4] = Ptr(co, t.C(0, 64))
    rets = ctx.run_fn(x.drv('compress1'), args, st)
    if not rets:
        ctx.fail('returns', 'compress1_loop', 'refuted', 'never returns')
    for s, _ in rets:
        got = x.rd_words(s, Ptr(wo, t.C(0, 64)))
        if not fin:
            # whole blocks, no flags: the chain value itself
            want = chain.Hs(t.lshr(n, t.C(S.bit_length() - 1, 64)) if S == x.B else t.add(K, t.C(1, 64)))
        x.equal_all(s, list(zip(got, want)), 'compress1-post', 'compress1_loop %s %s fin=%d' % (plat, 'par' if S_par else 'ser', fin), small=[n])
    ctx.loop_strategy = None


def compress1_fn(x):
    for f in x.by_pretty.values():
        if f.pretty == x.crate + '::guts::Implementation::compress1_loop' or f.pretty == '<%s::guts::Implementation>::compress1_loop' % x.crate:
            f.parse_header()
            a = [ty for ty, _ in f.args]
            if len(a) == 8 and a[0] == PTR and a[1] == PTR and a[2] == I(64) and a[3] == PTR and a[4] == I(x.CW) and f.rty == ir.VOID:
                return f
    return None


def compress1_contract(x):
    """install the contract proved by prove_compress1"""
    fn = compress1_fn(x)
    if fn is None:
        raise Lost('compress1_loop')

    def compress1_loop(ctx, st, f, a):
        impl, p, n, words, cnt, last, fin, stride = a
        for v in (n, cnt, last, fin, stride):
            if v is UNDEF:
                raise Unsupported('undef argument')
        fb = x.is_enc('finalize', fin)
        sb = x.is_enc('stride', stride)
        lb = x.is_enc('last_node', last)
        for c in (fb, sb):
            if c.op != 'c' and ctx.decide(st, c) is None:
                raise NeedFork(c)
        fv, sv = ctx.decide(st, fb), ctx.decide(st, sb)
        S = x.B * (x.DEG if sv else 1)
        z = t.C(0, 64)
        if not fv:
            ctx.oblige(st, t.ne(n, z), 'pre:compress1_loop', detail='non-empty input when not finalizing')
            ctx.oblige(st, t.eq(t.ext(n, 0, x.B.bit_length() - 1), t.C(0, x.B.bit_length() - 1)), 'pre:compress1_loop',
                       detail='whole blocks when not finalizing')
        c = ctx.concretize(n) if n.op != 'c' else n.a[0]
        if c is not None:
            n = t.C(c, 64)
        if isinstance(p, PIte) and not (n.op == 'c' and n.a[0] == 0):
            raise NeedFork(p.c)
        if isinstance(p, Ptr):
            ctx.cur = st
            ctx.check_range(st, ctx.obj(st, p.obj), p.off, n, 'compress1_loop input')
            byte = reader(ctx, st, p)
        else:
            ctx.oblige(st, t.eq(n, z), 'valid-pointer')
            byte = lambda i: t.C(0, 8)
        ip = ctx.load_bytes(st, impl, 1)
        if ip is UNDEF:
            raise Unsupported('undef implementation')
        ctx.oblige(st, t.lor(*[t.eq(ip, t.C(v, 8)) for v in x.imp.values()]), 'pre:compress1_loop', detail='valid implementation')
        h = x.rd_words(st, words)
        if any(v is UNDEF for v in h):
            raise Unsupported('uninitialised words')
        chain = chain_for(x, h, byte, S, cnt)
        if n.op != 'c' and fv and ctx.decide(st, t.ule(n, t.C(x.B, 64))):
            # one block
            blk = x.block_terms(lambda i: t.ite(t.ult(t.C(i, 64), n), byte(t.C(i, 64)), t.C(0, 8)))
            want = x.F(h, blk, t.add(cnt, x.nat(n)), x.flag(t.TRUE), x.flag(lb))
        elif fv:
            want, K, fo, ln = x.spec_loop(chain, n, S, cnt, t.TRUE, lb, byte)
        else:
            sh = S.bit_length() - 1
            K1 = t.lshr(n, t.C(sh, 64)) if S == x.B else t.add(t.lshr(t.sub(n, t.C(1, 64)), t.C(sh, 64)), t.C(1, 64))
            want = chain.unfold(K1) if K1.op == 'c' and K1.a[0] == 1 else chain.Hs(K1)
        x.wr_words(st, words, want)
        return [(st, None)]
    compress1_loop.label = 'Implementation::compress1_loop'
    x.ctx.contracts.append((lambda f: f is fn, compress1_loop))


# ------------------------------------------------------------------ N jobs at a time
def wide_kernels(x):
    """(platform, lanes) the crate offers"""
    return [('sse41', 2), ('avx2', 4)] if x.v == 'b' else [('sse41', 4), ('avx2', 8)]


def job_sym(x, st, j, S, fin, jobs, base, arr=None):
    """an arbitrary job j written at jobs+base -> dict"""
    ctx = x.ctx
    arr = arr or Array('in%d' % j)
    p, n = x.slice(st, 'input%d' % j, arr)
    if not fin:
        st.assume(t.ne(n, t.C(0, 64)))
        st.assume(t.eq(t.ext(n, 0, x.B.bit_length() - 1), t.C(0, x.B.bit_length() - 1)))
    h = [t.V('h%d.%d' % (j, i), x.W) for i in range(8)]
    wo, _ = x.words_obj(st, 'words%d' % j, h)
    cnt = t.V('count%d' % j, x.CW)
    st.assume(t.eq(t.ext(cnt, 0, x.B.bit_length() - 1), t.C(0, x.B.bit_length() - 1)))
    last, lv = enum_arg(x, st, 'last_node', 'last%d' % j)
    L = x.lay['Job']
    at = lambda f, d=0: Ptr(jobs, t.C(base + L[f] + d, 64))
    ctx.store(st, at('input'), PTR, p)
    ctx.store(st, at('input', 8), I(64), n)
    ctx.store(st, at('words'), PTR, Ptr(wo, t.C(0, 64)))
    ctx.store(st, at('count'), I(x.CW), cnt)
    ctx.store(st, at('last_node'), I(8), lv)
    return dict(arr=arr, p=p, n=n, h=h, wo=wo, cnt=cnt, last=last, lv=lv)


def atoms(c):
    """the comparisons a boolean term is built from"""
    out, work, seen = [], [c], set()
    while work:
        n = work.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('and', 'or', 'xor', 'ite') and n.w == 1:
            work += list(t.children(n))
        else:
            out.append(n)
    return out


def uminn(xs):
    m = xs[0]
    for y in xs[1:]:
        m = t.ite(t.ult(y, m), y, m)
    return m


def job_effect(x, chain, K, fo, n, S, cnt, fin, last, byte):
    """what one job must look like after a call that runs K full blocks and then the block at fo of every job:
    (words, count, new offset of the input)"""
    rest = t.sub(n, fo)
    ln = t.ite(t.ult(rest, t.C(x.B, 64)), rest, t.C(x.B, 64))
    c2 = t.add(t.add(cnt, t.mulc(x.nat(K), x.B)), x.nat(ln))
    blk = x.block_terms(lambda i: t.ite(t.ult(t.C(i, 64), ln), byte(t.add(fo, t.C(i, 64))), t.C(0, 8)))
    ended = t.ule(rest, t.C(S, 64))
    f0 = t.band(fin, ended)
    f1 = t.band(f0, last)
    used = t.ite(t.ult(rest, t.C(S, 64)), rest, t.C(S, 64))
    return x.F(chain.Hs(K), blk, c2, x.flag(f0), x.flag(f1)), c2, t.add(fo, used)


def prove_compressN(x, plat, N, S_par, fin):
    """Implementation::compress<N>_loop: every job advances by its own input exactly as alone, up to the common block"""
    ctx = x.ctx
    st = St()
    S = x.B * (x.DEG if S_par else 1)
    L = x.lay['Job']
    sz, al = x.size['Job']
    jobs = ctx.new_obj(st, 'jobs', N * sz, al)
    J = [job_sym(x, st, j, S, fin, jobs, j * sz) for j in range(N)]
    m = uminn([jb['n'] for jb in J])
    sh = S.bit_length() - 1
    z = t.C(0, 64)
    m1 = t.ite(t.eq(m, z), z, t.sub(m, t.C(1, 64)))
    K = t.lshr(m1, t.C(sh, 64))
    fo = t.cat(t.ext(m1, sh, 64 - sh), t.C(0, sh))
    fams = []
    for j, jb in enumerate(J):
        jb['chain'] = Chain('H%d' % j, x.v, jb['h'], lambda k, i, jb=jb: jb['arr'].at(t.add(t.mulc(k, S), t.C(i, 64))),
                            lambda k, jb=jb: count_at(x, jb['cnt'], k))
        for i in range(8):
            fams.append(('H%d.%d' % (j, i), x.W, (lambda k, i=i, jb=jb: jb['chain'].H(i, k))))
        before = lambda k, jb=jb: t.add(jb['cnt'], t.mulc(t.zext(k, x.CW), x.B))
        fams.append(('lo%d' % j, x.W, lambda k, b=before: t.ext(b(k), 0, x.W)))
        fams.append(('hi%d' % j, x.W, lambda k, b=before: t.ext(b(k), x.W, x.W)))
    small = [jb['n'] for jb in J]
    ctx.merge = True
    def hints(k):
        o = t.mulc(k, S)
        out = [t.ule(fo, jb['n']) for jb in J]
        out.append(t.ule(o, fo))
        out.append(t.ult(fo, t.C(1 << 62, 64)))
        out += [t.lor(t.eq(o, fo), t.ule(t.add(o, t.C(S, 64)), fo))]
        return out
    memo = {}
    def on_index(c1, c2):
        # cases distinguished by the loop index stay separate
        for c in (c1, c2):
            r = memo.get(c.id)
            if r is None:
                r = memo[c.id] = any(e.op == 'eq' and any(n.op == 'v' and n.a[0].startswith('k!') for n in t.topo([e])) for e in atoms(c))
            if r:
                return True
        return False
    ctx.nomerge = on_index
    ctx.spread = [jb['cnt'] for jb in J]
    ctx.loop_strategy = ChainLoops(LoopSpec(64, fams, [K], small, hints=hints))
    try:
        args = [ref_byte(x, st, 'impl', t.C(x.imp[plat], 8)), Ptr(jobs, t.C(0, 64)),
                ref_byte(x, st, 'fin', t.C(x.enc['finalize', fin], 8)), ref_byte(x, st, 'stride', t.C(x.enc['stride', S_par], 8))]
        rets = ctx.run_fn(x.drv('compress%d' % N), args, st)
        where = 'compress%d_loop %s %s fin=%d' % (N, plat, 'par' if S_par else 'ser', fin)
        if not rets:
            ctx.fail('returns', where, 'refuted', 'never returns')
        for s, _ in rets:
            pairs = []
            for j, jb in enumerate(J):
                w, c2, adv = job_effect(x, jb['chain'], K, fo, jb['n'], S, jb['cnt'], t.B(fin), jb['last'], jb['arr'].at)
                got = x.rd_words(s, Ptr(jb['wo'], z))
                pairs += list(zip(got, w))
                at = lambda f, d=0: Ptr(jobs, t.C(j * sz + L[f] + d, 64))
                pairs.append((ctx.load(s, at('count'), I(x.CW)), c2))
                p2 = ctx.load(s, at('input'), PTR)
                if not isinstance(p2, Ptr) or p2.obj != jb['p'].obj:
                    ctx.fail('compressN-post', where, 'refuted', 'job %d input points elsewhere' % j)
                    continue
                pairs.append((p2.off, adv))
                pairs.append((ctx.load(s, at('input', 8), I(64)), t.sub(jb['n'], adv)))
                pairs.append((ctx.load(s, at('last_node'), I(8)), jb['lv']))
                wp = ctx.load(s, at('words'), PTR)
                if not isinstance(wp, Ptr) or wp.obj != jb['wo'] or wp.off is not z:
                    ctx.fail('compressN-post', where, 'refuted', 'job %d words pointer changed' % j)
            x.equal_all(s, pairs, 'compressN-post', where, small=small)
    finally:
        ctx.loop_strategy = None
        ctx.merge = False
        ctx.nomerge = None
        ctx.spread = []
