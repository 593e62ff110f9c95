"""Many inputs at once: the contract of the N-way kernels, compress_many over an arbitrary iterator,
the iterators of update_many and hash_many, and HashManyJob."""
import re
from . import term as t
from . import ir
from .b2 import *
from .lemmas import *
from .api import *
from .prove import Chain
from .loops import split_cells

Z = t.C(0, 64)


def job_value(x, st, byte, n, h, cnt, fin, S, last):
    """what compress1_loop leaves in words for this job, run alone (the spec; fin is a bool, S the stride in bytes)"""
    ctx = x.ctx
    ctx.cur = st
    chain = chain_for(x, h, byte, S, cnt)
    if fin:
        return x.spec_loop(chain, n, S, cnt, t.TRUE, last, byte)[0]
    sh = S.bit_length() - 1
    K1 = t.lshr(n, t.C(sh, 64)) if S == x.B else t.add(t.lshr(t.sub(n, t.C(1, 64)), t.C(sh, 64)), t.C(1, 64))
    return chain.Hs(K1)


def whole_blocks(x, n):
    return t.land(t.ne(n, Z), low_zero(x, n))


def low_zero(x, n):
    b = x.B.bit_length() - 1
    return t.eq(t.ext(n, 0, b), t.C(0, b))


def prove_progress(x, S_par, fin):
    """a job stepped by an N-way kernel and then finished alone ends as if it had been run alone from the start"""
    ctx = x.ctx
    st = St()
    S = x.B * (x.DEG if S_par else 1)
    sh = S.bit_length() - 1
    arr = Array('in')
    h = [t.V('h%d' % i, x.W) for i in range(8)]
    cnt = t.V('count', x.CW)
    st.assume(low_zero(x, cnt))
    last = t.V('last', 1)
    hi = 62 - sh
    K0, q0 = t.V('K', hi - 1), t.V('q', hi - 1)
    K, q = t.zext(K0, 64), t.zext(q0, 64)
    u = t.V('u', sh)
    byte = arr.at
    bb = x.B.bit_length() - 1
    # every (len, K) with K * S < len (or len = 0 = K): the last block begins at (K + d) * S for d = 0, or d = q + 1
    for case in ('empty', 'ended', 'continues'):
        if case == 'empty' and not fin:
            continue
        s1 = st.fork()
        Kc = K
        if case == 'empty':
            Kc = n = Z
        else:
            lastk = K if case == 'ended' else t.add(t.add(K, q), t.C(1, 64))
            n = t.add(t.cat(t.ext(lastk, 0, 64 - sh), u), t.C(1, 64))
            s1.assume(t.ult(n, t.C(1 << 62, 64)))
            if not fin:
                s1.assume(t.eq(t.ext(u, 0, bb), t.C((1 << bb) - 1, bb)))
        where = 'progress of one job %s fin=%d (%s)' % ('par' if S_par else 'ser', fin, case)
        fo = t.cat(t.ext(Kc, 0, 64 - sh), t.C(0, sh))
        chain = Chain('H', x.v, h, lambda k, i: byte(t.add(t.mulc(k, S), t.C(i, 64))), lambda k: count_at(x, cnt, k))
        w, c2, adv = job_effect(x, chain, Kc, fo, n, S, cnt, t.B(fin), last, byte)
        V = job_value(x, s1, byte, n, h, cnt, fin, S, last)
        if case != 'continues':
            ctx.oblige(s1, t.eq(adv, n), 'progress', where, 'the whole input is used')
            x.equal_all(s1, list(zip(w, V)), 'progress', where, small=[K, u])
            continue
        step = t.mulc(t.add(K, t.C(1, 64)), S)
        ctx.oblige(s1, t.eq(adv, step), 'progress', where, 'advances by whole strides')
        ctx.oblige(s1, t.ult(step, n), 'progress', where, 'input remains')
        cn = t.add(cnt, t.mulc(x.nat(t.add(K, t.C(1, 64))), x.B))
        ctx.oblige(s1, t.eq(c2, cn), 'progress', where, 'the counter has counted whole blocks')
        ctx.oblige(s1, low_zero(x, cn), 'progress', where, 'counter stays a multiple of the block size')
        n2 = t.add(t.cat(t.ext(q, 0, 64 - sh), u), t.C(1, 64))
        ctx.oblige(s1, t.eq(t.sub(n, step), n2), 'progress', where, 'remaining length')
        if not fin:
            ctx.oblige(s1, whole_blocks(x, n2), 'progress', where, 'whole blocks remain')
        hk = chain.Hs(t.add(K, t.C(1, 64)))
        x.equal_all(s1, list(zip(w, hk)), 'progress', where, small=[K, q, u])
        V2 = job_value(x, s1, lambda i: byte(t.add(step, i)), n2, hk, cn, fin, S, last)
        x.equal_all(s1, list(zip(V2, V)), 'progress', where, small=[K, q, u])


# ------------------------------------------------------------------ the kernel contract
def kernel_platforms(x):
    """N -> implementations whose compress<N>_loop is proved"""
    return {2: ['sse41', 'avx2'], 4: ['avx2']} if x.v == 'b' else {4: ['sse41', 'avx2'], 8: ['avx2']}


def kernel_fn(x, N):
    nm = '<%s::guts::Implementation>::compress%d_loop' % (x.crate, N)
    f = x.by_pretty.get(nm) or x.by_pretty.get(nm.replace('<', '').replace('>', ''))
    if f is None:
        return None
    f.parse_header()
    a = [ty for ty, _ in f.args]
    return f if len(a) == 4 and a[0] == PTR and a[1] == PTR else None


def wkey(x, p):
    """what a job's words are known by: their object, or in the tree modes also where in it they are"""
    if getattr(x, 'leaf_keys', False):
        if p.off.op != 'c':
            raise Unsupported('words at a symbolic position')
        return (p.obj, p.off.a[0])
    return p.obj


class JobGhost:
    """what is known about a pending job: its final words V, and the fields it must still have"""
    __slots__ = ('V', 'obj', 'off', 'n', 'cnt', 'last', 'w', 'fin', 'S', 'started')

    def __init__(self, V, obj, off, n, cnt, last, w, fin, S, started=True):
        self.started = started
        self.V, self.obj, self.off, self.n, self.cnt, self.last, self.w, self.fin, self.S = V, obj, off, n, cnt, last, w, fin, S


def ghost_match(ctx, st, g, p, n, cnt, last, w, fin, S):
    if g.started and ctx.decide(st, t.ne(n, Z)) is not True:
        return False            # an ended job run again is a different job
    if g.fin != fin or g.S != S or not isinstance(p, Ptr) or p.obj != g.obj:
        return False
    for a, b in [(p.off, g.off), (n, g.n), (cnt, g.cnt), (last, g.last)] + list(zip(w, g.w)):
        if a is b:
            continue
        if isinstance(a, t.T) and isinstance(b, t.T) and a.w != b.w:
            a, b = t.zext(a, max(a.w, b.w)), t.zext(b, max(a.w, b.w))
        if a is UNDEF or b is UNDEF or not ctx.valid(st, t.eq(a, b)):
            return False
    return True


def kernels_contract(x, ns=None):
    """install the contract of compress<N>_loop in terms of job_value (proved by prove_compressN and prove_progress)"""
    L = x.lay['Job']
    sz = x.size['Job'][0]
    for N, plats in kernel_platforms(x).items():
        if ns is not None and N not in ns:
            continue
        fn = kernel_fn(x, N)
        if fn is None:
            raise Lost('compress%d_loop' % N)

        def compressN(ctx, st, f, a, N=N, plats=plats):
            impl, jobs, fin, stride = a
            if fin is UNDEF or stride is UNDEF:
                raise Unsupported('undef argument')
            fb, sb = x.is_enc('finalize', fin), x.is_enc('stride', stride)
            for c in (fb, sb):
                if c.op != 'c' and ctx.decide(st, c) is None:
                    raise NeedFork(c)
            fv, S = bool(ctx.decide(st, fb)), x.B * (x.DEG if ctx.decide(st, sb) else 1)
            ip = ctx.load_bytes(st, impl, 1)
            ctx.oblige(st, t.lor(*[t.eq(ip, t.C(x.imp[v], 8)) for v in plats]), 'pre:compress%d_loop' % N, detail='implementation supports it')
            seen = set()
            ended = []
            for j in range(N):
                wp = ctx.load(st, ctx.padd(jobs, t.C(j * sz + L['words'], 64)), PTR)
                g = st.gh.get(('job', wkey(x, wp))) if isinstance(wp, Ptr) else None
                n = ctx.load(st, ctx.padd(jobs, t.C(j * sz + L['input'] + 8, 64)), I(64))
                if g is not None and g.started and n is not UNDEF and ctx.decide(st, t.ne(n, Z)) is None:
                    raise NeedFork(t.eq(n, Z))
            for j in range(N):
                at = lambda f, d=0: ctx.padd(jobs, t.C(j * sz + L[f] + d, 64))
                p = ctx.load(st, at('input'), PTR)
                n = ctx.load(st, at('input', 8), I(64))
                wp = ctx.load(st, at('words'), PTR)
                cnt = ctx.load(st, at('count'), I(x.CW))
                last = ctx.load(st, at('last_node'), I(8))
                if any(v is UNDEF for v in (p, n, wp, cnt, last)):
                    ctx.oblige(st, t.FALSE, 'initialised', detail='compress%d_loop: job %d' % (N, j))
                    raise DeadPath()
                if not isinstance(wp, Ptr) or not isinstance(p, Ptr):
                    raise Unsupported('job with a conditional pointer')
                ctx.check_range(st, ctx.obj(st, p.obj), p.off, n, 'job input')
                wk = wkey(x, wp)
                if wk in seen or isinstance(wk, tuple) and any(q[0] == wk[0] and abs(q[1] - wk[1]) < 8 * x.WB for q in seen):
                    ctx.oblige(st, t.FALSE, 'pre:compress%d_loop' % N, detail='two jobs share their words')
                    raise DeadPath()
                seen.add(wk)
                if not fv:
                    ctx.oblige(st, whole_blocks(x, n), 'pre:compress%d_loop' % N, detail='whole blocks when not finalizing')
                ctx.oblige(st, low_zero(x, cnt), 'pre:compress%d_loop' % N, detail='counter is a multiple of the block size')
                h = x.rd_words(st, wp)
                if any(v is UNDEF for v in h):
                    raise Unsupported('uninitialised words')
                key = ('job', wk)
                g = st.gh.get(key)
                anon = x.ctx.obj(st, wp.obj).tag == 'anon'
                bb = x.B.bit_length() - 1
                n3 = t.fresh('rest', 64) if fv else t.cat(t.fresh('rest', 64 - bb), t.C(0, bb))
                e = t.eq(n3, Z)
                ended.append(e)
                st.assume(t.lor(e, t.ult(n3, n)))
                c2 = t.cat(t.fresh('cnt', x.CW - bb), t.C(0, bb))
                w2 = [t.fresh('w', x.W) for _ in range(8)]
                if anon:
                    nw = w2
                else:
                    if g is None or not ghost_match(ctx, st, g, p, n, cnt, last, h, fv, S):
                        V = job_value(x, st, reader(ctx, st, p), n, h, cnt, fv, S, x.is_enc('last_node', last))
                    else:
                        V = g.V
                    nw = [t.ite(e, v, w) for v, w in zip(V, w2)]
                off2 = t.add(p.off, t.sub(n, n3))
                st.gh[('cur', wk)] = (off2, n3, c2, p.obj)
                x.wr_words(st, wp, nw)
                ctx.store(st, at('input'), PTR, Ptr(p.obj, off2))
                ctx.store(st, at('input', 8), I(64), n3)
                ctx.store(st, at('count'), I(x.CW), c2)
                if not anon:
                    st.gh[key] = JobGhost(V, p.obj, off2, n3, c2, last, nw, fv, S)
            st.assume(t.lor(*ended))
            return [(st, None)]
        compressN.label = 'Implementation::compress%d_loop' % N
        x.ctx.contracts.append((lambda f, fn=fn: f is fn, compressN))


def job_ghosts(x):
    """compress1_loop on a job some kernel has advanced: the rest of that job"""
    fn = compress1_fn(x)
    if fn is None:
        raise Lost('compress1_loop')

    def rest_of_job(ctx, st, f, a):
        impl, p, n, words, cnt, last, fin, stride = a
        if not isinstance(words, Ptr):
            return None
        wk = wkey(x, words)
        g = st.gh.get(('job', wk))
        anon = ctx.obj(st, words.obj).tag == 'anon'
        if g is None and not anon:
            return None
        fb, sb = x.is_enc('finalize', fin), x.is_enc('stride', stride)
        for c in (fb, sb):
            if c.op != 'c' and ctx.decide(st, c) is None:
                raise NeedFork(c)
        fv, S = bool(ctx.decide(st, fb)), x.B * (x.DEG if ctx.decide(st, sb) else 1)
        if anon:
            V = [t.fresh('w', x.W) for _ in range(8)]
        else:
            if g.started and ctx.decide(st, t.ne(n, Z)) is None:
                raise NeedFork(t.eq(n, Z))
            if cnt is UNDEF or not ghost_match(ctx, st, g, p, n, cnt, last, x.rd_words(st, words), fv, S):
                return None
            V = g.V
            st.gh[('job', wk)] = JobGhost(V, g.obj, None, Z, None, None, V, g.fin, g.S)
            st.gh[('cur', wk)] = (None, None, None, None)
        ctx.check_range(st, ctx.obj(st, p.obj), p.off, n, 'compress1_loop input')
        if not fv:
            ctx.oblige(st, whole_blocks(x, n), 'pre:compress1_loop', detail='whole blocks when not finalizing')
        ip = ctx.load_bytes(st, impl, 1)
        ctx.oblige(st, t.lor(*[t.eq(ip, t.C(v, 8)) for v in x.imp.values()]), 'pre:compress1_loop', detail='valid implementation')
        x.wr_words(st, words, V)
        return [(st, None)]
    rest_of_job.label = 'Implementation::compress1_loop'
    x.ctx.contracts.insert(0, (lambda f: f is fn, rest_of_job))


# ------------------------------------------------------------------ HashManyJob
def sym_mjob(x, st, name='j', finished=None):
    """a HashManyJob whose words are anything; -> (pointer, dict)"""
    L = x.lay['HashManyJob']
    oid = x.ctx.new_obj(st, name, *x.size['HashManyJob'])
    d = dict(words=[t.V('%s.h%d' % (name, i), x.W) for i in range(8)], R=Array(name + '.R'),
             cnt=t.ite(t.V(name + '.after_key', 1), t.C(x.B, x.CW), t.C(0, x.CW)), last=t.V(name + '.last_node', 1),
             finished=t.V(name + '.finished', 1) if finished is None else t.B(finished), hash_length=t.V(name + '.hash_length', 8))
    st.assume(t.land(t.ne(d['hash_length'], t.C(0, 8)), t.ule(d['hash_length'], t.C(x.OUT, 8))))
    d['impl'] = sym_impl(x, st, name)
    d['ip'], d['n'] = x.slice(st, name + '.input', d['R'])
    for i, w in enumerate(d['words']):
        put(x, st, oid, L['words'] + i * x.WB, w)
    put(x, st, oid, L['count'], d['cnt'])
    put(x, st, oid, L['last_node'], enc(x, 'last_node', d['last']))
    put(x, st, oid, L['hash_length'], d['hash_length'])
    x.ctx.store(st, Ptr(oid, t.C(L['input'], 64)), PTR, d['ip'])
    put(x, st, oid, L['input'] + 8, d['n'])
    put(x, st, oid, L['finished'], t.zext(d['finished'], 8))
    put(x, st, oid, L['implementation'], d['impl'])
    st.wobj(oid).ro = True
    return Ptr(oid, Z), d


def check_mjob(x, st, p, d, kind, where, words=None, small=()):
    """the fields of a HashManyJob (words given separately)"""
    L = x.lay['HashManyJob']
    g = lambda f, n, k=0: get(x, st, p, L[f] + k, n)
    ip = x.ctx.load(st, x.ctx.padd(p, t.C(L['input'], 64)), PTR)
    if not isinstance(ip, Ptr) or ip.obj != d['ip'].obj or not x.ctx.valid(st, t.eq(ip.off, d['ip'].off)):
        x.ctx.fail(kind, where, 'refuted', 'input points elsewhere')
        return
    pairs = [(g('input', 8, 8), d['n']), (g('count', x.CW // 8), d['cnt']), (g('last_node', 1), enc(x, 'last_node', d['last'])),
             (g('hash_length', 1), d['hash_length']), (g('finished', 1), t.zext(d['finished'], 8)), (g('implementation', 1), d['impl'])]
    if any(a is UNDEF for a, _ in pairs):
        x.ctx.fail(kind, where, 'refuted', 'a field is uninitialised')
        return
    x.equal_all(st, pairs, kind, where, small, 'fields')
    if words is not None:
        x.equal_all(st, [(g('words', x.WB, i * x.WB), w) for i, w in enumerate(words)], kind, where, small, 'words')


def prove_mjob_new(x, keyed):
    """HashManyJob::new: the job hash_many is specified on, and what hash_many then leaves in it is the digest of the input"""
    ctx = x.ctx
    st = St()
    M = Array('M')
    where = 'HashManyJob::new' + (' keyed' if keyed else '')
    d = sym_params(x, st, keyed=keyed, keyarr=M if keyed else None)
    p = write_params(x, st, d)
    st.wobj(p.obj).ro = True
    kl = x.B if keyed else 0
    ip, n = x.slice(st, 'input', M, base=t.C(kl, 64))
    o = ctx.new_obj(st, 'job', *x.size['HashManyJob'])
    q = Ptr(o, Z)
    rets = x.call('mjob_new', [p, ip, n, q], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    L = x.lay['HashManyJob']
    for s, _ in rets:
        fin = t.land(t.B(keyed), t.eq(n, Z))
        e = dict(ip=ip, n=n, cnt=t.C(kl, x.CW), last=d['last_node'], hash_length=d['hash_length'], finished=fin, impl=d['implementation'])
        check_mjob(x, s, q, e, 'job-post', where, small=[n])
        w = [get(x, s, q, L['words'] + i * x.WB, x.WB) for i in range(8)]
        if any(a is UNDEF for a in w):
            ctx.fail('job-post', where, 'refuted', 'words uninitialised')
            continue
        want = spec_digest(x, spec_param_words(x, d), t.C(0, x.CW), t.add(n, t.C(kl, 64)), M.at, d['last_node'])
        for case, c in (('finished', fin), ('pending', t.bnot(fin))):
            if ctx.valid(s, t.bnot(c)):
                continue
            s2 = s.fork()
            s2.assume(c)
            ctx.cur = s2
            if case == 'pending':
                V = job_value(x, s2, lambda i: M.at(t.add(t.C(kl, 64), i)), n, w, t.C(kl, x.CW), True, x.B, d['last_node'])
            else:
                V = w
            x.equal_all(s2, list(zip(V, want)), 'job-value', where + ' (%s)' % case, [n], 'what hash_many leaves is the digest')


def prove_mjob_to_hash(x):
    ctx = x.ctx
    st = St()
    p, d = sym_mjob(x, st, finished=True)
    ho = ctx.new_obj(st, 'hash', *x.size['Hash'])
    rets = x.call('mjob_to_hash', [p, Ptr(ho, Z)], st)
    if not rets:
        ctx.fail('returns', 'HashManyJob::to_hash', 'refuted', 'never returns')
    for s, _ in rets:
        check_hash(x, s, Ptr(ho, Z), d['words'], d['hash_length'], 'hash-post', 'HashManyJob::to_hash')


def prove_mjob_clone(x):
    ctx = x.ctx
    st = St()
    p, d = sym_mjob(x, st)
    o = ctx.new_obj(st, 'copy', *x.size['HashManyJob'])
    rets = x.call('mjob_clone', [p, Ptr(o, Z)], st)
    if not rets:
        ctx.fail('returns', 'HashManyJob::clone', 'refuted', 'never returns')
    for s, _ in rets:
        check_mjob(x, s, Ptr(o, Z), d, 'clone-post', 'HashManyJob::clone', words=d['words'])
