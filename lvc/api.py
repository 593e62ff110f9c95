"""Obligations at the public API: parameters, states, hashes.  Each prove_* function is one task."""
import time
from . import term as t
from . import ir, spec
from .mem import *
from .exec import *
from .exec import short
from .prove import Chain, Prover
from .loops import ChainLoops, LoopSpec
from .b2 import *
from .lemmas import *

Z = t.C(0, 64)
KEYB = {'b': 64, 's': 32}
SALTB = {'b': 16, 's': 8}
SETTERS = ['hash_length', 'key', 'salt', 'personal', 'fanout', 'max_depth', 'max_leaf_length', 'node_offset', 'node_depth',
           'inner_hash_length', 'last_node']


# ------------------------------------------------------------------ parameters
class PV:
    """abstract value of a Params object: a dict of terms (lists of byte terms for byte strings)"""
    pass


def psizes(x):
    return dict(hash_length=1, key_length=1, key_block=x.B, salt=SALTB[x.v], personal=SALTB[x.v], fanout=1, max_depth=1,
                max_leaf_length=4, node_offset=8, node_depth=1, inner_hash_length=1, last_node=1, implementation=x.impl_size)


def sym_params(x, st, name='p', keyed=None, keyarr=None):
    """a Params value satisfying the representation invariant; -> dict"""
    v = x.v
    d = {}
    V = lambda n, w: t.V('%s.%s' % (name, n), w)
    hl = V('hash_length', 8)
    st.assume(t.land(t.ne(hl, t.C(0, 8)), t.ule(hl, t.C(x.OUT, 8))))
    kl = V('key_length', 8)
    st.assume(t.ule(kl, t.C(KEYB[v], 8)))
    if keyed is True:
        st.assume(t.ne(kl, t.C(0, 8)))
    if keyed is False:
        kl = t.C(0, 8)
    K = Array('%s.key' % name)
    d['hash_length'], d['key_length'] = hl, kl
    if keyarr is not None:
        # any key block at all: a stronger statement than the invariant needs
        d['key_block'] = [keyarr.at(t.C(i, 64)) for i in range(x.B)]
        d['keyarr'] = keyarr
    else:
        d['key_block'] = [t.ite(t.ult(t.C(i, 8), kl), K.at(t.C(i, 64)), t.C(0, 8)) for i in range(x.B)]
    for f in ('salt', 'personal'):
        A = Array('%s.%s' % (name, f))
        d[f] = [A.at(t.C(i, 64)) for i in range(SALTB[v])]
    for f, w in (('fanout', 8), ('max_depth', 8), ('max_leaf_length', 32), ('node_offset', 64), ('node_depth', 8)):
        d[f] = V(f, w)
    if v == 's':
        st.assume(t.ult(d['node_offset'], t.C(1 << 48, 64)))
    ih = V('inner_hash_length', 8)
    st.assume(t.ule(ih, t.C(x.OUT, 8)))
    d['inner_hash_length'] = ih
    d['last_node'] = V('last_node', 1)
    d['implementation'] = sym_impl(x, st, name)
    return d


def sym_impl(x, st, name):
    imp = t.V('%s.implementation' % name, 8)
    st.assume(t.lor(*[t.eq(imp, t.C(c, 8)) for c in x.imp.values()]))
    return imp


def enc(x, nm, b):
    return t.ite(b, t.C(x.enc[nm, 1], 8), t.C(x.enc[nm, 0], 8))


def put(x, st, oid, off, v, w=1):
    o = st.wobj(oid)
    if isinstance(v, list):
        for i, b in enumerate(v):
            o.write_c(off + i, 1, b, x.ctx)
    else:
        o.write_c(off, v.w // 8, v, x.ctx)


def write_params(x, st, d, name='p'):
    oid = x.ctx.new_obj(st, name, *x.size['Params'])
    L = x.lay['Params']
    for f in PARAMS_F:
        v = d[f]
        if f == 'last_node':
            v = enc(x, 'last_node', v)
        if f == 'key_block' and 'keyarr' in d:
            put_base(x, st, oid, L[f], x.B, d['keyarr'].at)
            continue
        put(x, st, oid, L[f], v)
    return Ptr(oid, Z)


def put_base(x, st, oid, off, n, fn):
    """n bytes fn(0..n) as one layer, so that reads at symbolic positions stay closed forms"""
    bo = x.ctx.new_obj(st, 'base', n, 1, Base(fn))
    x.ctx.memcpy(st, Ptr(oid, t.C(off, 64)), Ptr(bo, Z), t.C(n, 64))
    st.mem.pop(bo, None)


def get(x, st, p, off, n):
    """n bytes as one term (little endian)"""
    return x.ctx.load_bytes(st, x.ctx.padd(p, t.C(off, 64)), n)


def gbytes(x, st, p, off, n):
    r = []
    for i in range(n):
        b = get(x, st, p, off + i, 1)
        r.append(b)
    return r


def read_params(x, st, p):
    L = x.lay['Params']
    d = {}
    for f, n in psizes(x).items():
        if f in ('key_block', 'salt', 'personal'):
            d[f] = gbytes(x, st, p, L[f], n)
        else:
            d[f] = get(x, st, p, L[f], n)
    return d


def pairs_params(x, got, d):
    """[(field, code term, abstract term)]"""
    out = []
    for f in PARAMS_F:
        w = d[f]
        g = got[f]
        if f == 'last_node':
            out.append((f, g, enc(x, 'last_node', w)))
        elif isinstance(w, list):
            for i, (a, b) in enumerate(zip(g, w)):
                out.append((f, a, b))
        else:
            out.append((f, g, w if w.w == g.w else t.ext(w, 0, g.w)))
    return out


def check_params(x, st, p, d, kind, where):
    got = read_params(x, st, p)
    return x.equal_all(st, [(a, b) for _, a, b in pairs_params(x, got, d)], kind, where)


def panic_only_if(x, cond, kind, where, after=None):
    """panic_ok handler: every reachable panic must happen under cond"""
    seen = []

    def ok(ctx, st, f, args):
        c = cond(st) if callable(cond) else cond
        ctx.oblige(st, c, kind, where, detail='panic reachable on an accepted argument: %s' % short(f.pretty or f.name))
        if after:
            after(st)
        seen.append(1)
        return True
    ok.seen = seen
    return ok


def prove_setter(x, name):
    """p.<setter>(arg): R(p) before => panics exactly when out of range (p unchanged), else R(p with the field replaced)"""
    ctx = x.ctx
    st = St()
    d = sym_params(x, st)
    p = write_params(x, st, d)
    where = 'Params::%s' % name
    d2 = dict(d)
    bad = t.FALSE
    if name in ('key', 'salt', 'personal'):
        A = Array('arg')
        ap, n = x.slice(st, 'arg', A)
        mx = KEYB[x.v] if name == 'key' else SALTB[x.v]
        bad = t.ult(t.C(mx, 64), n)
        byte = lambda i: t.ite(t.ult(t.C(i, 64), n), A.at(t.C(i, 64)), t.C(0, 8))
        if name == 'key':
            d2['key_length'] = t.ext(n, 0, 8)
            d2['key_block'] = [byte(i) if i < mx else t.C(0, 8) for i in range(x.B)]
        else:
            d2[name] = [byte(i) for i in range(mx)]
        args = [p, ap, n]
    elif name in ('hash_length', 'inner_hash_length'):
        n = t.V('arg', 64)
        bad = t.ult(t.C(x.OUT, 64), n)
        if name == 'hash_length':
            bad = t.lor(bad, t.eq(n, Z))
        d2[name] = t.ext(n, 0, 8)
        args = [p, n]
    elif name == 'last_node':
        n = t.V('arg', 1)
        d2[name] = n
        args = [p, n]
    else:
        n = t.V('arg', d[name].w)
        d2[name] = n
        args = [p, n]
        if name == 'node_offset' and x.v == 's':
            bad = t.ule(t.C(1 << 48, 64), n)
    ctx.panic_ok = panic_only_if(x, bad, 'setter-panic', where, lambda s: check_params(x, s, p, d, 'setter-panic-frame', where))
    try:
        rets = x.call('p_' + name, args, st)
    finally:
        seen = ctx.panic_ok.seen
        ctx.panic_ok = None
    n0 = len(rets)
    for s, r in rets:
        s.assume(t.TRUE)
        if bad is not t.FALSE:
            ctx.oblige(s, t.bnot(bad), 'setter-range', where, 'an out-of-range argument is accepted')
        if not (isinstance(r, Ptr) and r.obj == p.obj and r.off is Z):
            ctx.fail('setter-returns-self', where, 'refuted', 'returned %r' % (r,))
        check_params(x, s, p, d2, 'setter-post', where)
    if not n0:
        ctx.fail('returns', where, 'refuted', 'never returns')


def default_params(x, imp):
    z = lambda n: [t.C(0, 8)] * n
    return dict(hash_length=t.C(x.OUT, 8), key_length=t.C(0, 8), key_block=z(x.B), salt=z(SALTB[x.v]), personal=z(SALTB[x.v]),
                fanout=t.C(1, 8), max_depth=t.C(1, 8), max_leaf_length=t.C(0, 32), node_offset=Z, node_depth=t.C(0, 8),
                inner_hash_length=t.C(0, 8), last_node=t.FALSE, implementation=imp)


def prove_params_new(x, which):
    """Params::new / default: the parameters of plain sequential hashing, a supported implementation"""
    ctx = x.ctx
    st = St()
    oid = ctx.new_obj(st, 'p', *x.size['Params'])
    p = Ptr(oid, Z)
    rets = x.call('params_' + which, [p], st)
    where = 'Params::' + which
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s, _ in rets:
        got = read_params(x, s, p)
        d = default_params(x, got['implementation'])
        check_params(x, s, p, d, 'params-default', where)
        imp_valid(x, s, got['implementation'], where)


def imp_valid(x, s, imp, where):
    """an implementation value is one of the known ones, and on this processor supported"""
    ctx = x.ctx
    if imp is UNDEF:
        ctx.fail('implementation', where, 'refuted', 'uninitialised')
        return
    ctx.oblige(s, t.lor(*[t.eq(imp, t.C(c, 8)) for c in x.imp.values()]), 'implementation-valid', where, 'not an implementation')
    for nm, feat in (('sse41', 'sse4.1'), ('avx2', 'avx2')):
        ft = feature(x, feat)
        if nm in x.imp and ft is not None:
            ctx.oblige(s, t.lor(t.ne(imp, t.C(x.imp[nm], 8)), ft), 'implementation-supported', where,
                       '%s selected without %s' % (nm, feat))


def feature(x, feat):
    """the term for `the processor has feat`, named by running the driver's own is_x86_feature_detected! call"""
    if not hasattr(x, '_feat'):
        x._feat = {}
    if feat not in x._feat:
        name = 'has_' + feat.replace('.', '')
        r = x.ctx.run_fn(x.fn('drv::' + name), [], St())
        v = None
        if len(r) == 1:
            v = r[0][1]
        x._feat[feat] = v
    return x._feat[feat]


def spec_param_words(x, d):
    """the parameter block of the BLAKE2 specification, section 2.5 (2b: 64 bytes, 2s: 32 bytes), xored with the IV"""
    le = lambda v: [t.ext(v, 8 * i, 8) for i in range(v.w // 8)]
    if x.v == 'b':
        blk = [d['hash_length'], d['key_length'], d['fanout'], d['max_depth']] + le(d['max_leaf_length']) + le(d['node_offset']) + \
            [d['node_depth'], d['inner_hash_length']] + [t.C(0, 8)] * 14 + d['salt'] + d['personal']
    else:
        blk = [d['hash_length'], d['key_length'], d['fanout'], d['max_depth']] + le(d['max_leaf_length']) + \
            le(d['node_offset'])[:6] + [d['node_depth'], d['inner_hash_length']] + d['salt'] + d['personal']
    assert len(blk) == 8 * x.WB
    return [t.bxor(t.C(spec.IV[x.v][i], x.W), t.cat(*reversed(blk[i * x.WB:(i + 1) * x.WB]))) for i in range(8)]


# ------------------------------------------------------------------ states
class SV:
    pass


def sym_state(x, st, name='s', n=None):
    """a State satisfying the representation invariant: (h, cnt0) after whole blocks, R[0..buflen) pending.
       cnt0 is a multiple of B; if blocks were compressed something is pending; a keyed state has seen its key block;
       cnt0 + buflen (+ the n bytes to come) stays within the counter"""
    B, CW = x.B, x.CW
    s = SV()
    s.name = name
    s.R = Array(name + '.R')
    s.words = [t.V('%s.h%d' % (name, i), x.W) for i in range(8)]
    sh = B.bit_length() - 1
    s.cnt0 = t.cat(t.V(name + '.blocks', CW - sh), t.C(0, sh))
    s.buflen = t.V(name + '.buflen', 8)
    s.pend = t.zext(s.buflen, 64)
    s.stale = Array(name + '.stale')
    s.total = t.add(s.cnt0, t.zext(s.buflen, CW))
    st.assume(t.ule(s.buflen, t.C(B, 8)))
    st.assume(t.lor(t.eq(s.cnt0, t.C(0, CW)), t.ne(s.buflen, t.C(0, 8))))
    st.assume(t.ule(s.cnt0, s.total))
    s.buf = lambda i: t.ite(t.ult(i, s.pend), s.R.at(i), s.stale.at(i))
    s.last = t.V(name + '.last_node', 1)
    s.hash_length = t.V(name + '.hash_length', 8)
    st.assume(t.land(t.ne(s.hash_length, t.C(0, 8)), t.ule(s.hash_length, t.C(x.OUT, 8))))
    s.impl = sym_impl(x, st, name)
    s.keyed = t.V(name + '.is_keyed', 1)
    st.assume(t.lor(t.bnot(s.keyed), t.ule(t.C(B, CW), s.total)))
    return s


def room(x, st, s, n):
    """n more bytes stay within the byte counter"""
    T = t.add(s.total, x.nat(n))
    st.assume(t.ule(s.total, T))
    return T


def write_state(x, st, s, ro=False):
    L = x.lay['State']
    oid = x.ctx.new_obj(st, s.name, *x.size['State'])
    for i, w in enumerate(s.words):
        put(x, st, oid, L['words'] + i * x.WB, w)
    put(x, st, oid, L['count'], s.cnt0)
    put_base(x, st, oid, L['buf'], x.B, s.buf)
    put(x, st, oid, L['buflen'], s.buflen)
    put(x, st, oid, L['last_node'], enc(x, 'last_node', s.last))
    put(x, st, oid, L['hash_length'], s.hash_length)
    put(x, st, oid, L['implementation'], s.impl)
    put(x, st, oid, L['is_keyed'], t.zext(s.keyed, 8))
    if ro:
        st.wobj(oid).ro = True
    s.oid = oid
    return Ptr(oid, Z)


def read_state(x, st, p):
    L = x.lay['State']
    g = SV()
    g.words = [get(x, st, p, L['words'] + i * x.WB, x.WB) for i in range(8)]
    g.count = get(x, st, p, L['count'], x.CW // 8)
    for f in ('buflen', 'last_node', 'hash_length', 'is_keyed'):
        setattr(g, f, get(x, st, p, L[f], 1))
    g.impl = get(x, st, p, L['implementation'], x.impl_size)
    return g


def buf_at(x, st, p, field, j, key='State'):
    return x.ctx.load_bytes(st, x.ctx.padd(p, t.add(t.C(x.lay[key][field], 64), j)), 1)


def check_state(x, st, p, s, N, byte, kind, where, small=(), words=None, last=None):
    """the representation invariant after N bytes (64-bit) byte(0..N) at counter s.cnt0: kk = blocks that are complete and
       not last; words = chain of kk blocks, count = cnt0 + B*kk, the rest pending; parameters as in s"""
    kk, fo, bl = x.split_len(N)
    g = read_state(x, st, p)
    lastv = s.last if last is None else last
    cnt = t.add(s.cnt0, t.mulc(x.nat(kk), x.B))
    pairs = [(g.count, cnt), (g.buflen, t.ext(bl, 0, 8)), (g.last_node, enc(x, 'last_node', lastv)), (g.hash_length, s.hash_length),
             (g.is_keyed, t.zext(s.keyed, 8)), (g.impl, s.impl)]
    x.equal_all(st, pairs, kind, where, small, 'count, buffer length, parameters')
    if words is None:
        chain = Chain('H' + s.name, x.v, s.words, lambda k, i: byte(t.add(t.mulc(k, x.B), t.C(i, 64))), lambda k: count_at(x, s.cnt0, k))
        words = chain.Hs(kk)
    x.equal_all(st, list(zip(g.words, words)), kind, where, small, 'chaining words')
    s2 = st.fork()
    j = t.fresh('j', 64)
    s2.assume(t.ult(j, bl))
    x.equal_all(s2, [(buf_at(x, s2, p, 'buf', j), byte(t.add(fo, j)))], kind, where, small, 'pending bytes')


def prove_update(x, via='state_update'):
    """pending R[0..buflen) and input = R[buflen..N)  =>  the invariant after N bytes; returns self; input only read"""
    ctx = x.ctx
    st = St()
    s = sym_state(x, st)
    p = write_state(x, st, s)
    ip, n = x.slice(st, 'input', s.R, base=s.pend)
    room(x, st, s, n)
    where = {'state_update': 'State::update', 'io::write': 'io::Write for State::write'}[via]
    f = x.drv(via)
    f.parse_header()
    rets = ctx.run_fn(f, [p, ip, n], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s2, r in rets:
        if via == 'state_update':
            if not (isinstance(r, Ptr) and r.obj == p.obj and r.off is Z):
                ctx.fail('update-returns-self', where, 'refuted', 'returned %r' % (r,))
        else:
            check_write_result(x, s2, r, n, where)
        check_state(x, s2, p, s, t.add(s.pend, n), lambda i: s.R.at(i), 'update-post', where, [n])


def check_write_result(x, st, r, n, where):
    ok = isinstance(r, (tuple, list)) and len(r) == 2
    if not ok:
        raise Unsupported('result %r' % (r,))
    a, b = r
    x.equal_all(st, [(t.ext(a, 0, 1), t.TRUE), (b, n)], 'write-result', where, [n], 'Ok(buf.len())')


def spec_digest(x, words, cnt0, N, byte, last, block=None):
    """8 words of the digest when N bytes byte(0..N) are to be hashed at counter cnt0 with chaining words `words`"""
    if block is not None:
        # one block at most (N <= B)
        blk, kk, bl = block, None, N
        h = words
        cnt = t.add(cnt0, x.nat(N))
    else:
        kk, fo, bl = x.split_len(N)
        chain = Chain('spec', x.v, words, lambda k, i: byte(t.add(t.mulc(k, x.B), t.C(i, 64))), lambda k: count_at(x, cnt0, k))
        h = chain.Hs(kk)
        blk = x.block_terms(lambda i: t.ite(t.ult(t.C(i, 64), bl), byte(t.add(fo, t.C(i, 64))), t.C(0, 8)))
        cnt = t.add(t.add(cnt0, t.mulc(x.nat(kk), x.B)), x.nat(bl))
    return x.F(h, blk, cnt, x.flag(t.TRUE), x.flag(last))


def pad_block(x, n, byte):
    return x.block_terms(lambda i: t.ite(t.ult(t.C(i, n.w), n), byte(t.C(i, 64)), t.C(0, 8)))


def check_hash(x, st, hp, words, length, kind, where, small=()):
    """*hp is a Hash of `length` bytes whose bytes are the little-endian words (only the first `length` matter)"""
    L = x.lay['Hash']
    ln = get(x, st, hp, L['len'], 1)
    if ln is UNDEF:
        x.ctx.fail(kind, where, 'refuted', 'length uninitialised')
        return
    pairs = [(ln, length)]
    for i in range(8):
        w = get(x, st, hp, L['bytes'] + i * x.WB, x.WB)
        if w is UNDEF:
            # byte-wise: trailing bytes may be anything, but reading them is only allowed if initialised
            x.ctx.fail(kind, where, 'refuted', 'digest bytes uninitialised')
            return
        pairs.append((w, words[i]))
    x.equal_all(st, pairs, kind, where, small, 'digest bytes')


def state_bytes_same(x, st, p, s, kind, where):
    """nothing in the state changed (used for &self methods; the object is read-only as well)"""
    pass


def prove_finalize(x):
    """R(s, M[0..L)) => the digest of M under s's parameters; s is not written"""
    ctx = x.ctx
    st = St()
    s = sym_state(x, st)
    p = write_state(x, st, s, ro=True)
    ho = ctx.new_obj(st, 'hash', *x.size['Hash'])
    where = 'State::finalize'
    want = spec_digest(x, s.words, s.cnt0, s.pend, None, s.last, pad_block(x, s.pend, s.R.at))
    rets = x.call('state_finalize', [p, Ptr(ho, Z)], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s2, _ in rets:
        check_hash(x, s2, Ptr(ho, Z), want, s.hash_length, 'finalize-post', where)


def prove_count(x):
    ctx = x.ctx
    st = St()
    s = sym_state(x, st)
    p = write_state(x, st, s, ro=True)
    o = ctx.new_obj(st, 'count', x.CW // 8, x.CW // 8)
    where = 'State::count'
    want = t.ite(s.keyed, t.sub(s.total, t.C(x.B, x.CW)), s.total)
    for s2, _ in x.call('state_count', [p, Ptr(o, Z)], st):
        x.equal_all(s2, [(get(x, s2, Ptr(o, Z), 0, x.CW // 8), want)], 'count-post', where)


def prove_set_last_node(x):
    ctx = x.ctx
    st = St()
    s = sym_state(x, st)
    p = write_state(x, st, s)
    b = t.V('arg', 1)
    where = 'State::set_last_node'
    for s2, r in x.call('state_set_last_node', [p, b], st):
        if not (isinstance(r, Ptr) and r.obj == p.obj and r.off is Z):
            ctx.fail('returns-self', where, 'refuted', 'returned %r' % (r,))
        check_state(x, s2, p, s, s.pend, s.R.at, 'set-last-node-post', where, last=b)


def prove_state_clone(x):
    """the clone satisfies R for the same message and parameters; the original is not written; no shared memory"""
    ctx = x.ctx
    st = St()
    s = sym_state(x, st)
    p = write_state(x, st, s, ro=True)
    o = ctx.new_obj(st, 'clone', *x.size['State'])
    where = 'State::clone'
    for s2, _ in x.call('state_clone', [p, Ptr(o, Z)], st):
        check_state(x, s2, Ptr(o, Z), s, s.pend, s.R.at, 'clone-post', where)


def state_from_params(x, st, d):
    """the abstract state of a fresh State for parameters d: pending = key block (if keyed)"""
    s = SV()
    s.name = 'fresh'
    kl = d['key_length']
    s.keyed = t.ne(kl, t.C(0, 8))
    s.pend = t.ite(s.keyed, t.C(x.B, 64), t.C(0, 64))
    s.cnt0 = t.C(0, x.CW)
    s.last, s.hash_length, s.impl = d['last_node'], d['hash_length'], d['implementation']
    s.byte = lambda i: key_byte(x, d['key_block'], i)
    s.words = spec_param_words(x, d)
    return s


def key_byte(x, kb, i, beyond=None):
    """byte i of the key block, `beyond` past its end"""
    r = t.C(0, 8) if beyond is None else beyond
    if i.op == 'c':
        return kb[i.a[0]] if i.a[0] < x.B else r
    for j in range(x.B):
        if beyond is None and kb[j].op == 'c' and kb[j].a[0] == 0:
            continue
        r = t.ite(t.eq(i, t.C(j, i.w)), kb[j], r)
    return r


def prove_to_state(x, how):
    """to_state / State::new / State::default: R(s, key block or nothing) for the parameters"""
    ctx = x.ctx
    o = None
    for keyed in ((True, False) if how == 'to_state' else (False,)):
        st = St()
        if how == 'to_state':
            d = sym_params(x, st, keyed=keyed)
            p = write_params(x, st, d)
            st.wobj(p.obj).ro = True
        o = ctx.new_obj(st, 'state', *x.size['State'])
        q = Ptr(o, Z)
        where = {'to_state': 'Params::to_state', 'new': 'State::new', 'default': 'State::default'}[how]
        if how == 'to_state':
            rets = x.call('params_to_state', [p, q], st)
        else:
            rets = x.call('state_' + how, [q], st)
        if not rets:
            ctx.fail('returns', where, 'refuted', 'never returns')
        for s2, _ in rets:
            if how != 'to_state':
                imp = read_state(x, s2, q).impl
                imp_valid(x, s2, imp, where)
                d = default_params(x, imp)
            s = state_from_params(x, s2, d)
            check_state(x, s2, q, s, s.pend, s.byte, 'fresh-state', where, words=s.words)


def prove_hash(x, how, keyed=False):
    """Params::hash / blake2b(): the digest of (key block ||) input under the parameters"""
    ctx = x.ctx
    st = St()
    M = Array('M')
    where = {'params_hash': 'Params::hash', 'oneshot': x.crate[:7] + '()'}[how] + (' keyed' if keyed else '')
    ho = ctx.new_obj(st, 'hash', *x.size['Hash'])
    hp = Ptr(ho, Z)
    if how == 'params_hash':
        d = sym_params(x, st, keyed=keyed, keyarr=M if keyed else None)
        p = write_params(x, st, d)
        st.wobj(p.obj).ro = True
    # keyed: M = key block || input
    kl = x.B if keyed else 0
    ip, n = x.slice(st, 'input', M, base=t.C(kl, 64))
    byte = M.at
    N = t.add(n, t.C(kl, 64))
    rets = x.call(how, ([p] if how == 'params_hash' else []) + [ip, n, hp], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s2, _ in rets:
        if how == 'oneshot':
            d = default_params(x, t.C(0, 8))
        want = spec_digest(x, spec_param_words(x, d), t.C(0, x.CW), N, byte, d['last_node'])
        check_hash(x, s2, hp, want, d['hash_length'], 'hash-post', where, [n])


def prove_params_clone(x):
    ctx = x.ctx
    st = St()
    d = sym_params(x, st)
    p = write_params(x, st, d)
    st.wobj(p.obj).ro = True
    o = ctx.new_obj(st, 'clone', *x.size['Params'])
    rets = x.call('params_clone', [p, Ptr(o, Z)], st)
    if not rets:
        ctx.fail('returns', 'Params::clone', 'refuted', 'never returns')
    for s, _ in rets:
        check_params(x, s, Ptr(o, Z), d, 'clone-post', 'Params::clone')


def prove_flush(x, what):
    """flush succeeds and writes nothing (the state is a read-only object here)"""
    ctx = x.ctx
    st = St()
    where = 'io::Write for %s::flush' % what
    if what == 'State':
        s = sym_state(x, st)
        p = write_state(x, st, s, ro=True)
        f = 'io::flush'
    else:
        raise Unsupported(what)
    rets = x.call(f, [p], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s2, r in rets:
        x.equal_all(s2, [(t.ext(r, 0, 1), t.TRUE)], 'flush-ok', where)
