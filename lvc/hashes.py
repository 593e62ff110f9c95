"""Obligations on Hash: equality, views, conversions."""
from .api import *


def sym_hash(x, st, name, n=None):
    """a Hash of any length 1..OUT with any bytes -> (ptr, length [8 bits], Array)"""
    A = Array(name)
    L = x.lay['Hash']
    oid = x.ctx.new_obj(st, name, *x.size['Hash'])
    put_base(x, st, oid, L['bytes'], x.OUT, A.at)
    if n is None:
        n = t.V(name + '.len', 8)
        st.assume(t.land(t.ne(n, t.C(0, 8)), t.ule(n, t.C(x.OUT, 8))))
    put(x, st, oid, L['len'], n)
    st.wobj(oid).ro = True
    return Ptr(oid, Z), n, A


def secret_free(x, terms, arrays):
    """no term mentions one of the arrays"""
    names = {a.name for a in arrays}
    for n in t.topo([c for c in terms if isinstance(c, t.T)]):
        if n.op == 'rd' and n.a[0].name in names:
            return n
    return None


def all_eq(x, n, A, Bf):
    """for all i < n (n <= OUT): A[i] == B[i]"""
    c = t.TRUE
    for i in range(x.OUT):
        k = t.C(i, 64)
        c = t.land(c, t.lor(t.ule(n, t.C(i, n.w)), t.eq(A.at(k), Bf(k))))
    return c


def watch(ctx):
    """record every branch condition and every variable-time comparison"""
    ctx.branches = []
    ctx.vartime = []


def check_ct(x, where, arrays, npre):
    ctx = x.ctx
    bad = secret_free(x, ctx.branches, arrays)
    if bad is not None:
        ctx.fail('constant-time', where, 'refuted', 'a branch depends on the contents: %s' % t.show(bad, 3)[:80])
    elif ctx.vartime:
        ctx.fail('constant-time', where, 'refuted', 'contents are compared by %s, which stops at the first difference' % ctx.vartime[0])
    else:
        ctx.proved('constant-time', where)
    ctx.branches = None


def prove_eq(x, which):
    """a == b  <=>  same length and same bytes; a != b is its negation; no branch on the bytes"""
    ctx = x.ctx
    st = St()
    p, n, A = sym_hash(x, st, 'a')
    neg = which == 'ne'
    where = {'eq': 'Hash == Hash', 'ne': 'Hash != Hash', 'eq_slice': 'Hash == [u8]'}[which]
    if which == 'eq_slice':
        Bv = Array('b')
        q, m = x.slice(st, 'b', Bv)
        args = [p, q, m]
        same = t.eq(m, t.zext(n, 64))
    else:
        q, m, Bv = sym_hash(x, st, 'b')
        args = [p, q]
        same = t.eq(m, n)
    want = t.band(same, all_eq(x, n, A, Bv.at))
    watch(ctx)
    rets = x.call('hash_' + which, args, st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s, r in rets:
        got = t.ext(r, 0, 1)
        ctx.oblige(s, t.eq(got, t.bnot(want) if neg else want), 'eq-post', where, 'equality is not equality of lengths and bytes')
    check_ct(x, where, [A, Bv], 0)


def same_bytes(x, st, p, n, want_n, byte, kind, where):
    """slice (p, n) has length want_n and shows byte(j) for j < want_n"""
    if not x.equal_all(st, [(n, want_n)], kind, where, detail='length'):
        return
    s = st.fork()
    j = t.fresh('j', 64)
    s.assume(t.ult(j, want_n))
    x.equal_all(s, [(x.ctx.load_bytes(s, x.ctx.padd(p, j), 1), byte(j))], kind, where, detail='contents')


def prove_view(x, which):
    ctx = x.ctx
    st = St()
    where = 'Hash::' + which
    full = which == 'as_array'
    p, n, A = sym_hash(x, st, 'a', t.C(x.OUT, 8) if full else None)
    rets = x.call('hash_' + which, [p], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    for s, r in rets:
        if full:
            q, m = r, t.C(x.OUT, 64)
        else:
            q, m = r
        same_bytes(x, s, q, m, t.zext(n, 64), A.at, 'view-post', where)


def prove_from(x, which):
    """From<[u8; OUT]>, From<&[u8; OUT]>, Clone/Copy: same bytes, full length (same length for copies)"""
    ctx = x.ctx
    st = St()
    where = {'from': 'Hash::from([u8; OUT])', 'from_ref': 'Hash::from(&[u8; OUT])', 'clone': 'Hash: Copy'}[which]
    o = ctx.new_obj(st, 'out', *x.size['Hash'])
    if which == 'clone':
        p, n, A = sym_hash(x, st, 'a')
    else:
        A = Array('a')
        io = x.bytes_obj(st, 'a', x.OUT, A)
        p, n = Ptr(io, Z), t.C(x.OUT, 8)
    f = x.drv('hash_' + which)
    f.parse_header()
    if len(f.args) != 2 or f.args[0][0] != PTR:
        raise Unsupported('argument passing of hash_%s' % which)
    rets = ctx.run_fn(f, [p, Ptr(o, Z)], st)
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    L = x.lay['Hash']
    for s, _ in rets:
        same_bytes(x, s, Ptr(o, t.C(L['bytes'], 64)), t.zext(get(x, s, Ptr(o, Z), L['len'], 1), 64), t.zext(n, 64), A.at, 'from-post', where)


def hexdigit(nib):
    """nib: 4-bit term"""
    D = b'0123456789abcdef'
    r = t.C(D[15], 8)
    for i in reversed(range(15)):
        r = t.ite(t.eq(nib, t.C(i, 4)), t.C(D[i], 8), r)
    return r


def hexbyte(A, j):
    """digit j of the hexadecimal form of A"""
    return hexdigit(t.ext(A.at(t.C(j // 2, 64)), 0 if j & 1 else 4, 4))


def prove_hex(x):
    """to_hex: 2*len lowercase digits, high nibble first"""
    ctx = x.ctx
    where = 'Hash::to_hex'
    for n in range(1, x.OUT + 1):
        # the length is enumerated completely: 1..OUT
        st = St()
        p, _, A = sym_hash(x, st, 'a', t.C(n, 8))
        o = ctx.new_obj(st, 'out', 2 * x.OUT, 1)
        rets = x.call('hash_to_hex', [p, Ptr(o, Z)], st)
        if not rets:
            ctx.fail('returns', where, 'refuted', 'never returns')
        for s, r in rets:
            if x.equal_all(s, [(r, t.C(2 * n, 64))], 'hex-post', where, detail='length %d' % n):
                x.equal_all(s, [(get(x, s, Ptr(o, Z), j, 1), hexbyte(A, j)) for j in range(2 * n)], 'hex-post', where, detail='digits at length %d' % n)
