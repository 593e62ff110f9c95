"""BLAKE2-specific layer: layouts, encodings, specification expressions and contracts for /repo's functions."""
import glob
import os
from . import term as t
from . import ir, smt, spec, corelib
from .mem import *
from .exec import *
from .prove import Chain, Prover, CW

CR = {'b': 'blake2b_simd', 's': 'blake2s_simd'}
TREE = {'b': 'blake2bp', 's': 'blake2sp'}
STATE_F = ['words', 'count', 'buf', 'buflen', 'last_node', 'hash_length', 'implementation', 'is_keyed']
PARAMS_F = ['hash_length', 'key_length', 'key_block', 'salt', 'personal', 'fanout', 'max_depth', 'max_leaf_length',
            'node_offset', 'node_depth', 'inner_hash_length', 'last_node', 'implementation']
HASH_F = ['bytes', 'len']
MJOB_F = ['words', 'count', 'last_node', 'hash_length', 'input', 'finished', 'implementation']
TSTATE_F = ['leaf_words', 'root_words', 'buf', 'buf_len', 'count', 'hash_length', 'implementation', 'is_keyed']
TPARAMS_F = ['hash_length', 'key_length', 'key', 'implementation']
JOB_F = ['input', 'words', 'count', 'last_node']
I = lambda w: ('i', w)
PTR = ir.PTR


def few(ch, k):
    """the chain after k steps (a number), written out"""
    h = ch.words0
    for j in range(k):
        a = ch.args(t.C(j, ch.kw))
        h = t.mkF(ch.variant, list(h) + a[8:])
    return h


class Lost(Exception):
    """an anchor (function, field) the contracts are attached to is not there any more"""


def load_modules(d):
    mods = []
    for f in sorted(glob.glob(os.path.join(d, 'release/deps/*.ll'))):
        mods.append(ir.Module(open(f).read()))
    if not mods:
        raise Lost('no IR')
    return mods


class B2:
    """one variant ('b' or 's') over a set of modules"""

    def __init__(self, mods, v, budget_s=600, timeout_ms=20000):
        self.v = v
        self.mods = mods
        self.W = spec.W[v]
        self.WB = self.W // 8
        self.CW = CW[v]
        self.B = spec.BLOCK[v]
        self.OUT = spec.OUT[v]
        self.DEG = spec.DEGREE_P[v]
        self.crate = CR[v]
        self.sv = smt.Solver(timeout_ms=timeout_ms)
        self.ctx = Ctx(mods, self.sv, budget_s)
        corelib.install(self.ctx)
        self.by_pretty = {}
        for m in mods:
            for f in m.funcs.values():
                if f.defined:
                    self.by_pretty.setdefault(f.pretty, f)
        self.assumed_features = None
        self.ctx.contracts.append((lambda f: f.pretty == 'std_detect::detect::cache::test', self._detect))
        self._layout()

    # ------------------------------------------------------------ lookup
    def fn(self, pretty):
        f = self.by_pretty.get(pretty)
        if f is None:
            raise Lost(pretty)
        return f

    def drv(self, name):
        return self.fn('drv::%s::%s' % (self.v, name))

    def _detect(self, ctx, st, f, args):
        """CPU feature detection: any (fixed) answer is possible"""
        if args[0].op != 'c':
            raise Unsupported('feature number')
        return [(st, t.V('cpu.feature.%d' % args[0].a[0], 1))]
    _detect.label = 'std_detect::cache::test (arbitrary CPU)'

    # ------------------------------------------------------------ run helpers
    def call(self, name, args, st):
        """run a driver function; -> [(state, ret)]"""
        return self.ctx.run_fn(self.drv(name), args, st)

    def call1(self, name, args, st):
        r = self.call(name, args, st)
        if len(r) != 1:
            raise Unsupported('%d paths in %s' % (len(r), name))
        return r[0]

    def fields(self, fn, size, align, names):
        st = St()
        o = self.ctx.new_obj(st, 'x', size, align)
        out = self.ctx.new_obj(st, 'out', 8 * len(names), 8)
        f = self.drv(fn)
        f.parse_header()
        a = [Ptr(o, t.C(0, 64))]
        if len(f.args) == 2:
            a = [Ptr(out, t.C(0, 64))] + a
        r = self.ctx.run_fn(f, a, st)
        s, v = r[0]
        res = {}
        for i, n in enumerate(names):
            if v is not None and len(f.args) == 1:
                p = v[i] if isinstance(v, tuple) else None
            else:
                p = self.ctx.load(s, Ptr(out, t.C(8 * i, 64)), PTR)
            if not isinstance(p, Ptr) or p.obj != o or p.off.op != 'c':
                raise Lost('layout of %s.%s' % (fn, n))
            res[n] = p.off.a[0]
        return res

    def _layout(self):
        st = St()
        out = self.ctx.new_obj(st, 'out', 128, 8)
        r = self.ctx.run_fn(self.drv('sizes'), [Ptr(out, t.C(0, 64))], st)
        sz = [self.ctx.load(r[0][0], Ptr(out, t.C(8 * i, 64)), I(64)).a[0] for i in range(16)]
        self.size = {}
        self.lay = {}
        for i, (k, fn, names) in enumerate([('State', 'state_fields', STATE_F), ('Params', 'params_fields', PARAMS_F),
                                            ('Hash', 'hash_fields', HASH_F), ('HashManyJob', 'mjob_fields', MJOB_F),
                                            ('TState', 'tstate_fields', TSTATE_F), ('TParams', 'tparams_fields', TPARAMS_F),
                                            ('Job', 'job_fields', JOB_F)]):
            self.size[k] = (sz[2 * i], sz[2 * i + 1])
            self.lay[k] = self.fields(fn, sz[2 * i], sz[2 * i + 1], names)
        self.impl_size = sz[14]
        self.enc = {}
        for nm in ('last_node', 'finalize', 'stride'):
            for yes in (0, 1):
                st = St()
                o = self.ctx.new_obj(st, 'e', 1, 1)
                s, _ = self.call1('enc_' + nm, [t.C(yes, 1), Ptr(o, t.C(0, 64))], st)
                self.enc[nm, yes] = self.ctx.load(s, Ptr(o, t.C(0, 64)), I(8)).a[0]
        self.imp = {}
        for which, nm in enumerate(('portable', 'sse41', 'avx2')):
            st = St()
            o = self.ctx.new_obj(st, 'e', self.impl_size, 1)
            for s, v in self.call('enc_impl', [t.C(which, 8), Ptr(o, t.C(0, 64))], st):
                if v is t.TRUE or v.op != 'c':
                    self.imp[nm] = self.ctx.load(s, Ptr(o, t.C(0, 64)), I(8)).a[0]
                    break
        self.ctx.obs.clear()

    # ------------------------------------------------------------ terms
    def bytes_obj(self, st, name, size, arr, base=None, align=1, ro=True):
        """object whose byte i is arr[base + i]"""
        iw = arr.iw
        b = base if base is not None else t.C(0, iw)
        fn = lambda i: arr.at(t.add(b, t.zext(i, iw)))
        return self.ctx.new_obj(st, name, size, align, Base(fn), ro=ro)

    def words_obj(self, st, name, words=None, align=None):
        words = words or [t.V('%s.%d' % (name, i), self.W) for i in range(8)]
        o = self.ctx.new_obj(st, name, 8 * self.WB, align or self.WB)
        for i, x in enumerate(words):
            st.wobj(o).write_c(self.WB * i, self.WB, x, self.ctx)
        return o, words

    def rd_words(self, st, p):
        return [self.ctx.load(st, self.ctx.padd(p, t.C(self.WB * i, 64)), I(self.W)) for i in range(8)]

    def wr_words(self, st, p, ws):
        for i, x in enumerate(ws):
            self.ctx.store(st, self.ctx.padd(p, t.C(self.WB * i, 64)), I(self.W), x)

    def rd_block(self, st, p):
        return self.ctx.load_run(st, p, self.B // 16, 16)

    def cnt(self, x):
        return t.zext(x, self.CW)

    def flag(self, b):
        return t.ite(b, t.C(-1, self.W), t.C(0, self.W))

    def is_enc(self, nm, v):
        """term: the enum value v encodes Yes/Parallel"""
        return t.eq(t.zext(v, 8), t.C(self.enc[nm, 1], 8)) if v.w < 8 else t.eq(v, t.C(self.enc[nm, 1], v.w))

    def F(self, h, m, count, f0, f1):
        W = self.W
        return t.mkF(self.v, list(h) + list(m) + [t.ext(count, 0, W), t.ext(count, W, W), f0, f1])

    def equal_all(self, st, pairs, kind, where, small=(), detail=''):
        """an obligation that term pairs are equal"""
        pr = Prover(self.ctx, small)
        t0 = time.time()
        if any(a is UNDEF or b is UNDEF for a, b in pairs):
            self.ctx.fail(kind, where, 'refuted', detail + ' (uninitialised value)')
            return False
        r = pr.equal(st, pairs)
        dt = time.time() - t0
        if r is True:
            self.ctx.obs.append(Ob(kind, where, 'proved', detail, None, 'z3+rewriting', dt))
        elif r is False:
            e, a, b = pr.fail
            self.last_fail = e
            self.ctx.obs.append(Ob(kind, where, 'refuted', detail + ' %s != %s' % (t.show(a, 3)[:120], t.show(b, 3)[:120]), e, 'evaluation', dt))
            self.ctx.obs[-1].gen = bool(st.gh.get('generic'))
        else:
            self.ctx.obs.append(Ob(kind, where, 'unknown', detail + ' %s ?= %s' % (t.show(pr.bad[0], 4)[:300], t.show(pr.bad[1], 4)[:300]), None, '', dt))
        return r is True

    # ------------------------------------------------------------ specification
    def slice(self, st, name, arr, base=None, size=None, align=1):
        """a &[u8] argument: read-only object of symbolic size whose byte i is arr[base + i] -> (ptr, len)"""
        n = size if size is not None else t.V(name + '.len', 64)
        o = self.bytes_obj(st, name, n, arr, base, align)
        st.assume(t.ult(n, t.C(1 << 62, 64)))
        return Ptr(o, t.C(0, 64)), n

    def block_terms(self, byte):
        nb = self.WB
        return [t.cat(*[byte(nb * j + b) for b in reversed(range(nb))]) for j in range(16)]

    def nat(self, x):
        """a machine integer as a counter-width term"""
        return t.zext(x, self.CW) if x.w <= self.CW else t.ext(x, 0, self.CW)

    def split_len(self, n, S=None):
        """n bytes in blocks at stride S: (index of the last block, its offset, bytes in it), all of n's width"""
        S = S or self.B
        w = n.w
        z = t.C(0, w)
        sh = S.bit_length() - 1
        n1 = t.ite(t.eq(n, z), z, t.sub(n, t.C(1, w)))
        if n.op == 'c' and n.a[0] <= self.B:
            return z, z, n
        K = t.lshr(n1, t.C(sh, w))
        fo = t.cat(t.ext(n1, sh, w - sh), t.C(0, sh))
        rest = t.sub(n, fo)
        # a serial last block never has more than B bytes
        ln = rest if S == self.B else t.ite(t.ult(rest, t.C(self.B, w)), rest, t.C(self.B, w))
        return K, fo, ln

    def spec_loop(self, chain, n, S, count0, fin, last, byte):
        """the value compress1_loop must leave in words: n (64-bit) input bytes in blocks of stride S.
        chain: H over full blocks; byte(idx64) input byte.  -> (8 words, K)"""
        K, fo, ln = self.split_len(n, S)
        if self.ctx.eager == 2 and K.op != 'c':
            c = self.ctx.concretize(K)
            if c is not None:
                K, fo, ln = t.C(c, K.w), t.C(c * S, K.w), None
                ln = t.sub(n, fo)
                if S != self.B and not self.ctx.valid(self.ctx.cur, t.ule(ln, t.C(self.B, K.w))):
                    ln = t.C(self.B, K.w) if self.ctx.valid(self.ctx.cur, t.ule(t.C(self.B, K.w), ln)) else t.ite(t.ult(ln, t.C(self.B, K.w)), ln, t.C(self.B, K.w))
        cnt = t.add(t.add(count0, t.mulc(self.nat(K), self.B)), self.nat(ln))
        blk = self.block_terms(lambda i: t.ite(t.ult(t.C(i, 64), ln), byte(t.add(fo, t.C(i, 64))), t.C(0, 8)))
        f0 = self.flag(fin)
        f1 = self.flag(t.band(fin, last))
        return self.F(few(chain, K.a[0]) if K.op == 'c' and K.a[0] <= 4 else chain.Hs(K), blk, cnt, f0, f1), K, fo, ln
