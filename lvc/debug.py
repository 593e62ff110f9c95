"""Debug output: every byte handed to core's formatting machinery, and every branch on the way, is independent of the secrets.

The text is a function of what reaches core::fmt (template, values behind the arguments, formatter options): core's formatters
are under contract `prints exactly the value its type describes`.  Non-interference is then a set of obligations, one for each
byte exposed: the byte stays the same when every secret symbol in it is renamed.
"""
import re
from . import term as t
from .mem import *
from .b2 import *
from .api import *
from .hashes import sym_hash, hexbyte, watch
from .many import sym_mjob
from .tree import sym_tparams, write_tparams, sym_tstate, write_tstate
from .exec import Unsupported

SIZES = dict(a=1, b=1, c=4, d=8, f=4, h=1, i=8, j=8, l=4, m=4, n=16, o=16, s=2, t=2, x=8, y=8)
SHOWN = re.compile(r'(?:4core3fmt|3num|3imp|5array)(R*)(?:A([a-z])j([0-9a-f]*)_|S([a-z])|([a-z]))N')


class Exposed:
    def __init__(self, x, secrets):
        self.x, self.ctx = x, x.ctx
        self.vars = {n.id for n in secrets if isinstance(n, t.T)}
        self.arrs = {a.name for a in secrets if isinstance(a, Array)}
        self.where = ''
        self.count = 0
        self.writes = []       # (template bytes, [argument values]) of the last calls

    def secret(self, term):
        return [n for n in t.topo([term]) if n.id in self.vars or (n.op == 'rd' and n.a[0].name in self.arrs)]

    def public(self, st, v, what):
        ctx = self.ctx
        self.count += 1
        if v is UNDEF:
            ctx.fail('initialised', self.where, 'refuted', what + ' is not initialised')
            return
        if not isinstance(v, t.T):
            ctx.proved('no-leak', self.where)
            return
        at = self.secret(v)
        if not at:
            ctx.proved('no-leak', self.where)
            return
        v2 = t.subst([v], {n: t.fresh('other', n.w) for n in at})[0]
        ctx.oblige(st, t.eq(v, v2), 'no-leak', self.where, '%s shows %s' % (what, t.show(v, 2)[:80]))

    def bytes(self, st, p, n, what):
        r = []
        for i in range(n):
            v = self.ctx.load_bytes(st, self.ctx.padd(p, t.C(i, 64)), 1)
            self.public(st, v, '%s byte %d' % (what, i))
            r.append(v)
        return r

    def many(self, st, p, n, el, what):
        """n elements of el bytes, n a term"""
        self.public(st, n, what + ' length')
        self.ctx.cur = st
        if n.op != 'c':
            c = self.ctx.concretize(n)
            n = n if c is None else c if isinstance(c, t.T) else t.C(c, 64)
        if n.op == 'c':
            if n.a[0] * el > 4096:
                raise Unsupported('a long value is shown')
            return self.bytes(st, p, n.a[0] * el, what)
        s2 = st.fork()
        k = t.fresh('k', 64)
        s2.assume(t.ult(k, t.mulc(n, el)))
        if self.ctx.sv.check(s2.pc, ()) != 'unsat':
            self.public(s2, self.ctx.load_bytes(s2, self.ctx.padd(p, k), 1), what)
        return None

    def show(self, st, p, fn, fmt):
        """the value at p goes through the formatter fn -> [states]"""
        m = SHOWN.search(fn.name)
        if m:
            refs, ael, an, sel, base = m.groups()
            q, n = p, None
            for i in range(len(refs)):
                if i == len(refs) - 1 and (sel or base == 'e'):
                    n = self.ctx.load_bytes(st, self.ctx.padd(q, t.C(8, 64)), 8)
                q = self.ctx.load(st, q, PTR)
            what = 'the value shown by %s' % fn.name[-40:]
            if sel or base == 'e':
                if n is None:
                    raise Unsupported('an unsized value is shown')
                self.last.append(self.many(st, q, n, 1 if base else SIZES[sel], what))
            elif ael:
                self.last.append(self.bytes(st, q, int(an or '0', 16) * SIZES[ael], what))
            elif base in SIZES:
                self.last.append(self.bytes(st, q, SIZES[base], what))
            else:
                raise Unsupported('formatter %s' % fn.name)
            return [st]
        f = self.ctx.find(fn.name)
        if f is None or not f.defined:
            raise Unsupported('formatter %s' % fn.name)
        return [s for s, _ in self.ctx.call(fn.name, [p, fmt], st)]

    # ---- contracts
    def write(self, ctx, st, f, a):
        """core::fmt::write(out, vtable, template, arguments)"""
        tmpl, args = a[2], a[3]
        self.last = []
        text = None
        if isinstance(tmpl, Ptr) and tmpl.off.op == 'c':
            o = ctx.obj(st, tmpl.obj)
            if isinstance(o.size, int):
                text = [ctx.load_bytes(st, ctx.padd(tmpl, t.C(i, 64)), 1) for i in range(o.size - tmpl.off.a[0])]
                for v in text:
                    self.public(st, v, 'the template')
        if text is None:
            raise Unsupported('the template of a format string')
        sts = [st]
        if isinstance(args, Ptr):
            o = ctx.obj(st, args.obj)
            if not isinstance(o.size, int) or args.off.op != 'c' or (o.size - args.off.a[0]) % 16:
                raise Unsupported('the arguments of a format string')
            for k in range((o.size - args.off.a[0]) // 16):
                nx = []
                for s in sts:
                    p = ctx.load(s, ctx.padd(args, t.C(16 * k, 64)), PTR)
                    fn = ctx.load(s, ctx.padd(args, t.C(16 * k + 8, 64)), PTR)
                    if isinstance(p, Ptr) and isinstance(fn, FnPtr):
                        nx += self.show(s, p, fn, self.fmt)
                    elif isinstance(p, t.T):
                        self.public(s, p, 'a width')
                        nx.append(s)
                    else:
                        raise Unsupported('an argument of a format string')
                sts = nx
        self.writes.append((text, self.last))
        return [(s, t.fresh('fmt.error', 1)) for s in sts]

    def write_str(self, ctx, st, f, a):
        """write_str of the sink behind the formatter, Formatter::write_str, pad"""
        self.last = []
        self.many(st, a[1], a[2], 1, 'the string')
        self.writes.append((None, []))
        return [(st, t.fresh('fmt.error', 1))]

    def str_fmt(self, ctx, st, f, a):
        """<str as Display>::fmt"""
        self.last.append(self.many(st, a[0], a[1], 1, 'the string'))
        return [(st, t.fresh('fmt.error', 1))]

    def field_values(self, ctx, st, f, a):
        """Formatter::debug_{struct,tuple}_fieldN(s)_finish: names and (value, vtable) pairs"""
        vals = [v for v in a[1:]]
        pairs = []
        i = 0
        while i < len(vals):
            v = vals[i]
            nxt = vals[i + 1] if i + 1 < len(vals) else None
            if isinstance(v, Ptr) and isinstance(nxt, Ptr):
                pairs.append((v, nxt))
                i += 2
            elif isinstance(v, Ptr) and isinstance(nxt, t.T):
                o = ctx.obj(st, v.obj)
                if nxt.op != 'c':
                    raise Unsupported('derived Debug')
                first = None
                try:
                    first = ctx.load(st, v, PTR)
                except (MemError, Unsupported):
                    pass
                if isinstance(first, Ptr):
                    for k in range(nxt.a[0]):
                        p, q = (ctx.load(st, ctx.padd(v, t.C(16 * k + d, 64)), PTR) for d in (0, 8))
                        second = isinstance(q, Ptr)
                        if second:
                            pairs.append((p, q))
                i += 2
            else:
                i += 1
        self.last = []
        sts = [st]
        for p, vt in pairs:
            nx = []
            for s in sts:
                fn = ctx.load(s, ctx.padd(vt, t.C(24, 64)), PTR)
                if not isinstance(fn, FnPtr):
                    raise Unsupported('derived Debug')
                nx += self.show(s, p, fn, self.fmt)
            sts = nx
        return [(s, t.fresh('fmt.error', 1)) for s in sts]

    def known_str(self, ctx, st, f, a):
        """Arguments::as_statically_known_str: a hint to the compiler; None is always a correct answer"""
        return [(st, (Ptr_null(ctx), t.C(0, 64)))]

    def install(self, st):
        ctx = self.ctx
        sink = ctx.new_obj(st, 'sink', 8, 8, tag='opaque')
        vt = ctx.new_obj(st, 'sink.vtable', 48, 8)
        fo = ctx.new_obj(st, 'formatter', 64, 8)
        ctx.store(st, Ptr(vt, t.C(24, 64)), PTR, FnPtr('@lvc_sink_write_str'))
        ctx.store(st, Ptr(fo, t.C(0, 64)), PTR, Ptr(sink, Z))
        ctx.store(st, Ptr(fo, t.C(8, 64)), PTR, Ptr(vt, Z))
        for i in range(16, 64):
            put(self.x, st, fo, i, t.V('formatter.%d' % i, 8))
        self.fmt = Ptr(fo, Z)
        ends = lambda *e: (lambda f: '4core3fmt' in f.name and any(re.search(s, f.name) for s in e))
        for m, h, lab in ((ends(r'_RNvNtC\w+_4core3fmt5write$'), self.write, 'core::fmt::write'),
                          (ends('9Arguments23as_statically_known_str$'), self.known_str, 'Arguments::as_statically_known_str'),
                          (ends(r'_4core3fmteNt\w*7Display3fmt$'), self.str_fmt, 'Formatter str as Display'),
                          (ends('9Formatter(9write_str|3pad)$'), self.write_str, 'Formatter::write_str'),
                          (ends(r'9Formatter\d+debug_(struct|tuple)_fields?\d?_finish$'), self.field_values, 'Formatter::debug_struct_fields_finish')):
            g = (lambda hh: lambda *a: hh(*a))(h)
            g.label = lab
            ctx.contracts.insert(0, (m, g))
        ext = ctx.extern

        def extern(name, f, args, s):
            if name == '@lvc_sink_write_str':
                return self.write_str(ctx, s, f, args)
            return ext(name, f, args, s)
        ctx.extern = extern


def Ptr_null(ctx):
    return t.C(0, 64)


def run_debug(x, ty, st, p, secrets, where):
    ctx = x.ctx
    E = Exposed(x, secrets)
    E.where = where
    E.install(st)
    watch(ctx)
    f = x.fn('<%s%s as core::fmt::Debug>::fmt' % (crate(x), ty))
    rets = ctx.call(f.name, [p, E.fmt], st)
    br, ctx.branches = ctx.branches, None
    for c in br:
        if isinstance(c, t.T):
            E.public(st, c, 'a branch')
    if not rets:
        ctx.fail('returns', where, 'refuted', 'never returns')
    if not E.writes and not E.count:
        ctx.fail('no-leak', where, 'unknown', 'nothing reached the formatting machinery')
    return E, rets


def crate(x):
    return 'blake2%s_simd::' % x.v


def prove_debug(x, which):
    """no byte shown and no branch taken by <T as Debug>::fmt depends on the secrets of T"""
    st = St()
    tree = 'blake2%sp::' % x.v
    if which == 'Params':
        A = Array('p.keybytes')
        d = sym_params(x, st, keyarr=A)
        p = write_params(x, st, d)
        E = run_debug(x, 'Params', st, p, [A] + list(d['key_block']), 'Debug for Params')
    elif which == 'State':
        s = sym_state(x, st)
        p = write_state(x, st, s)
        E = run_debug(x, 'State', st, p, s.words + [s.R, s.stale], 'Debug for State')
    elif which == 'tree Params':
        d = sym_tparams(x, st)
        p = write_tparams(x, st, d)
        E = run_debug(x, tree + 'Params', st, p, [Array('tp.key')], 'Debug for tree Params')
    elif which == 'tree State':
        s = sym_tstate(x, st)
        p = write_tstate(x, st, s)
        E = run_debug(x, tree + 'State', st, p, [w for l in s.leaf for w in l] + list(s.root) + [s.R, s.stale], 'Debug for tree State')
    elif which == 'HashManyJob':
        p, d = sym_mjob(x, st)
        E = run_debug(x, 'many::HashManyJob', st, p, d['words'] + [d['R']], 'Debug for HashManyJob')
    elif which == 'Job':
        L, R = x.lay['Job'], Array('job.R')
        oid = x.ctx.new_obj(st, 'job', *x.size['Job'])
        wo = x.ctx.new_obj(st, 'words', 8 * x.WB, x.WB)
        ws = [t.V('job.h%d' % i, x.W) for i in range(8)]
        x.wr_words(st, Ptr(wo, Z), ws)
        ip, n = x.slice(st, 'job.input', R)
        x.ctx.store(st, Ptr(oid, t.C(L['input'], 64)), PTR, ip)
        put(x, st, oid, L['input'] + 8, n)
        x.ctx.store(st, Ptr(oid, t.C(L['words'], 64)), PTR, Ptr(wo, Z))
        put(x, st, oid, L['count'], t.V('job.count', x.CW))
        put(x, st, oid, L['last_node'], enc(x, 'last_node', t.V('job.last_node', 1)))
        E = run_debug(x, 'guts::Job', st, Ptr(oid, Z), ws + [R], 'Debug for Job')


def prove_debug_hash(x):
    """Debug for Hash writes Hash(0x...) around exactly the 2 * len digits of the digest"""
    ctx = x.ctx
    where = 'Debug for Hash'
    want = b'\x07Hash(0x\xc0\x01)\x00'
    for n in range(1, x.OUT + 1):
        st = St()
        p, _, A = sym_hash(x, st, 'a', t.C(n, 8))
        E, rets = run_debug(x, 'Hash', st, p, [], where)
        ctx.contracts[:] = [c for c in ctx.contracts if not getattr(c[1], 'label', '').startswith(('core::fmt', 'Arguments::', 'Formatter::'))]
        if len(E.writes) != 1 or E.writes[0][0] is None:
            ctx.fail('debug-hash', where, 'unknown', 'written in %d pieces' % len(E.writes))
            continue
        text, shown = E.writes[0]
        tb = bytes(v.a[0] for v in text if v.op == 'c')
        if len(tb) != len(text) or tb[:2 + tb[0] + 1][-1:] != b'\xc0' and tb != want:
            ctx.fail('debug-hash', where, 'unknown', 'the template is laid out in another way: %r' % tb)
            continue
        if tb != want:
            ctx.fail('debug-hash', where, 'refuted', 'the text around the digits is %r' % tb)
            continue
        if len(shown) != 1 or shown[0] is None or len(shown[0]) != 2 * n:
            ctx.fail('debug-hash', where, 'refuted' if len(shown) == 1 and shown[0] is not None else 'unknown', 'not 2 * len digits at length %d' % n)
            continue
        x.equal_all(st, [(v, hexbyte(A, j)) for j, v in enumerate(shown[0])], 'debug-hash', where, detail='digits at length %d' % n)
