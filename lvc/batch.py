"""hash_many and update_many as a whole: any number of items in any order, one of them (the tracked one) followed closely.

The environment yields nothing, an anonymous item or (once) the tracked item.  Loops are closed by a finite abstraction
of the scheduling state: every pending job is (unknown chaining value, unknown rest of input), the tracked one in
addition carries V, the words it must end with (established when its Job is built, kept by the kernels' contract).
States at loop heads are widened to that abstraction and explored until no new one appears, so neither the number of
items nor their lengths nor the number of rounds is bounded."""
from . import term as t
from . import ir
from .exec import pc_list, _oid
from .b2 import *
from .lemmas import *
from .api import *
from .many import *

Z = t.C(0, 64)


class Memo:
    def __init__(self):
        self.backs, self.exits, self.rets = [], [], []


class Batch:
    def __init__(self, x, kind, imp, deadline=None):
        self.x, self.kind, self.imp = x, kind, imp
        self.fin = kind == 'hash'
        self.S = x.B
        ctx = x.ctx
        self.st = st = St()
        self.anon = 0
        self.nm, self.orig = {}, {}
        self.items = set()          # object ids of states/jobs and of the words of canonical jobs
        self.first = self.make(st, 'first', imp)
        self.T = self.make(st, 'tracked', imp)
        self.Tv = [t.V('V%d' % i, x.W) for i in range(8)]
        self.frozen = None
        self._own, self._memo = {}, {}
        L = x.lay['State' if kind == 'update' else 'HashManyJob']
        self.wo = L['words']
        self.base = st.pc
        self.stats = dict(states=0, canon=0)
        self.log = None
        self.depth = 0
        self.loops, self.memo_iter, self._made = set(), {}, {}

    # ------------------------------------------------------------ items
    def make(self, st, name, imp=None):
        x = self.x
        it = dict(name=name)
        if self.kind == 'update':
            s = sym_state(x, st, name)
            if imp is not None:
                s.impl = t.C(imp, 8)
            it['s'] = s
            it['p'] = write_state(x, st, s)
            it['ip'], it['n'] = x.slice(st, name + '.input', s.R, base=s.pend)
            room(x, st, s, it['n'])
        else:
            L = x.lay['HashManyJob']
            oid = x.ctx.new_obj(st, name, *x.size['HashManyJob'])
            it['R'] = Array(name + '.R')
            it['ip'], it['n'] = x.slice(st, name + '.input', it['R'])
            it['words'] = [t.V('%s.h%d' % (name, i), x.W) for i in range(8)]
            sh = x.B.bit_length() - 1
            it['cnt'] = t.ite(t.V(name + '.after_key', 1), t.C(x.B, x.CW), t.C(0, x.CW))
            it['last'] = t.V(name + '.last_node', 1)
            it['finished'] = t.V(name + '.finished', 1)
            it['hash_length'] = t.V(name + '.hash_length', 8)
            it['impl'] = t.C(imp, 8) if imp is not None else sym_impl(x, st, name)
            for i, w in enumerate(it['words']):
                put(x, st, oid, L['words'] + i * x.WB, w)
            put(x, st, oid, L['count'], it['cnt'])
            put(x, st, oid, L['last_node'], enc(x, 'last_node', it['last']))
            put(x, st, oid, L['hash_length'], it['hash_length'])
            x.ctx.store(st, Ptr(oid, t.C(L['input'], 64)), PTR, it['ip'])
            put(x, st, oid, L['input'] + 8, it['n'])
            put(x, st, oid, L['finished'], t.zext(it['finished'], 8))
            put(x, st, oid, L['implementation'], it['impl'])
            it['p'] = Ptr(oid, Z)
        self.items.add(it['p'].obj)
        self.nm[it['p'].obj] = name
        o = st.mem[it['p'].obj]
        self.orig[it['p'].obj] = (dict(o.cells), o.below)
        if name != 'tracked':
            st.wobj(it['p'].obj).tag = 'anon'
        it['in'] = it['ip'].obj
        return it

    def env(self):
        """contracts of the driver's extern functions: what the caller's iterator yields"""
        def env_next(ctx, st, f, a):
            out = []
            # it may end here (and, not being fused, may go on afterwards)
            s = st.fork()
            s.gh['over'] = 1
            out.append((s, t.C(0, 64)))
            if st.gh.get('first') is None:
                it = self.first
                s = st.fork()
                s.gh['first'] = 1
                s.gh['pulls'] = 1
                s.gh['item'] = it
                out.append((s, it['p']))
            else:
                s = st.fork()
                self.anon += 1
                it = self.make(s, 'a%d' % self.anon)
                s.gh['pulls'] = 1
                s.gh['item'] = it
                out.append((s, it['p']))
            if st.gh.get('T') is None:
                s = st.fork()
                s.gh['T'] = 'raw'
                s.gh['first'] = 1
                s.gh['pulls'] = 1
                s.gh['item'] = self.T
                out.append((s, self.T['p']))
            return out
        env_next.label = 'the caller\'s iterator'

        def env_input(ctx, st, f, a):
            it = st.gh['item']
            if len(a) == 2:
                ctx.store(st, a[0], PTR, it['ip'])
                ctx.store(st, ctx.padd(a[0], t.C(8, 64)), I(64), it['n'])
                return [(st, None)]
            return [(st, (it['ip'], it['n']))]
        env_input.label = 'the caller\'s iterator'
        self.x.ctx.contracts.append((lambda f: f.name.lstrip('@') == 'env_next', env_next))
        self.x.ctx.contracts.append((lambda f: f.name.lstrip('@') == 'env_next_input', env_input))

    # ------------------------------------------------------------ what the tracked item must become
    def spec_words(self):
        x, T = self.x, self.T
        if self.kind == 'hash':
            st = St()
            if not hasattr(self, '_sw'):
                self._sw = job_value(x, st, T['R'].at, T['n'], T['words'], T['cnt'], True, self.S, T['last'])
            return self._sw
        return None

    def check_T(self, st, words=None, where=None):
        """the tracked item is what processing it alone leaves; words: compare these instead of the words in memory"""
        x, T = self.x, self.T
        where = where or {'update': 'update_many', 'hash': 'hash_many'}[self.kind]
        if self.kind == 'update':
            s = T['s']
            if words is None:
                check_state(x, st, T['p'], s, t.add(s.pend, T['n']), lambda i: s.R.at(i), 'update-many-post', where, [T['n']])
            else:
                N = t.add(s.pend, T['n'])
                kk, fo, bl = x.split_len(N)
                chain = Chain('HT', x.v, s.words, lambda k, i: s.R.at(t.add(t.mulc(k, x.B), t.C(i, 64))), lambda k: count_at(x, s.cnt0, k))
                x.equal_all(st, list(zip(words, chain.Hs(kk))), 'update-many-post', where, [T['n']], 'final words of the job')
                check_state(x, st, T['p'], s, N, lambda i: s.R.at(i), 'update-many-post', where, [T['n']], words=read_state(x, st, T['p']).words)
            return
        L = x.lay['HashManyJob']
        g = lambda f, n, d=0: get(x, st, T['p'], L[f] + d, n)
        got = [g('words', x.WB, i * x.WB) for i in range(8)]
        want = self.spec_words()
        old = T['words']
        pairs = [(a, t.ite(T['finished'], o, b)) for a, b, o in zip(words or got, want, old)]
        x.equal_all(st, pairs, 'hash-many-post', where, [T['n']], 'words of the job')
        x.equal_all(st, [(t.ext(g('finished', 1), 0, 1), t.TRUE), (g('hash_length', 1), T['hash_length']),
                         (t.ext(g('finished', 1), 1, 7), t.C(0, 7))], 'hash-many-post', where, [], 'finished, hash_length')

    # ------------------------------------------------------------ canonical states
    def records(self, st):
        """[(object, base offset, words pointer's object)] of Job values in memory, and raw pointers to items"""
        L = self.x.lay['Job']
        recs, raw = [], set()
        for oid, o in st.mem.items():
            if oid in self.items:
                continue
            for off, (n, v) in o.cells.items():
                if isinstance(v, Ptr) and v.obj in self.items:
                    b = off - L['words']
                    c = o.cells
                    ok = b >= 0 and all((b + k) in c and c[b + k][0] == m for k, m in ((L['input'], 8), (L['input'] + 8, 8), (L['count'], self.x.CW // 8), (L['last_node'], 1)))
                    ok = ok and isinstance(c[b + L['input']][1], Ptr) and all(isinstance(c[b + k][1], t.T) for k in (L['input'] + 8, L['count'], L['last_node'])) \
                        and v.off.op == 'c'
                    if ok:
                        recs.append((oid, b, v.obj))
                    else:
                        raw.add(v.obj)
                elif isinstance(v, PIte):
                    for q in (v.p, v.q):
                        if isinstance(q, Ptr):
                            raw.add(q.obj)
        return recs, raw

    def scrub(self, st):
        """contents past the length of a vector of jobs are dead: reading them would be an error anyway"""
        x = self.x
        sz = x.size['Job'][0]
        cap = {'b': 4, 's': 8}[x.v]
        for oid, o in list(st.mem.items()):
            if not isinstance(o.size, int) or o.size < cap * sz + 4 or o.ro or oid in self.items:
                continue
            for base, lo in self.vecs(o, cap, sz):
                n = o.cells[lo][1].a[0]
                if n > cap:
                    continue
                dead = [k for k in o.cells if base + n * sz <= k < base + cap * sz and o.cells[k][1] is not UNDEF]
                if dead:
                    o = st.wobj(oid)
                    for k in dead:
                        o.cells[k] = (o.cells[k][0], UNDEF)

    def vecs(self, o, cap, sz):
        """(start of the elements, offset of the length) of a vector of jobs inside o, if it looks like one"""
        out = []
        for lo, (n, v) in o.cells.items():
            if n == 4 and isinstance(v, t.T) and v.op == 'c' and v.a[0] <= cap:
                for base in (lo - cap * sz, lo + 8 if lo % 8 == 0 else lo + 12, lo + 16 if lo % 16 == 0 else None):
                    if base is None or base < 0 or base + cap * sz > o.size:
                        continue
                    L = self.x.lay['Job']
                    ks = [(k - base) % sz for k, (m, w) in o.cells.items() if base <= k < base + cap * sz and isinstance(w, Ptr) and w.obj in self.items]
                    if ks and all(k == L['words'] for k in ks):
                        out.append((base, lo))
        return out[:1]

    def rec_fields(self, st, oid, b):
        c = st.mem[oid].cells
        L = self.x.lay['Job']
        return c[b + L['input']][1], c[b + L['input'] + 8][1], c[b + L['count']][1], c[b + L['last_node']][1], c[b + L['words']][1]

    def canon(self, regs, st, where=''):
        """-> (key, regs, state): an abstraction of the state"""
        x, ctx = self.x, self.x.ctx
        self.stats['canon'] += 1
        st = st.fork()
        ctx.cur = st
        self.scrub(st)
        recs, raw = self.records(st)
        for v in (regs or {}).values():
            for q in v if isinstance(v, (tuple, list)) else (v,):
                if isinstance(q, Ptr) and q.obj in self.items:
                    raw.add(q.obj)
        L = x.lay['Job']
        groups = {}
        for oid, b, w in recs:
            groups.setdefault(w, []).append((oid, b))
        names = {}
        facts = []
        maybe = []
        keep_items = set(raw)
        tpos = []
        Tid = self.T['p'].obj
        known = st.gh.get('canon', frozenset())
        new = set()
        for c in pc_list(st.pc, self.base):
            if c.id not in known:
                new |= ctx.sv.syms(c)
        lazy, relax = [], {}
        for w in sorted(groups, key=lambda w: min(groups[w])):
            pl = sorted(groups[w])
            fs = [self.rec_fields(st, o, b) for o, b in pl]
            cur = st.gh.get(('cur', w))
            if cur is not None:
                live = [i for i, f in enumerate(fs) if f[0].off is cur[0] and f[1] is cur[1] and f[2] is cur[2] and f[0].obj == cur[3]]
                for i, (o, b) in enumerate(pl):
                    if i not in live:
                        self.kill(st, o, b)
                pl, fs = [pl[i] for i in live], [fs[i] for i in live]
                if not pl:
                    continue
            f = fs[0]
            if any(g[1] is not f[1] or g[2] is not f[2] or g[0].obj != f[0].obj or g[0].off is not f[0].off or g[3] is not f[3] or g[4].off is not f[4].off for g in fs[1:]):
                keep_items.add(w)
                continue
            p, n, cnt, last, wp = f
            if cur is None:
                # a job nobody has worked on yet: its input must be inside its buffer
                io = ctx.obj(st, p.obj)
                if not ctx.valid(st, t.land(t.ule(p.off, self.sz(io)), t.ule(n, t.sub(self.sz(io), p.off)), t.ult(n, t.C(1 << 62, 64)))):
                    keep_items.add(w)
                    continue
            att = st.gh.get(('att', w))
            if att is not None and self.untouched(st, att, f, w, new):
                nz, lz, fc, nm = att[4:8]
                if nz is None:
                    maybe.append((n, n, w, w, pl[0], True))
                lazy.append((w, att, n))
                facts += fc
                keep_items.add(w)
                for o, b in pl:
                    for d in (L['input'], L['input'] + 8, L['count'], L['last_node'], L['words']):
                        names[o, b + d] = ('rec', d, pl[0], nm)
                continue
            nz = ctx.decide(st, t.ne(n, Z))
            lz = (not self.fin) and ctx.decide(st, low_zero(x, n))
            lc = ctx.decide(st, low_zero(x, cnt))
            lv = ctx.decide(st, t.land(*[t.lor(t.eq(last, t.C(x.enc['last_node', 0], 8)), t.eq(last, t.C(x.enc['last_node', 1], 8)))]))
            if not lc or not lv:
                keep_items.add(w)
                continue
            started = False
            if w == Tid:
                g = st.gh.get(('job', w))
                if g is None:
                    if not self.commit(st, p, n, cnt, last):
                        keep_items.add(w)
                        continue
                else:
                    if not (g.obj == p.obj and g.off is p.off and g.n is n and g.cnt is cnt and g.last is last) or not self.ghost_words(st, g):
                        keep_items.add(w)
                        continue
                    started = g.started
            # canonical record
            bb = x.B.bit_length() - 1
            if nz is False:
                n2 = Z
            elif lz:
                n2 = t.cat(t.fresh('len', 64 - bb), t.C(0, bb))
            else:
                n2 = t.fresh('len', 64)
            fc = [t.ult(n2, t.C(1 << 62, 64))] if n2 is not Z else []
            if nz:
                fc.append(t.ne(n2, Z))
            c2 = t.cat(t.fresh('cnt', x.CW - bb), t.C(0, bb))
            io = ctx.new_obj(st, 'rest', n2, 1, Base(Array('rest%d' % t._next[0]).at), ro=True, tag='anonin')
            l2 = last
            if w == Tid:
                w2 = [t.fresh('w', x.W) for _ in range(8)]
                words = w2
                if started and nz is False:
                    words = self.Tv
                elif started and nz is None:
                    e = t.eq(n2, Z)
                    words = [t.ite(e, v, q) for v, q in zip(self.Tv, w2)]
                self.write_T(st, words)
                l2 = enc(x, 'last_node', t.V('tracked.last', 1))
                st.gh[('job', w)] = JobGhost(self.Tv, io, Z, n2, c2, l2, words, self.fin, self.S, started)
                nm = ('T', started, nz, bool(lz))
                wobj, woff = w, f[4].off
                keep_items.add(w)
            else:
                l2 = enc(x, 'last_node', t.fresh('last', 1))
                wobj = ctx.new_obj(st, 'words', 8 * x.WB, x.WB, tag='anon')
                woff = Z
                self.items.add(wobj)
                keep_items.add(wobj)
                for i in range(8):
                    st.wobj(wobj).write_c(x.WB * i, x.WB, t.fresh('w', x.W), ctx)
                nm = ('anon', nz, bool(lz))
                st.gh.pop(('cur', w), None)
            if nz is None:
                maybe.append((n, n2, w, wobj, pl[0], False))
            st.gh[('cur', wobj)] = (Z, n2, c2, io)
            st.gh[('att', wobj)] = (io, n2, c2, l2, nz, lz, tuple(fc), nm, st.gh.get(('job', w)) if w == Tid else None)
            facts += fc
            for o, b in pl:
                ob = st.wobj(o)
                ob.cells[b + L['input']] = (8, Ptr(io, Z))
                ob.cells[b + L['input'] + 8] = (8, n2)
                ob.cells[b + L['count']] = (x.CW // 8, c2)
                ob.cells[b + L['last_node']] = (1, l2)
                ob.cells[b + L['words']] = (8, Ptr(wobj, woff))
                for d in (L['input'], L['input'] + 8, L['count'], L['last_node'], L['words']):
                    names[o, b + d] = ('rec', d, pl[0], nm)
        # one of these jobs has ended: as few of them as can be said
        some = ()
        old = st.gh.get('some', ())
        for pick in (lambda m: m[2] in old, lambda m: not m[5], lambda m: m[2] in old or not m[5], lambda m: True):
            c = [m for m in maybe if pick(m)]
            if c and ctx.valid(st, t.lor(*[t.eq(m[0], Z) for m in c])):
                some = tuple(c)
                break
        st.gh['some'] = frozenset(m[3] for m in some)
        if self.fin and not some:
            # whether an anonymous job has ended is left open (unless that decides something)
            for o, att in [(o, st.gh[o]) for o in st.gh if isinstance(o, tuple) and o[0] == 'att']:
                if att[7][0] == 'anon' and att[4] is True:
                    drop = set(c.id for c in att[6])
                    nm, fc = ('anon', None, att[5]), tuple(c for c in att[6] if c.op == 'ult')
                    st.gh[o] = att[:4] + (None, att[5], fc, nm, att[8])
                    relax[o[1]] = nm
                    facts[:] = [c for c in facts if c.id not in drop] + list(fc)
            for k, v in list(names.items()):
                ob = st.mem[k[0]].cells.get(k[1] - v[1] + L['words'])
                if ob is not None and isinstance(ob[1], Ptr) and ob[1].obj in relax:
                    names[k] = v[:3] + (relax[ob[1].obj],)
        if len(some) == 1 and some[0][5]:
            # the only one left that can have ended has: look at it again
            st.gh.pop(('att', some[0][3]))
            return self.canon(regs, st, where)
        if some:
            facts.append(t.lor(*[t.eq(m[1], Z) for m in some]))
        # the tracked item when no job refers to it
        T = st.gh.get('T')
        if T is not None and Tid not in groups and (Tid not in raw or self.changed(st, Tid)):
            if T == 'raw' and st.gh.get(('job', Tid)) is None:
                if self.cached(st, (), lambda: self.trial(st, lambda: self.check_T(st))):
                    st.gh['T'] = 'done'
                    self.fresh_T(st, self.Tv)
                    st.wobj(Tid).ro = True
            elif st.gh.get(('job', Tid)) is not None:
                if self.is_final(st):
                    st.gh['T'] = 'done'
                    st.gh.pop(('job', Tid))
                    st.gh.pop(('cur', Tid), None)
                    st.wobj(Tid).ro = True
        # an anonymous item that has been worked on and has no job is not looked at again (if it is, that is an error)
        for oid in raw:
            if oid in self.orig and oid != Tid and oid in st.mem and oid not in groups and self.changed(st, oid):
                o = st.wobj(oid)
                o.cells, o.below = {}, None
        # forget what nothing refers to
        refs = set()
        for oid, o in st.mem.items():
            if oid in self.items:
                continue
            for n, v in o.cells.values():
                if isinstance(v, Ptr):
                    refs.add(v.obj)
        if 'cells of kept items':
            for oid in keep_items:
                o = st.mem.get(oid)
                if o is not None:
                    for n, v in o.cells.values():
                        if isinstance(v, Ptr):
                            refs.add(v.obj)
        keep = refs | keep_items | {Tid, self.T['in'], self.first['p'].obj, self.first['in']}
        for oid in list(st.mem):
            o = st.mem[oid]
            if (oid in self.items or o.tag == 'anonin' or o.name.endswith('.input')) and oid not in keep:
                if oid in self.items and oid in raw:
                    continue
                del st.mem[oid]
                st.gh.pop(('cur', oid), None)
                st.gh.pop(('job', oid), None)
                st.gh.pop(('att', oid), None)
        it = st.gh.get('item')
        if it is not None and it['p'].obj not in st.mem:
            st.gh.pop('item')
        # what is known about items nothing has been concluded about yet stays known
        loose = {self.nm.get(o) for o in raw if o != Tid and o in self.orig and o in st.mem and not self.changed(st, o)}
        if T == 'raw' and st.gh.get('T') == 'raw' and ('job', Tid) not in st.gh:
            loose.add('tracked')
        kept = []
        for c in pc_list(st.pc, self.base):
            if loose and self.owners(c) <= loose and c not in facts:
                kept.append(c)
        st.pc = self.base
        for c in kept + facts:
            st.assume(c)
        st.gh['canon'] = frozenset(c.id for c in facts)
        st.gh['generic'] = True
        # key
        key = []
        if regs is not None:
            for r in sorted(regs):
                key.append((r, self.norm(regs[r])))
        for oid in sorted(st.mem):
            o = st.mem[oid]
            if o.tag == 'anonin' or (oid in self.items and oid in keep_items and oid != Tid and oid not in raw):
                continue
            if oid == Tid and ('job', Tid) in st.gh:
                continue
            cs = tuple((k, n, names.get((oid, k)) or self.norm(v)) for k, (n, v) in sorted(o.cells.items()))
            key.append((oid, id(o.below) if o.below is not None else 0, o.ro, cs))
        key.append((st.gh.get('pulls', 0), st.gh.get('pulled', ())))
        key.append((st.gh.get('T'), st.gh.get('over'), st.gh.get('first'), tuple(sorted(m[4] for m in some)), tuple(sorted(c.id for c in kept))))
        return tuple(key), st

    def untouched(self, st, att, f, w, new):
        """a canonical record nothing has happened to since"""
        p, n, cnt, last, wp = f
        if not (p.obj == att[0] and p.off is Z and n is att[1] and cnt is att[2] and last is att[3]):
            return False
        if not new.isdisjoint(self.x.ctx.sv.syms(n)):
            return False
        if w == self.T['p'].obj:
            g = st.gh.get(('job', w))
            return g is not None and g is att[8] and self.ghost_words(st, g)
        return True

    def owners(self, c):
        """the items whose variables c mentions"""
        r = self._own.get(c.id)
        if r is None:
            r = set()
            for n in t.topo([c]):
                if n.op == 'v':
                    r.add(n.a[0].split('.')[0] if '.' in n.a[0] else '?')
                elif n.op == 'rd':
                    r.add(n.a[0].name.split('.')[0])
                elif n.op == 'H':
                    r.add('?')
            self._own[c.id] = r
        return r

    def changed(self, st, oid):
        o = st.mem[oid]
        c, b = self.orig[oid]
        return o.below is not b or o.cells.keys() != c.keys() or any(v[1] is not c[k][1] and not (isinstance(v[1], Ptr) and isinstance(c[k][1], Ptr)) for k, v in o.cells.items())

    def sz(self, o):
        return o.size if isinstance(o.size, t.T) else t.C(o.size, 64)

    def norm(self, v):
        if v is UNDEF:
            return 'undef'
        if isinstance(v, t.T):
            return v.id
        if isinstance(v, Ptr):
            return ('p', v.obj, v.off.id)
        if isinstance(v, FnPtr):
            return v.name
        if isinstance(v, (tuple, list)):
            return tuple(self.norm(q) for q in v)
        return id(v)

    def kill(self, st, oid, b):
        L = self.x.lay['Job']
        o = st.wobj(oid)
        for d in (L['input'], L['input'] + 8, L['count'], L['last_node'], L['words']):
            o.cells[b + d] = (o.cells[b + d][0], UNDEF)

    def trial(self, st, fn):
        ctx = self.x.ctx
        n = len(ctx.obs)
        fn()
        if all(o.status == 'proved' for o in ctx.obs[n:]):
            return True
        del ctx.obs[n:]
        return False

    def commit(self, st, p, n, cnt, last):
        """the Job built for the tracked item is right: finishing it alone leaves what the specification says"""
        x, ctx = self.x, self.x.ctx
        io = st.mem[p.obj]
        if not self.cached(st, (p.obj, self.sig(io.below), p.off.id, n.id, cnt.id, last.id), lambda: self.commit_(st, p, n, cnt, last)):
            return False
        self.fresh_T(st, None)
        return True

    def cached(self, st, extra, fn):
        """the same question about the same tracked item under the same facts has the same answer"""
        o = st.mem[self.T['p'].obj]
        key = (extra, self.sig(o.below), tuple((k, n, self.norm(v)) for k, (n, v) in sorted(o.cells.items())),
               tuple(sorted(c.id for c in pc_list(st.pc, self.base) if self.owners(c) <= {'tracked'})))
        r = self._memo.get(key)
        if r is None:
            # only what is known about the item itself is used
            s = st.fork()
            s.pc = self.base
            for c in pc_list(st.pc, self.base):
                if self.owners(c) <= {'tracked'}:
                    s.assume(c)
            keep = st.pc
            st.pc = s.pc
            r = self._memo[key] = (fn(), o.below)
            st.pc = keep
            self.stats['trials'] = self.stats.get('trials', 0) + 1
        return r[0]

    def sig(self, nd):
        """structure of a memory layer"""
        if nd is None or isinstance(nd, (Base, Bytes)):
            return id(nd)
        if isinstance(nd, Cells):
            return ('cells', tuple((k, n, self.norm(v)) for k, (n, v) in sorted(nd.cells.items())), self.sig(nd.below))
        if isinstance(nd, Copy):
            return ('copy', nd.dst.id, nd.n.id, self.sig(nd.src), nd.so.id, self.sig(nd.below))
        if isinstance(nd, Fill):
            return ('fill', nd.dst.id, nd.n.id, self.norm(nd.val), self.sig(nd.below))
        return id(nd)

    def commit_(self, st, p, n, cnt, last):
        x, ctx = self.x, self.x.ctx
        s = st.fork()
        h = x.rd_words(s, Ptr(self.T['p'].obj, t.C(self.wo, 64)))
        if any(v is UNDEF for v in h):
            return False
        V = job_value(x, s, reader(ctx, s, p), n, h, cnt, self.fin, self.S, x.is_enc('last_node', last))
        if not self.fin and not ctx.valid(s, whole_blocks(x, n)):
            return False
        return self.trial(s, lambda: self.check_T(s, words=V))

    def fresh_T(self, st, words):
        """from here on only the words of the tracked item may change"""
        x = self.x
        Tid = self.T['p'].obj
        o = st.wobj(Tid)
        if self.frozen is None:
            self.frozen = Base(Array('tracked.final').at)
        o.cells = {}
        o.below = self.frozen
        if words is not None:
            self.write_T(st, words)

    def write_T(self, st, words):
        o = st.wobj(self.T['p'].obj)
        for i, w in enumerate(words):
            o.write_c(self.wo + i * self.x.WB, self.x.WB, w, self.x.ctx)

    def ghost_words(self, st, g):
        x = self.x
        o = st.mem[self.T['p'].obj]
        if o.below is not self.frozen or sorted(o.cells) != [self.wo + i * x.WB for i in range(8)]:
            return False
        return all(a is b for a, b in zip(x.rd_words(st, Ptr(self.T['p'].obj, t.C(self.wo, 64))), g.w))

    def is_final(self, st):
        """committed, and the words are the final ones, everything else as at the commit"""
        x, ctx = self.x, self.x.ctx
        Tid = self.T['p'].obj
        o = st.mem[Tid]
        if o.below is not self.frozen or sorted(o.cells) != [self.wo + i * x.WB for i in range(8)]:
            return False
        h = x.rd_words(st, Ptr(Tid, t.C(self.wo, 64)))
        for a, b in zip(h, self.Tv):
            if a is not b and (a is UNDEF or not ctx.valid(st, t.eq(a, b))):
                return False
        self.write_T(st, self.Tv)
        return True

    # ------------------------------------------------------------ the loop rule
    def __call__(self, ctx, act, h, regs, st, n_obs, n_rets, backs):
        body = act.info.loops[h]
        f = act.f
        inside = set()
        for b in body:
            for I_ in f.blocks[b].ins:
                if I_.dst:
                    inside.add(I_.dst)
            for p in f.blocks[b].phis:
                inside.add(p.dst)
        phis = {p.dst for p in f.blocks[h].phis}
        live = lambda rg: {r: v for r, v in rg.items() if r not in inside or r in phis}
        after = self.used_outside(f, body)
        del ctx.obs[n_obs:]
        del act.rets[n_rets:]
        seen, exits, xseen = set(), [], set()
        self.loops.add((f.name, h))
        # 'pulls': an item was taken since the head of this loop; 'pulled': the same for each enclosing loop
        st = st.fork()
        nested = self.depth > 0
        st.gh['pulled'] = st.gh.get('pulled', ()) + ((st.gh.get('pulls', 0),) if nested else ())
        st.gh['pulls'] = 0
        self.depth += 1
        k0, s0 = self.canon(live(regs), st)
        work = [(live(regs), s0, k0)]
        still = {}
        seen.add(k0)
        rets0 = act.rets[:n_rets]
        rseen, rets = set(), []
        while work:
            rg, s, kk = work.pop(0)
            if time.time() > ctx.deadline:
                raise Budget('scheduling states of %s' % short(f.pretty))
            m = self.memo_iter.get((f.name, h, kk))
            if m is None or self.mentioned(m):
                m = self.one(ctx, act, h, rg, s, nested, live, inside, after)
                self.memo_iter[f.name, h, kk] = m
                self.stats['states'] += 1
            else:
                self.stats['shared'] = self.stats.get('shared', 0) + 1
            for lr, k, c, pulls in m.backs:
                if not pulls:
                    still.setdefault(kk, set()).add(k)
                if k not in seen:
                    seen.add(k)
                    if self.log:
                        self.log(f, h, k)
                    work.append((dict(lr), c.fork(), k))
            for nb, pv, lr, k, c in m.exits:
                if (nb, k) not in xseen:
                    xseen.add((nb, k))
                    exits.append((nb, pv, dict(lr), c.fork()))
            for k, c, v in m.rets:
                if k not in rseen:
                    rseen.add(k)
                    rets.append((c.fork(), v))
        act.rets[:] = rets0 + rets
        self.depth -= 1
        ctx.obs.append(Ob('loop-invariant', '%s loop %s' % (short(f.pretty), h), 'proved', '%d abstract states' % len(seen), None, 'abstraction'))
        # every cycle of states takes at least one item from the caller's iterator
        if self.acyclic(still):
            ctx.obs.append(Ob('loop-terminates', '%s loop %s' % (short(f.pretty), h), 'proved', '', None, 'abstraction'))
        else:
            ctx.fail('loop-terminates', '%s loop %s' % (short(f.pretty), h), 'unknown', 'rounds that take no item may go on for ever')
        return exits

    def one(self, ctx, act, h, rg, s, nested, live, inside, after):
        """one iteration from a canonical head state"""
        m = Memo()
        m.lo, m.olo = t.fresh('mark', 1).id, _oid[0]
        act.rets[:] = []
        bk, ex = act.iteration(h, dict(rg), s.fork())
        for r2, s2 in bk:
            lr = live(r2)
            pulls = s2.gh.get('pulls', 0)
            s2.gh['pulls'] = 0
            if nested and pulls:
                s2.gh['pulled'] = s2.gh['pulled'][:-1] + (1,)
            k, c = self.canon(lr, s2)
            m.backs.append((lr, k, c, pulls))
        for nb, pv, r2, s2 in ex:
            lr = {r: v for r, v in r2.items() if r not in inside or r in after}
            self.leave(s2, nested)
            k, c = self.canon(lr, s2)
            m.exits.append((nb, pv, lr, k, c))
        for s2, v in act.rets:
            self.leave(s2, nested)
            k, c = self.canon({'ret': v} if v is not None else {}, s2)
            m.rets.append((k, c, v))
        m.hi, m.ohi = t.fresh('mark', 1).id, _oid[0]
        return m

    def mentioned(self, m):
        """does a caller hold anything that was made in that iteration?  (its names would then mean two things)"""
        for rg in self.x.ctx.frames:
            for v in rg.values():
                if self.from_(v, m):
                    return True
        return False

    def from_(self, v, m):
        if isinstance(v, t.T):
            if v.op == 'c':
                return False
            r = self._made.get(v.id)
            if r is None:
                r = self._made[v.id] = tuple(sorted({n.a[0].uid if n.op == 'rd' else n.id for n in t.topo([v]) if n.op in ('v', 'rd', 'H')}))
            return any(m.lo <= i <= m.hi for i in r)
        if isinstance(v, Ptr):
            return m.olo < v.obj <= m.ohi or self.from_(v.off, m)
        if isinstance(v, PIte):
            return self.from_(v.c, m) or self.from_(v.p, m) or self.from_(v.q, m)
        if isinstance(v, (tuple, list)):
            return any(self.from_(q, m) for q in v)
        return False

    def direct(self, act, h):
        return (act.f.name, h) in self.loops

    def leave(self, st, nested):
        if nested:
            st.gh['pulls'] = st.gh.get('pulls', 0) | st.gh['pulled'][-1]
            st.gh['pulled'] = st.gh['pulled'][:-1]

    def show(self, v):
        return t.show(v, 3)[:100] if isinstance(v, t.T) else v

    def used_outside(self, f, body):
        u = f.__dict__.get('_used') if hasattr(f, '__dict__') else None
        key = (f.name, min(body))
        cache = self.__dict__.setdefault('_uo', {})
        r = cache.get(key)
        if r is None:
            import re as _re
            r = set()
            for b in f.order:
                if b.name in body:
                    continue
                for I_ in list(b.ins) + [b.term]:
                    self.names(I_.a, r)
                for p in b.phis:
                    self.names(p.a, r)
            cache[key] = r
        return r

    def names(self, a, out):
        if isinstance(a, str):
            out.add(a)
        elif isinstance(a, (list, tuple)):
            for q in a:
                self.names(q, out)

    def acyclic(self, edges):
        state = {}
        for r in list(edges):
            if state.get(r):
                continue
            stack = [(r, iter(edges.get(r, ())))]
            state[r] = 1
            while stack:
                v, it = stack[-1]
                for w in it:
                    if state.get(w) == 1:
                        return False
                    if not state.get(w):
                        state[w] = 1
                        stack.append((w, iter(edges.get(w, ()))))
                        break
                else:
                    state[v] = 2
                    stack.pop()
        return True


def prove_many(x, kind, impname):
    """update_many / hash_many when the first item's implementation is `impname`"""
    ctx = x.ctx
    b = Batch(x, kind, x.imp[impname])
    b.env()
    kernels_contract(x)
    job_ghosts(x)
    ctx.loop_strategy = b
    ctx.max_visits = 100000
    try:
        rets = ctx.run_fn(x.drv('drive_%s_many' % kind), [], b.st.fork())
    finally:
        ctx.loop_strategy = None
    if not rets:
        ctx.fail('returns', kind + '_many', 'refuted', 'never returns')
    for s, _ in rets:
        T = s.gh.get('T')
        if not s.gh.get('over'):
            ctx.fail(kind + '-many-post', kind + '_many', 'refuted', 'returns without having taken every item')
        if T is None or T == 'done':
            continue
        if s.gh.get(('job', b.T['p'].obj)) is not None:
            if b.is_final(s):
                ctx.proved(kind + '-many-post', kind + '_many', 'ghost')
            else:
                g = s.gh.get(('job', b.T['p'].obj))
                o = s.mem[b.T['p'].obj]
                ctx.fail(kind + '-many-post', kind + '_many', 'unknown', 'the tracked job was not finished %r %r %r' % (b.show(g.n), g.started, o.below is b.frozen))
            continue
        if b.cached(s, (), lambda: b.trial(s, lambda: b.check_T(s))):
            ctx.proved(kind + '-many-post', kind + '_many', 'evaluation')
        else:
            b.check_T(s)
    return b
