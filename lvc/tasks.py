"""The tasks (one function under contract each) and which property each belongs to."""
import os
import time
import traceback
import resource
from . import term as t
from .b2 import *
from .lemmas import *
from .api import *
from .hashes import *
from .many import *
from .batch import prove_many
from .tree import *
from .debug import prove_debug, prove_debug_hash

PLATS = ('portable', 'sse41', 'avx2')
# obligations every memory access, arithmetic check and call gives rise to; they decide C12
SAFETY = {'in-bounds', 'aligned', 'initialised', 'valid-pointer', 'alive', 'read-only', 'unreachable', 'ub', 'loop-terminates'}
PANIC = {'no-panic', 'overflow', 'returns'}


class Task:
    def __init__(self, name, v, fn, props, stage=2, cfg='std', budget=300, cost=1, deps=(), deep=''):
        self.name, self.v, self.fn, self.props, self.stage, self.cfg, self.budget, self.cost = name, v, fn, props.split(), stage, cfg, budget, cost
        # checks that include the task in their thorough tier only
        self.deep = deep.split()
        # contracts the proof uses that other tasks of the same run establish: it counts only if they do
        self.deps = tuple('%s:%s' % (v, d) for d in deps)


def lemma_block(x):
    rs = install_block(x)
    x.block_ok = [f.pretty for f, r, _ in rs if r]
    for f, r, obs in rs:
        x.ctx.obs.extend(obs)
    if not rs:
        raise Lost('no block function')


def lemma_compress1(plat, par):
    def go(x):
        for fin in (1, 0):
            prove_compress1(x, plat, par, fin)
    return go


REACH = {'b': {'portable': (), 'sse41': (2,), 'avx2': (2, 4)}, 's': {'portable': (), 'sse41': (4,), 'avx2': (4, 8)}}


def kernel_name(N, plat, par, fin):
    return 'compress%d:%s:%s:%s' % (N, plat, 'parallel' if par else 'serial', 'finalize' if fin else 'blocks')


def many_registry(T):
    for v in 'bs':
        for plat in PLATS:
            for N in REACH[v][plat]:
                for par in (0, 1):
                    for fin in (1, 0):
                        props = 'C10 C11 C12' if par else 'C08 C11 C12' if fin else 'C09 C11 C12'
                        T.append(Task('%s:%s' % (v, kernel_name(N, plat, par, fin)), v,
                                      lambda x, a=(plat, N, par, fin): prove_compressN(x, *a), props, stage=2, budget=600,
                                      cost=NCOST[N, v] + (1 if fin else 0)))
        for par in (0, 1):
            for fin in (1, 0):
                T.append(Task('%s:progress:%s:%s' % (v, 'parallel' if par else 'serial', 'finalize' if fin else 'blocks'), v,
                              lambda x, a=(par, fin): prove_progress(x, *a), 'C10 C11 C12' if par else 'C08' if fin else 'C09', stage=2, cost=8))
        for kind, prop0 in (('hash', 'C08 C12'), ('update', 'C09 C12')):
            fin = kind == 'hash'
            for plat in PLATS:
                prop = prop0 + (' C07' if fin and (v, plat) != ('s', 'avx2') else '')
                deps = [kernel_name(N, plat, 0, fin) for N in REACH[v][plat]]
                if deps:
                    deps.append('progress:serial:' + ('finalize' if fin else 'blocks'))
                T.append(Task('%s:%s_many:%s' % (v, kind, plat), v, lambda x, a=(kind, plat): prove_many(x, *a), prop, stage=2, budget=700,
                              cost=BCOST[v, kind, plat], deps=deps))
        for keyed in (False, True):
            T.append(Task('%s:HashManyJob::new%s' % (v, ' keyed' if keyed else ''), v, lambda x, k=keyed: prove_mjob_new(x, k), 'C08 C02 C06 C07 C12'))
        T.append(Task('%s:HashManyJob::to_hash' % v, v, prove_mjob_to_hash, 'C08 C12'))
        T.append(Task('%s:HashManyJob::clone' % v, v, prove_mjob_clone, 'C08 C12'))


def tree_registry(T):
    def add(name, fn, props, **k):
        for v in k.pop('vs', 'bs'):
            T.append(Task('%s:tree %s' % (v, name), v, fn, props, stage=2, **k))
    add('set:hash_length', lambda x: prove_t_setter(x, 'hash_length'), 'C02 C12 C17')
    add('set:key', lambda x: prove_t_setter(x, 'key'), 'C02 C06 C12 C17')
    for w in ('new', 'default', 'clone'):
        add('Params::' + w, lambda x, w=w: prove_t_params(x, w), 'C02 C10 C12 C17' + (' C11' if w != 'clone' else ''))
    for w in ('to_state', 'new', 'default'):
        add('State::' + w, lambda x, w=w: prove_t_to_state(x, w), 'C02 C03 C05 C06 C10 C12' + (' C11' if w != 'to_state' else ''), cost=5)
    add('State::count', prove_t_count, 'C05 C10 C12')
    add('State::clone', prove_t_clone, 'C04 C05 C10 C12')
    add('State::flush', prove_t_flush, 'C16 C12')
    for v in 'bs':
        lv = ['tree leaves:' + p for p in PLATS]
        add('State::update', prove_t_update, 'C03 C04 C05 C10 C12', vs=v, cost=60, deps=lv)
        add('State::write', lambda x: prove_t_update(x, 'io::t_write'), 'C16 C12', vs=v, cost=60, deps=lv)
        fins, hashes = [], []
        for plat in PLATS:
            kd = [kernel_name(N, plat, 1, 0) for N in REACH[v][plat]]
            kf = [kernel_name(N, plat, 1, 1) for N in REACH[v][plat]]
            base = plat == 'portable'
            add('leaves:' + plat, lambda x, p=plat: prove_leaves(x, p), 'C03 C04 C05 C10 C11 C12 C16' if base else 'C10 C11 C12', vs=v,
                cost=5 if (v, plat) != ('s', 'avx2') else 50, deps=kd + (['progress:parallel:blocks'] if kd else []))
            m = TPARTS.get((v, plat), (1, 1))
            more, deep = 'C10 C11 C12', ''
            if v == 's' and not base:
                more, deep = ('C10 C12', 'C11') if plat == 'avx2' else ('C10', 'C11 C12')
            for k in range(m[0]):
                nm = 'State::finalize:%s%s' % (plat, ':%d/%d' % (k + 1, m[0]) if m[0] > 1 else '')
                fins.append('tree ' + nm)
                add(nm, lambda x, p=plat, k=k, m=m[0]: prove_t_finalize(x, p, (k, m)), 'C03 C04 C06 C07 C10 C11 C12' if base else more, vs=v,
                    cost=10 if v == 'b' or base else 50, deps=kf + ['progress:parallel:finalize'] if kf else [], deep=deep)
            for k in range(m[1]):
                nm = 'Params::hash:%s%s' % (plat, ':%d/%d' % (k + 1, m[1]) if m[1] > 1 else '')
                hashes.append('tree ' + nm)
                add(nm, lambda x, p=plat, k=k, m=m[1]: prove_t_hash(x, p, (k, m)), 'C02 C03 C07 C10 C11 C12' if base else more, vs=v,
                    cost=20 if v == 'b' or base else 60, deps=kf + ['progress:parallel:finalize'] if kf else [], deep=deep)
        add('Params::hash keyed', prove_t_hash_keyed, 'C03 C06 C10 C12', vs=v, deps=['tree State::to_state', 'tree State::update'] + fins)
        add('one-shot function', prove_t_oneshot, 'C03 C10 C12', vs=v, deps=hashes)


# the proofs for the 8 leaves of BLAKE2sp are split by how much input there is
TPARTS = {('s', 'sse41'): (6, 3), ('s', 'avx2'): (9, 5)}

NCOST = {(2, 'b'): 15, (4, 'b'): 60, (4, 's'): 40, (8, 's'): 150}
BCOST = {}
for _v in 'bs':
    BCOST.update({(_v, 'hash', 'portable'): 3, (_v, 'hash', 'sse41'): 6, (_v, 'hash', 'avx2'): 20,
                  (_v, 'update', 'portable'): 20, (_v, 'update', 'sse41'): 25, (_v, 'update', 'avx2'): 60})
BCOST.update({('s', 'hash', 'avx2'): 150, ('s', 'update', 'avx2'): 170})


def registry():
    T = []

    def add(name, fn, props, **k):
        for v in 'bs':
            T.append(Task('%s:%s' % (v, name), v, fn, props, **k))
    KER = 'C01 C03 C06 C07 C10 C11 C12'
    add('block', lemma_block, KER + ' C08 C09', stage=0)
    for plat in PLATS:
        for par in (0, 1):
            add('compress1:%s:%s' % (plat, 'parallel' if par else 'serial'), lemma_compress1(plat, par),
                'C01 C07 C10 C11 C12 C03 C06 C08' if not par else 'C10 C11 C12', stage=1, cost=6)
    for s in SETTERS:
        p = 'C02 C12 C17'
        if s == 'key':
            p += ' C06'
        if s == 'last_node':
            p += ' C07'
        add('set:' + s, lambda x, s=s: prove_setter(x, s), p)
    for w in ('new', 'default'):
        add('Params::' + w, lambda x, w=w: prove_params_new(x, w), 'C02 C11 C12 C17')
        add('State::' + w, lambda x, w=w: prove_to_state(x, w), 'C02 C03 C05 C11 C12')
    add('Params::to_state', lambda x: prove_to_state(x, 'to_state'), 'C01 C02 C03 C05 C06 C07 C12 C17')
    add('Params::clone', prove_params_clone, 'C02 C12')
    add('Params::hash', lambda x: prove_hash(x, 'params_hash', False), 'C01 C02 C03 C06 C07 C12')
    add('Params::hash keyed', lambda x: prove_hash(x, 'params_hash', True), 'C01 C02 C03 C06 C07 C12', cost=5)
    add('one-shot function', lambda x: prove_hash(x, 'oneshot', False), 'C01 C03 C12')
    add('State::update', prove_update, 'C01 C03 C04 C05 C12 C16', cost=15)
    add('State::finalize', prove_finalize, 'C01 C03 C04 C05 C06 C07 C12')
    add('State::count', prove_count, 'C05 C12')
    add('State::set_last_node', prove_set_last_node, 'C04 C05 C07 C12')
    add('State::clone', prove_state_clone, 'C04 C05 C12')
    add('State::write', lambda x: prove_update(x, 'io::write'), 'C16 C12', cost=14)
    add('State::flush', lambda x: prove_flush(x, 'State'), 'C16 C12')
    for w in ('as_bytes', 'as_ref', 'as_array'):
        add('Hash::' + w, lambda x, w=w: prove_view(x, w), 'C14 C12')
    for w in ('from', 'from_ref', 'clone'):
        add('Hash::' + w, lambda x, w=w: prove_from(x, w), 'C14 C12')
    for w in ('eq', 'ne', 'eq_slice'):
        add('Hash::' + w, lambda x, w=w: prove_eq(x, w), 'C13 C12', cost=8)
    add('Hash::to_hex', prove_hex, 'C14 C12', cost=17)
    for w in ('Params', 'State', 'HashManyJob', 'Job', 'tree Params', 'tree State'):
        add('Debug for ' + w, lambda x, w=w: prove_debug(x, w), 'C15')
    add('Debug for Hash', prove_debug_hash, 'C15', cost=4)
    many_registry(T)
    tree_registry(T)
    return T


def run_task(task, mods, lemmas, seed=1):
    """-> dict describing every obligation (picklable)"""
    t0 = time.time()
    out = dict(name=task.name, stage=task.stage, cfg=task.cfg, error=None, obs=[], proved=[], contracts={}, functions=[])
    x = None
    try:
        x = B2(mods, task.v, budget_s=task.budget)
        if task.stage > 0:
            block_contract(x, [f for f in block_functions(x) if f.pretty in lemmas.get('block:' + task.v, ())])
        if task.stage > 1 and lemmas.get('compress1:' + task.v):
            compress1_contract(x)
        if task.stage > 2:
            for inst in lemmas.get('later:' + task.v, ()):
                LATER[inst](x)
        try:
            task.fn(x)
        except NeedFork as e:
            out['error'] = 'undecided selector in a contract: %s' % t.show(e.c, 3)[:200]
        if task.stage == 0:
            out['proved'] = x.block_ok
    except (Unsupported, Budget, MemError, Lost) as e:
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
    except MemoryError:
        out['error'] = 'MemoryError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out['error'] = 'internal: %s %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
    if x is not None:
        for o in x.ctx.obs:
            out['obs'].append(dict(kind=o.kind, where=o.where, status=o.status, detail=o.detail[:400], by=o.by, dt=round(o.dt, 4), gen=o.gen,
                                   env=concrete(o.env) if o.env is not None and o.status == 'refuted' else None))
        out['contracts'] = dict(x.ctx.used_contracts)
        out['functions'] = sorted({x.ctx.find(n).pretty or n for n in x.ctx.funcs_run if x.ctx.find(n)})
        out['solver'] = dict(queries=x.sv.stats.queries, time=round(x.sv.stats.time, 3), unknown=x.sv.stats.unknown)
    out['wall'] = round(time.time() - t0, 3)
    return out


def concrete(env):
    """the variables of a counterexample, as far as they were needed"""
    d = {}
    for k, v in list(env.vals.items())[:400]:
        if isinstance(k, str):
            d[k] = v
    return d


LATER = {}
