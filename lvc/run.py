"""Scheduler: builds the IR, proves lemmas, then the tasks of one property, in parallel; decides and writes evidence."""
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import time
from multiprocessing.connection import wait
from . import tasks as tk
from .b2 import load_modules, B2, Lost
from .lemmas import block_functions

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, 'build')
CONFIGS = {
    'std': [],
    'no_std': ['--no-default-features'],
    'uninline': ['--features', 'uninline_portable'],
}


class BuildFailed(Exception):
    pass


def build(cfg):
    """emit IR of the crates as they are now; -> modules"""
    out = os.path.join(BUILD, 'ir-' + cfg)
    # stale IR files would be read as if current: always start from nothing
    shutil.rmtree(out, ignore_errors=True)
    r = subprocess.run([os.path.join(ROOT, 'build_ir.sh'), out] + CONFIGS[cfg], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildFailed(r.stdout[-2000:])
    return load_modules(out)


def _child(conn, task, mods, lemmas, seed):
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(20000)
    try:
        conn.send(tk.run_task(task, mods, lemmas, seed))
    except BaseException as e:
        try:
            conn.send(dict(name=task.name, stage=task.stage, cfg=task.cfg, error='internal: %r' % e, obs=[], proved=[], contracts={}, functions=[], wall=0))
        except BaseException:
            pass
    conn.close()
    os._exit(0)


def run_parallel(tasks, mods, lemmas, jobs=8, seed=1, deadline=None, stop=None):
    """mods: {cfg: modules}; -> {task name: result}; stop(T, r): nothing after r can change the verdict"""
    ctx = mp.get_context('fork')
    todo = sorted(tasks, key=lambda t: -t.cost)
    live = {}
    res = {}
    small = {}
    short = 0
    over = None
    while todo or live:
        while todo and len(live) < jobs:
            # mostly the long ones first; two workers take the short ones
            T = todo.pop(-1 if short < 2 else 0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, T, mods[T.cfg], lemmas[T.cfg], seed))
            p.start()
            b.close()
            live[a] = (p, T, time.time())
            small[a] = short < 2
            short += short < 2
        for c in wait(list(live), timeout=0.5):
            p, T, t0 = live.pop(c)
            short -= small[c]
            try:
                r = c.recv()
            except EOFError:
                r = dict(name=T.name, stage=T.stage, cfg=T.cfg, error='worker ended without an answer', obs=[], proved=[], contracts={}, functions=[],
                         wall=time.time() - t0)
            res[key(T)] = r
            p.join()
            if stop and over is None and stop(T, r, res):
                over = 'stopped: the verdict stands'
        now = time.time()
        for c, (p, T, t0) in list(live.items()):
            if over or now - t0 > T.budget + 20 or (deadline and now > deadline):
                p.kill()
                p.join()
                live.pop(c)
                short -= small[c]
                res[key(T)] = dict(name=T.name, stage=T.stage, cfg=T.cfg, error=over or 'time budget', obs=[], proved=[], contracts={}, functions=[], wall=now - t0)
        if over or deadline and now > deadline:
            for T in todo:
                res[key(T)] = dict(name=T.name, stage=T.stage, cfg=T.cfg, error=over or 'time budget (not started)', obs=[], proved=[], contracts={},
                                   functions=[], wall=0)
            todo = []
    return res


def key(T):
    return T.cfg + '/' + T.name


def all_proved(r):
    return r['error'] is None and r['obs'] and all(o['status'] == 'proved' for o in r['obs'])


def plan(pid, tier='quick'):
    """-> (tasks of the check, the contracts it takes from another check: {task name: that check})"""
    full = tk.registry()
    by = {T.name: T for T in full if T.cfg == 'std'}
    mine = lambda T: pid in T.props or (tier == 'thorough' and pid in T.deep)
    reg = [T for T in full if mine(T) or T.stage < 2]
    have = {T.name for T in reg}
    other = {}
    work = [d for T in reg for d in T.deps]
    while work:
        d = work.pop()
        if d in have or d in other:
            continue
        T = by[d]
        # the same contract on a vector unit: C08, C09, C10 prove every one of them, the quick tier does not repeat that here
        if tier == 'quick' and (':sse41' in d or ':avx2' in d or 'progress:' in d):
            home = [p for p in ('C10', 'C08', 'C09') if p in T.props and p != pid]
            if home:
                other[d] = home[0]
                continue
        have.add(d)
        reg.append(T)
        work += T.deps
    return reg, other


def run_property(pid, jobs=8, seed=1, limit=600, tier='quick', refuted=lambda T, o: False):
    """-> dict(results, lemmas, build errors)"""
    t0 = time.time()
    reg, other = plan(pid, tier)
    cfgs = sorted({T.cfg for T in reg if pid in T.props} | {'std'})
    mods, errs = {}, {}
    for c in cfgs:
        try:
            mods[c] = build(c)
        except (BuildFailed, Lost) as e:
            errs[c] = str(e)
    reg = [T for T in reg if T.cfg in mods]
    lemmas = {c: {} for c in mods}
    res = {}
    deadline = t0 + limit
    halt = []

    def stop(T, r, cur):
        """an obligation that no contract still to be proved can take back is refuted"""
        if any(refuted(T, o) for o in r['obs']):
            need = [d for d in T.deps if d not in other]
            if all(T.cfg + '/' + d in cur and all_proved(cur[T.cfg + '/' + d]) for d in need):
                halt.append(T.name)
                return True
    for stage in sorted({T.stage for T in reg}):
        cur = [T for T in reg if T.stage == stage]
        if halt:
            for T in cur:
                res[key(T)] = dict(name=T.name, stage=T.stage, cfg=T.cfg, error='stopped: the verdict stands', obs=[], proved=[], contracts={},
                                   functions=[], wall=0)
            continue
        r = run_parallel(cur, mods, lemmas, jobs, seed, deadline, stop)
        res.update(r)
        if stage == 0:
            for T in cur:
                lemmas[T.cfg]['block:' + T.v] = r[key(T)]['proved']
        if stage == 1:
            for c in mods:
                for v in 'bs':
                    rs = [r[key(T)] for T in cur if T.v == v and T.cfg == c and 'compress1' in T.name]
                    lemmas[c]['compress1:' + v] = bool(rs) and all(all_proved(q) for q in rs)
    good = {key(T): all_proved(res[key(T)]) for T in reg if key(T) in res}
    more = True
    while more:
        more = False
        for T in reg:
            bad = [d for d in T.deps if d not in other and not good.get(T.cfg + '/' + d)]
            r = res.get(key(T))
            if bad and r is not None and 'deps' not in r:
                r['deps'] = bad
                # what was derived from a contract that does not hold means nothing
                r['obs'] = []
                r['error'] = 'rests on a contract that is not proved: ' + ', '.join(bad)
                good[key(T)] = False
                more = True
    return dict(results=res, lemmas=lemmas, build_errors=errs, tasks=reg, other=other, wall=time.time() - t0)
