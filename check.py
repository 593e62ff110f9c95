#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's current tree"""
import json
import os
import re
import sys
import time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lvc import run as rn
from lvc import tasks as tk
from lvc import native

HERE = os.path.dirname(os.path.abspath(__file__))
TRUSTED = [
    'rustc front end and MIR->LLVM IR lowering up to the emitted IR; LLVM passes and code generation after it',
    'lvc: IR parser, symbolic executor, memory model, rewriting (this framework) and z3',
    'slices are shorter than 2^62 bytes; allocations do not wrap the address space',
    'provenance/aliasing model (stacked borrows) is not modelled; every access is bounds-, alignment- and initialisation-checked',
]
# what is not under contract yet, and covered by the bounded runs only
PARTIAL = json.load(open(os.path.join(HERE, 'lvc', 'partial.json')))
LEVEL = {p: 'other' for p, d in PARTIAL.items() if d.get('main')}


class NoTask:
    def __init__(self, cfg):
        self.name, self.cfg = 'driver', cfg


def counts(pid, T):
    return T.stage >= 2 or pid in T.props


def is_refuted(pid, T, o):
    # memory safety is decided by C12; elsewhere the functional statement is conditional on it
    return counts(pid, T) and o['status'] == 'refuted' and not o['gen'] and (pid == 'C12' or o['kind'] not in tk.SAFETY)


def decide(pid, out):
    """split the obligations of this property: proved / refuted / open"""
    pr, bad, open_ = [], [], []
    for T in out['tasks']:
        if not counts(pid, T):
            continue
        r = out['results'].get(rn.key(T))
        if r is None:
            continue
        if r['error']:
            open_.append((T, dict(kind='engine', where=T.name, detail=r['error'], status='unknown')))
        elif not r['obs']:
            open_.append((T, dict(kind='vacuous', where=T.name, detail='no obligation was generated', status='unknown')))
        for o in r['obs']:
            if o['status'] == 'proved':
                pr.append((T, o))
            elif (o['kind'] in tk.SAFETY) and pid != 'C12':
                # memory safety is decided by C12; here the functional statement is conditional on it
                open_.append((T, o))
            elif is_refuted(pid, T, o):
                bad.append((T, o))
            else:
                open_.append((T, o))
    return pr, bad, open_


def known(pid):
    """committed findings: `finding: property=<id> match=<text in the message> what fails` (fixed ones suppress nothing)"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        m = re.match(r'finding: property=(\S+) match=\{(.*?)\} (.*)', l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    with ThreadPoolExecutor(1) as ex:
        nf = ex.submit(native.Native, pid, seed)
        out = rn.run_property(pid, seed=seed, limit=560 if tier == 'quick' else 3000, tier=tier,
                              refuted=lambda T, o: is_refuted(pid, T, o))
        nat = nf.result()
    t_proof = time.time() - t0
    pr, bad, open_ = decide(pid, out)
    own = [T for T in out['tasks'] if pid in T.props]
    for c, e in out['build_errors'].items():
        open_.append((NoTask(c), dict(kind='build', where='driver', detail='the driver does not build (%s): %s' % (c, e[-300:]), status='unknown')))
    oracle = nat.oracle_ok()
    # what the verifier could not settle is searched longer: a failing input confirms a refutation; without one an open
    # obligation is covered, bounded, by this search
    secs = dict(quick=(8, 45, 90), thorough=(120, 300, 600))[tier][2 if bad else 1 if open_ or pid in PARTIAL else 0]
    found = nat.run(secs, big=bool(bad or open_) or tier == 'thorough') if oracle else []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, pid + '.json')
    listed = known(pid)
    fresh = []
    for msg, cmd, txt in found:
        hit = [w for k, w in listed if k in msg]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
        else:
            fresh.append(dict(what=msg, replay=' '.join(cmd), output=txt))
    if fresh or bad:
        json.dump(dict(property=pid, failing_inputs=fresh, failed_obligations=[dict(task=T.name, cfg=T.cfg, **o) for T, o in bad]),
                  open(path, 'w'), indent=1, default=str)
    elif os.path.exists(path):
        os.unlink(path)
    fns = sorted({f for r in out['results'].values() for f in r['functions']})
    used = {}
    for r in out['results'].values():
        for k, n in r['contracts'].items():
            used[k] = used.get(k, 0) + n
    kinds, by = {}, {}
    for T, o in pr:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        by[o['by'] or 'rewriting'] = by.get(o['by'] or 'rewriting', 0) + 1
    solver = dict(queries=sum(r.get('solver', {}).get('queries', 0) for r in out['results'].values()),
                  seconds=round(sum(r.get('solver', {}).get('time', 0) for r in out['results'].values()), 2))
    total = len(pr) + len(bad) + len(open_)
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, 'proof'),
              coverage=dict(obligations=total, discharged=len(pr), checker_cmd='./check.py %s' % pid, trusted_base=TRUSTED,
                            by_back_end=by, by_kind=kinds, solver=solver,
                            tasks=[dict(task=T.name, cfg=T.cfg, obligations=len(out['results'][rn.key(T)]['obs']), error=out['results'][rn.key(T)]['error'],
                                        wall=out['results'][rn.key(T)]['wall']) for T in out['tasks']],
                            contracts_used=used, contracts_proved_by_another_check=out['other'], functions_executed=fns,
                            open=[dict(task=T.name, cfg=T.cfg, kind=o['kind'], where=o['where'], detail=o['detail'][:200]) for T, o in open_][:60],
                            bounded=dict(label='bounded, not proved: the real crates run on generated inputs against an independent reference',
                                         stands_in_for=PARTIAL[pid]['what'] if pid in PARTIAL else 'nothing' if not open_ else 'the open obligations of this run',
                                         evaluations=nat.cases, runs=nat.runs, reference_checked_against_hashlib=oracle, build_errors=nat.err),
                            evaluations=nat.cases, distinct_nontrivial=nat.cases,
                            rule='generated cases of the bounded runs, by case number; every case runs the code under test at least once on its own arguments',
                            samples=[r['cmd'] for r in nat.runs[:3]] or ['none'],
                            explanation='obligations proved for all inputs by the verifier, plus the bounded runs described under "bounded"',
                            build_errors=out['build_errors']),
              wall_s=round(time.time() - t0, 2), assumptions=TRUSTED, violations=len(bad) + len(fresh))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d refuted, %d open in %.1f s; %d bounded runs of the code, %d failed; %.1f s' % (
        pid, total, len(pr), len(bad), len(open_), t_proof, nat.cases, len(found), time.time() - t0))
    for T, o in (bad + open_)[:12]:
        print('  %s %s [%s] %s: %s' % (o['status'], T.name, T.cfg, o['kind'], (o['where'] + ' ' + o['detail'])[:200]))
    for e in nat.err.items():
        print('  native build: %s' % (str(e)[:300]))
    for f in fresh[:4]:
        print('  fails: %s' % f['what'][:300])
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    elif bad:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    sys.exit(1 if fresh or bad else 0)


if __name__ == '__main__':
    main()
