"""The real crates run against the specification on generated inputs: reproduces what the verifier refutes, and stands in, bounded, for
obligations that are open. Nothing that is found here counts as proved."""
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, 'build')
SUITES = dict(C01=['digest'], C02=['parameters'], C03=['incremental'], C04=['finalizing'], C05=['counting'], C06=['keys'], C07=['last_node'],
              C08=['hashing_many'], C09=['updating_many'], C10=['trees'], C11=['implementations', 'kernels'], C12=['safety', 'kernels'],
              C13=['equality'], C14=['views'], C15=['debugging'], C16=['writing'], C17=['ranges'], C18=['cli'])
# name -> (cargo arguments, profile directory)
CONFIGS = dict(checked=(['--release'], 'release'), plain=(['--profile', 'plain'], 'plain'),
               no_std=(['--release', '--no-default-features'], 'release'), uninline=(['--release', '--features', 'uninline_portable'], 'release'))


def env(hooks=True):
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    if hooks:
        e['RUSTFLAGS'] = '--cfg blake2_verify'
    return e


def build(cfg):
    """-> (path of the program or None, hooked?, output)"""
    args, prof = CONFIGS[cfg]
    out = ''
    for hooks in (True, False):
        e = env(hooks)
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'native-' + cfg)
        p = os.path.join(e['CARGO_TARGET_DIR'], prof, 'native')
        if os.path.exists(p):
            os.unlink(p)
        r = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(ROOT, 'native', 'Cargo.toml')] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        if r.returncode == 0 and os.path.exists(p):
            return p, hooks, ''
        out = r.stdout[-1500:]
    return None, False, out


def build_cli():
    e = env(False)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'cli')
    p = os.path.join(e['CARGO_TARGET_DIR'], 'debug', 'blake2')
    if os.path.exists(p):
        os.unlink(p)
    r = subprocess.run(['cargo', 'build', '--offline'], cwd='/repo/blake2_bin', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    if r.returncode:
        return None, r.stdout[-1500:]
    shim = os.path.join(BUILD, 'shim.so')
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', shim, os.path.join(ROOT, 'native', 'shim.c'), '-ldl'], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-1500:]
    return p, ''


def configs(pid):
    if pid == 'C18':
        return ['checked']
    if pid in ('C11', 'C12'):
        return list(CONFIGS)
    return ['checked', 'plain']


class Native:
    def __init__(self, pid, seed):
        self.pid, self.seed = pid, seed
        self.err = {}
        self.bin = {}
        self.cases = 0
        self.runs = []
        os.makedirs(BUILD, exist_ok=True)
        with ThreadPoolExecutor(4) as ex:
            cf = ex.submit(build_cli) if pid == 'C18' else None
            for c, (p, hooks, out) in zip(configs(pid), ex.map(build, configs(pid))):
                if p:
                    self.bin[c] = (p, hooks)
                else:
                    self.err[c] = out
            if cf:
                self.cli, out = cf.result()
                if not self.cli:
                    self.err['cli'] = out

    def oracle_ok(self):
        """the reference in native/ agrees with Python's hashlib"""
        if 'checked' not in self.bin:
            return False
        p = subprocess.Popen([self.bin['checked'][0], 'vectors'], stdout=subprocess.PIPE)
        r = subprocess.run(['/usr/bin/python3', os.path.join(ROOT, 'tools', 'vectors.py')], stdin=p.stdout, capture_output=True, text=True)
        p.wait()
        return r.returncode == 0

    def run(self, secs, jobs=8, generation=0, big=False):
        """run every suite of the property for about `secs` seconds in total wall time; -> list of (message, replay command)"""
        todo = []
        if self.pid == 'C18':
            if not self.cli or 'checked' not in self.bin:
                return []
            for k in range(jobs):
                first = k == 0 and generation == 0
                todo.append((['/usr/bin/python3', os.path.join(ROOT, 'native', 'cli.py'), self.cli, self.bin['checked'][0], os.path.join(BUILD, 'shim.so'),
                              'run'], 'cli', self.seed * 1000 + generation * 100 + k, 0 if first else 600))
        else:
            which = [(c, v + ':' + s) for c in self.bin for s in SUITES[self.pid] for v in 'bs']
            rep = max(1, jobs // len(which))
            for k in range(rep):
                for c, s in which:
                    first = k == 0 and generation == 0
                    todo.append(([self.bin[c][0], 'run', s], s, self.seed * 1000 + generation * 100 + k, 0 if first else 4096))
                    if big:
                        todo.append(([self.bin[c][0], 'run', s], s, self.seed * 1000 + generation * 100 + 50 + k, 4096, 'big'))
        rounds = -(-len(todo) // jobs)
        each = max(1.0, secs / rounds)
        fails = []

        def one(t):
            cmd, s, seed, start, *more = t
            if s == 'cli':
                full = cmd + [str(each), str(seed), '100000000', str(start)]
            else:
                full = cmd + [str(each), str(seed), '4000000000', str(start)] + more
            try:
                r = subprocess.run(full, capture_output=True, text=True, timeout=each + 120, errors='replace')
            except subprocess.TimeoutExpired:
                return full, s, 'FAIL does not come back in %s' % s, -1
            return full, s, r.stdout + (r.stderr[-300:] if r.returncode else ''), r.returncode
        with ThreadPoolExecutor(jobs) as ex:
            for full, s, out, rc in ex.map(one, todo):
                m = re.search(r'CASES (\d+)', out)
                if m:
                    self.cases += int(m.group(1))
                    self.runs.append(dict(cmd=' '.join(os.path.basename(a) for a in full[:3]) + ' ' + ' '.join(full[3:]), cases=int(m.group(1))))
                    continue
                m = re.search(r'FAIL (.*) in (\S+) (\d+)\s*$', out, re.S | re.M)
                if m:
                    if s == 'cli':
                        cmd = full[:5] + ['one', m.group(3)]
                    else:
                        cmd = [full[0], 'one', m.group(2), m.group(3)]
                    # it counts when it fails again
                    again = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
                    if again.returncode != 0:
                        fails.append((m.group(1)[:1500], cmd, (again.stdout + again.stderr)[-1500:]))
                elif rc != 0:
                    fails.append(('ends with status %s: %s' % (rc, out[-300:]), full, out[-1500:]))
        return fails
