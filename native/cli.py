"""The command line tool, run with generated flags and files.
usage: cli.py BIN NATIVE SHIM run SECONDS SEED MAX | one CASE"""
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

BIN, NATIVE, SHIM = sys.argv[1:4]
MAX = dict(b=64, s=32, bp=64, sp=32)


def digests(reqs):
    r = subprocess.run([NATIVE, 'digests'], input='\n'.join('%s %s%s' % (k, f, ''.join(' %s=%s' % x for x in fl)) for k, f, fl in reqs) + '\n',
                       capture_output=True, text=True)
    return r.stdout.split()


def case(n, d):
    """-> None or what went wrong"""
    g = random.Random(n)
    kind = ['b', 's', 'bp', 'sp'][n % 4]
    out = MAX[kind]
    args, flags = [], []
    if kind[0] == 's':
        args.append('-s')
    elif g.random() < .5:
        args.append('-b')
    if kind[1:]:
        args.append('-p')
    hx = lambda k: bytes(g.randrange(256) for _ in range(k)).hex()

    def opt(name, val):
        flags.append((name, val))
        a = ['--%s=%s' % (name, val)] if (val == '' or g.random() < .5) else ['--' + name, str(val)]
        args.extend(a)
    if g.random() < .5:
        opt('length', g.choice([1, out, g.randrange(1, out + 1)]))
    if g.random() < .5:
        k = hx(g.choice([0, 1, out, g.randrange(out + 1)]))
        opt('key', k.upper() if g.random() < .3 else k)
    full = [('salt', hx(g.randrange(out // 4 + 1))), ('personal', hx(g.randrange(out // 4 + 1))), ('fanout', g.randrange(256)),
            ('max-depth', g.randrange(256)), ('max-leaf-length', g.randrange(1 << 32)),
            ('node-offset', g.choice([0, g.randrange(1 << 48), (1 << 48) - 1, (1 << 64) - 1 if kind == 'b' else 5])),
            ('node-depth', g.randrange(256)), ('inner-hash-length', g.randrange(out + 1)), ('last-node', 'true')]
    bad = None
    if not kind[1:]:
        every = n % 3 == 0
        for name, v in g.sample(full, len(full)):
            if every or g.random() < .4:
                if name == 'last-node':
                    flags.append((name, v))
                    args.append('--last-node')
                else:
                    opt(name, v)
    elif g.random() < .4:
        name, v = full[(n // 4) % len(full)]
        bad = '--%s does not apply' % name
        args.extend(['--last-node'] if name == 'last-node' else ['--%s=%s' % (name, v)])
    if bad is None and g.random() < .1:
        bad = 'out of range or contradictory'
        args.extend(g.choice([['--length=%d' % (out + 1)] if not any(a[0] == 'length' for a in flags) else ['-b', '-s'] if '-b' not in args and '-s' not in args else ['--nonsense'],
                              ['--nonsense'], (['-b'] if '-b' not in args and '-s' in args else ['-s'] if '-s' not in args and '-b' in args else ['--fanout=256'])]))
    files, want_fail = [], False
    sizes = [0, 1, 127, 128, 129, 32767, 32768, 32769, 65536, 100000, 300000]
    nfile = g.choice([0, 1, 1, 2, 3])
    mm = g.random() < .35
    exp = []
    for i in range(max(nfile, 1)):
        p = os.path.join(d, 'f%d_%d' % (n, i))
        size = g.choice(sizes) if g.random() < .5 else g.randrange(70000)
        with open(p, 'wb') as f:
            f.write(g.randbytes(size))
        files.append((p, size))
    given = []
    for p, size in files:
        if nfile and g.random() < .15:
            given.append((p + '.absent' if g.random() < .5 else d, None))
        given.append((p, size))
    if not nfile:
        given = []
    if mm:
        args.append('--mmap')
    env = dict(os.environ)
    if n % 2:
        env.update(LD_PRELOAD=SHIM, SHIM_SEED=str(n))
    names = [p for p, _ in given]
    cmd = [BIN] + (names + args if g.random() < .5 else args + names)
    if nfile:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, env=env, timeout=60)
    else:
        r = subprocess.run(cmd, stdin=open(files[0][0], 'rb'), capture_output=True, env=env, timeout=60)
    try:
        got = r.stdout.decode().splitlines()
    except UnicodeDecodeError:
        return 'output is not text'
    desc = ' '.join(cmd[1:]).replace(d, 'D')[:300] + ' (%s)' % ', '.join(str(s) for _, s in files) + (' with short and interrupted reads' if n % 2 else '')
    if bad:
        if r.returncode == 0 or got:
            return 'accepted although %s: %s prints %s' % (bad, desc, got[:2])
        return None
    ok = [(p, s) for p, s in (given or files[:1]) if s is not None and not (mm and (s == 0 or not given))]
    dig = digests([(kind, p, flags) for p, _ in ok]) if ok else []
    if len(dig) != len(ok):
        return None     # the library itself refuses: not about the tool
    want = [h + ('  ' + p if len(given) > 1 else '') for h, (p, _) in zip(dig, ok)]
    if got != want:
        return 'prints %s instead of %s: %s' % ([x[:40] for x in got], [x[:40] for x in want], desc)
    fail = len(ok) != max(len(given), 1)
    if (r.returncode != 0) != fail:
        return 'exit status %d although %s input failed: %s' % (r.returncode, 'an' if fail else 'no', desc)
    for p, _ in files:
        os.unlink(p)
    return None


def main():
    d = tempfile.mkdtemp(prefix='cli')
    try:
        if sys.argv[4] == 'one':
            todo, limit, t0 = [int(sys.argv[5])], 1e9, time.time()
        else:
            secs, seed, mx = float(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
            start = int(sys.argv[8]) if len(sys.argv) > 8 else 0
            todo = [k if k < 600 else seed * 1000003 + k for k in range(start, min(mx, start + 200000))]
            limit, t0 = secs, time.time()
        n = 0
        for k in todo:
            if time.time() - t0 > limit:
                break
            e = case(k, d)
            if e:
                print('FAIL %s in cli %d' % (e, k))
                return 1
            n += 1
        print('CASES %d %.2f' % (n, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
