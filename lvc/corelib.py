"""Contracts for a few core-library leaf functions (listed as trusted in the evidence)."""
from . import term as t
from .mem import *


def _leaves(p):
    if isinstance(p, PIte):
        return _leaves(p.p) + _leaves(p.q)
    return [p]


def _apart(s, d):
    ls, ld = _leaves(s), _leaves(d)
    return all(isinstance(x, Ptr) for x in ls + ld) and not ({x.obj for x in ls} & {x.obj for x in ld})


def _nonoverlap(ctx, st, f, a):
    """copy_nonoverlapping's precondition: distinct objects never overlap; one object needs disjoint ranges"""
    s, d = a[0], a[1]
    if _apart(s, d):
        return [(st, t.TRUE)]
    if isinstance(s, Ptr) and isinstance(d, Ptr):
        size = t.mul(a[2], a[3])
        df = t.sub(d.off, s.off)
        ok = t.land(t.ule(size, df), t.ule(size, t.neg(df)))
        return [(st, t.lor(ok, t.eq(size, t.C(0, 64))))]
    return None


def _copy_pre(ctx, st, f, a):
    s, d = a[0], a[1]
    if _apart(s, d) and not isinstance(a[2], FnPtr):
        # alignment is checked below by the cast sites; ranges are checked by the copy itself
        return [(st, None)]
    return None


def _expect_pretty(s):
    return lambda f: f.pretty == s


def install(ctx):
    ctx.contracts.append((_expect_pretty('core::ptr::copy_nonoverlapping::precondition_check'), _copy_pre))
    ctx.contracts.append((lambda f: f.pretty == 'core::ub_checks::maybe_is_nonoverlapping::runtime', _nonoverlap))
