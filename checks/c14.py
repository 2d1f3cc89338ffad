"""C14: g-function interpolation."""
import copy
import itertools
import math
import warnings

import numpy as np

from mc.core import Violation

PROPERTY = 'C14'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': '9 families of 1..6 heights in several orders; every single '
             'request (each stored height, 3 mm to 3 m from it, between, within and '
             'beyond the tolerance outside; 5 kinds); every sequence of two requests of a '
             '25 letter alphabet for each family, of three for 2',
    'thorough': 'as quick, 14 families, three requests for all'}
ASSUMPTIONS = [
    'between the heights the requested kind is compared with the library '
    'splines (linear by hand, Lagrange by its definition)']
FLOOR = 3000
KINDS = ['default', 'linear', 'quadratic', 'cubic', 'lagrange']
FAMILIES = [
    (100.,), (60., 135.), (150., 60., 105.), (8., 24., 48.), (24., 48., 96., 192.),
    (192., 96., 24., 48.), (24., 48., 96., 192., 384.),
    (384., 24., 192., 48., 96., 8.), (60., 97.5, 135.)]
MORE = [(100.25,), (99.5, 99.75), (384., 96., 192., 24., 48.), (30., 10., 20., 40.),
        (12., 13., 14., 15., 16., 17.)]
TIMES = [-8.5, -3.2, 0., 3.003]
B = 5.


def family(lib, hs, times=TIMES):
    return lib.dt.gfunction.GFunction(
        B, {h: 0.05 + 0.0001 * h + 0.01 * math.sin(h) for h in hs},
        {h: 1. + 0.02 * h + math.cos(h) for h in hs},
        {h: curve(h, times) for h in hs}, list(times), [(0., 0.), (5., 0.)])


def curve(h, times):
    return [3. + 0.4 * t + math.log(h) * (1. + 0.1 * t) + math.sin(h / 7. + t)
            for t in times]


def requests(hs, full):
    s = sorted(hs)
    out = [s[0], s[-1], s[0] * 0.9, s[-1] * 1.2]
    if len(s) > 1:
        out.append(0.3 * s[0] + 0.7 * s[1])
    if full:
        out += s[1:-1]
        out += [0.5 * (a + b) for a, b in zip(s, s[1:])]
        out += [s[0] - 1e-7, s[-1] + 1e-7, s[0] + 1e-7, s[-1] - 1e-7,
                s[0] - 5e-4, s[0] * 0.5, s[-1] * 2., s[-1] + 0.5]
        # near a stored height is not at it
        out += [h + sign * d for h in s for sign in (-1, 1)
                for d in (.003, .01, .03, .1, .3, 1., 3.) if d < h / 4.]
    return [(h, k) for h in out for k in KINDS]


def cases(tier, seed):
    q = tier == 'quick'
    for n, hs in enumerate(FAMILIES + ([] if q else MORE)):
        yield dict(kind='single', hs=list(hs))
        al = requests(hs, False)
        for first in range(len(al)):
            yield dict(kind='sequence', hs=list(hs), first=first,
                       depth=3 if n in (2, 4) or not q else 2)
    for n in range(1, 5 if q else 7):
        yield dict(kind='coordinates', n=n)
    yield dict(kind='radius')


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def reduced(kind, n):
    if kind == 'default':
        kind = 'cubic' if n >= 5 else 'quadratic' if n >= 3 else 'linear'
    need = {'linear': 2, 'quadratic': 3, 'cubic': 4, 'lagrange': 2}[kind]
    return kind if need <= n else {2: 'linear', 3: 'quadratic'}[n]


def interpolate(xs, ys, kind, x):
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    xs, ys = [xs[i] for i in o], [ys[i] for i in o]
    if x in xs:
        return ys[xs.index(x)]
    if kind == 'linear':
        i = min(max(sum(1 for v in xs if v < x) - 1, 0), len(xs) - 2)
        return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    if kind == 'lagrange':
        return sum(ys[i] * math.prod((x - xs[j]) / (xs[i] - xs[j])
                                     for j in range(len(xs)) if j != i)
                   for i in range(len(xs)))
    from scipy.interpolate import make_interp_spline
    return float(make_interp_spline(xs, ys, k=2 if kind == 'quadratic' else 3)(x))


def ask(g, h, kind):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = g.g_function_interpolation(B / h, kind=kind) \
                if kind != 'default' or h > 100 else \
                g.g_function_interpolation(B / h)
        except ValueError as e:
            return 'refused', None
    warned = any('xtrapol' in str(i.message) for i in w)
    gf, rb, D, H = r
    return ([float(v) for v in gf], float(rb), float(D), float(H)), warned


def judge(ctx, hs, h, kind, res, warned, where):
    lo, hi = min(hs), max(hs)
    if len(hs) == 1:
        if res == 'refused':
            ctx.check(kind != 'default' or abs(h - lo) > 0.0009 * lo, where,
                      'refuses its own height')
            return
        ctx.check(abs(h - lo) < 0.0011 * lo + 1e-3, where,
                  'a single curve answers for another height')
        want = (curve(lo, TIMES), 0.05 + 0.0001 * lo + 0.01 * math.sin(lo),
                1. + 0.02 * lo + math.cos(lo))
        for a, b, nm in zip(res, want, ('g', 'radius', 'depth')):
            ctx.close(a, b, where + ' ' + nm, rel=1e-9)
        return
    ctx.check(res != 'refused', where, 'refused')
    k = reduced(kind, len(hs))
    at = h
    for b in (lo, hi):
        if abs(h - b) < 1e-3 and abs(res[3] - b) < 1e-9:
            at = b                       # taken as the outer height
    ctx.close(res[3], at, where + ' equivalent height', rel=1e-9)
    for b in hs:
        if abs(h - b) <= 1e-9 * b:
            at = b
    want = ([interpolate(hs, [curve(x, TIMES)[i] for x in hs], k, at)
             for i in range(len(TIMES))],
            interpolate(hs, [0.05 + 0.0001 * x + 0.01 * math.sin(x) for x in hs],
                        k, at),
            interpolate(hs, [1. + 0.02 * x + math.cos(x) for x in hs], k, at))
    tol = 1e-6 if k == 'lagrange' else 1e-7
    if lo <= at <= hi:
        tol = 1e-8
    for a, b, nm in zip(res, want, ('g', 'radius', 'depth')):
        ctx.close(a, b, '%s %s (%s)' % (where, nm, k), rel=tol, abs_=tol)
    if h < lo - 2e-3 or h > hi + 1e-3:
        ctx.check(warned, where, 'extrapolates without a warning')
    elif lo - 1e-9 <= h <= hi + 1e-9 or at in (lo, hi):
        ctx.check(not warned, where, 'warns of extrapolation')


def frozen(g):
    return (g.B, copy.deepcopy(g.r_b_values), copy.deepcopy(g.D_values),
            copy.deepcopy(g.g_lts), list(g.log_time), list(g.bore_locations))


def do_single(case, ctx, lib):
    hs = case['hs']
    for h, kind in requests(hs, True):
        g = family(lib, hs)
        before = frozen(g)
        res, warned = ask(g, h, kind)
        judge(ctx, hs, h, kind, res, warned, 'heights %s, request %r %s:' % (hs, h, kind))
        ctx.check(frozen(g) == before, 'the family has been changed')
        ctx.step()
        ctx.trace()
        ctx.state(hs, h, kind)
    if len(hs) > 1:
        # the real number of points in time, at a stored height
        t = lib.log_time()
        g = family(lib, hs, t)
        for h in hs:
            res, _ = ask(g, h, 'default')
            ctx.close(res[0], curve(h, t), 'stored curve', rel=1e-8, abs_=1e-8)
            ctx.trace()


_FRESH = {}


def do_sequence(case, ctx, lib):
    hs = case['hs']
    al = requests(hs, False)
    key = tuple(hs)
    if key not in _FRESH:
        _FRESH[key] = {r: ask(family(lib, hs), *r) for r in al}
        for r in al:
            judge(ctx, hs, *r, *_FRESH[key][r], 'heights %s, request %s:' % (hs, r))
    fresh = _FRESH[key]
    first = al[case['first']]
    for rest in itertools.product(al, repeat=case['depth'] - 1):
        g = family(lib, hs)
        seq = (first,) + rest
        for n, r in enumerate(seq):
            got = ask(g, *r)
            ctx.step()
            ctx.state(hs, n and seq[n - 1], r)
            if got != fresh[r]:
                same = 'refused' not in (got[0], fresh[r][0]) and got[1] == fresh[r][1] \
                    and all(np.allclose(a, b, rtol=1e-10, atol=1e-10)
                            for a, b in zip(got[0], fresh[r][0]))
                if not same:
                    raise Violation(
                        'heights %s: after %s the request %s gives %s, a new '
                        'object gives %s' % (hs, seq[:n], r, got, fresh[r]))
        ctx.trace()


def do_coordinates(case, ctx, lib):
    vals = [0., 5., 12.5, 7.1]
    pts = list(itertools.product(vals, repeat=2))
    n = case['n']
    for off in range(len(pts)):
        loc = [pts[(off + 3 * i) % len(pts)] for i in range(n)]
        for B0 in (5., 4.45):
            for B1 in (5., 2.5, 7.3, 1e-3):
                g = lib.dt.gfunction.GFunction(B0, {100.: .075}, {100.: 2.},
                                               {100.: [1.]}, [0.], list(loc))
                got = g.correct_coordinates(B1)
                ctx.close(np.array(got, dtype=float),
                          [[x * B1 / B0, y * B1 / B0] for x, y in loc],
                          'coordinates scaled from %s to %s' % (B0, B1))
                ctx.check(list(g.bore_locations) == loc, 'locations changed')
                ctx.step()
        ctx.trace()


def do_radius(case, ctx, lib):
    g0 = curve(100., lib.log_time())
    for rb in (0.05, 0.06, 0.075, 0.1, 0.2):
        for rs in (0.05, 0.075, 0.0751, 0.11, 0.2, 0.001):
            g = list(g0)
            got = lib.dt.gfunction.GFunction.borehole_radius_correction(g, rb, rs)
            ctx.check(g == g0, 'the curve handed in has been changed')
            ctx.close(got, [v - math.log(rs / rb) for v in g0],
                      'radius correction %s to %s' % (rb, rs))
            ctx.step()
            ctx.trace()
