"""C15: merging the short and the long time responses."""
import math

import numpy as np

from checks.c14 import interpolate, reduced

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('every pair of strictly increasing time series over a small lattice '
        '(all relative positions), and the response used by exchangers of every '
        'type, borehole radius, family radius and height; pairs that overlap or '
        'touch, and heights between the stored ones, count as non-trivial')
BOUNDS = {
    'quick': 'all pairs of non-empty subsets of 7 times (long series from 2 '
             'points); 3 types x 3 radii x 3 families x 7 heights',
    'thorough': 'all pairs of subsets of 9 times; 3 types x 5 radii x 5 families '
                'x 12 heights'}
ASSUMPTIONS = ['both series are strictly increasing']
FLOOR = 5000
LAT = [-12., -9.75, -8.5, -8.499999, -3., -2.9, 0., 1.5, 3.]
FAM = [((100.,), 0.075), ((60., 135.), 0.19), ((60., 97.5, 135.), 0.09),
       ((24., 48., 96., 192., 384.), 0.05), ((150., 90., 120., 60.), 0.31),
       ((60., 97.5, 135.), 0.11)]
RB = [0.075, 0.06, 0.31, 0.0501, 0.15]


def cases(tier, seed):
    q = tier == 'quick'
    for k in ('coaxial', 'double', 'single'):
        for r in range(3 if q else 5):
            for f in range(3 if q else 5):
                for mat in ((r + f) % 3,) if q else range(3):
                    yield dict(kind='grab', bhe=k, r=r, f=f, n=7 if q else 12,
                               mat=mat)
    n = 7 if q else 9
    for a in range(1, 2 ** n):
        yield dict(kind='pairs', n=n, sts=a)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def judge(ctx, where, g, sx, sy, lx, ly):
    n = sum(1 for x in sx if x < lx[0])
    wx, wy = list(sx[:n]) + list(lx), list(sy[:n]) + list(ly)
    x = [float(v) for v in g.x]
    ctx.check(all(a < b for a, b in zip(x, x[1:])), where,
              'times do not increase strictly', x[:8])
    ctx.close(x, wx, where + ' times', rel=1e-12, abs_=1e-12)
    ctx.close(g.y, wy, where + ' values', rel=1e-9, abs_=1e-9)
    if len(wx) > 60:
        keep = list(range(0, len(wx) - 1, max(1, len(wx) // 40))) + \
            list(range(max(0, n - 3), len(wx) - 1))
    else:
        keep = range(len(wx) - 1)
    for i in keep:
        for f in (0., 0.25, 0.5, 1.):
            t = wx[i] + f * (wx[i + 1] - wx[i])
            t = min(max(t, wx[0]), wx[-1])
            ctx.close(float(g(t)), wy[i] + f * (wy[i + 1] - wy[i]),
                      where + ' at %r' % t, rel=1e-6, abs_=1e-8)


def pick(n, mask):
    return [LAT[i] for i in range(n) if mask >> i & 1]


def do_pairs(case, ctx, lib):
    combine = lib.dt.ground_heat_exchangers.GHE.combine_sts_lts
    n = case['n']
    sx = pick(n, case['sts'])
    sy = [math.sin(3. * x) - 5. for x in sx]
    for b in range(1, 2 ** n):
        lx = pick(n, b)
        if len(lx) < 2:
            continue
        ly = [x * x + 7. for x in lx]
        args = [list(v) for v in (lx, ly, sx, sy)]
        g = combine(*args)
        ctx.check(args == [lx, ly, sx, sy], 'the series handed in were changed')
        judge(ctx, 'short %s long %s:' % (sx, lx), g, sx, sy, lx, ly)
        ctx.evaluation(*((case['sts'], b) if sx[-1] >= lx[0] else ()))


_STS = {}


def reference_sts(lib, ghe_bhe, kind, H, rb):
    """A newly built exchanger of the same description."""
    key = (kind, H, rb, lib.mat)
    if key not in _STS:
        b = lib.bhe(kind, m=ghe_bhe.m_flow_borehole, H=H, r_b=rb)
        eq = lib.plat.equivalance.compute_equivalent(b)
        r = lib.plat.radial_numerical_borehole.RadialNumericalBH(eq)
        x, y = r.calc_sts_g_functions(eq)
        _STS[key] = ([float(v) for v in x], [float(v) for v in y])
    return _STS[key]


def do_grab(case, ctx, lib):
    kind = case['bhe']
    rb = RB[case['r']] if kind == 'single' else [0.075, 0.08, 0.11, 0.0751,
                                                 0.15][case['r']]
    hs, rg = FAM[case['f']]
    lo, hi = min(hs), max(hs)
    if len(hs) == 1:
        heights = [hs[0]]
    else:
        heights = [lo + (hi - lo) * i / (case['n'] - 1.) for i in
                   range(case['n'])]
        heights = heights[1::2] + heights[0::2]
    B = 5. + case['f'] / 3.
    g = lib.dt.gfunction.GFunction(
        B, {h: rg + h / 1e5 for h in hs}, {h: 2. for h in hs},
        {h: [lib_curve(h, x) for x in lib.log_time()] for h in hs},
        lib.log_time(), [(0., 0.), (B, 0.)])
    ghe = lib.ghe(kind, nbh=2, H=heights[0], g=g, B=B, sim=lib.sim(1, 1),
                  borehole=lib.borehole(heights[0], r_b=rb))
    for n, H in enumerate(heights):
        ghe.bhe.b.H = H
        if n:
            ghe.simulate()
        got = ghe.grab_g_function(B / H)
        sx, sy = reference_sts(lib, ghe.bhe, kind, H, rb)
        k = reduced('default', len(hs)) if len(hs) > 1 else None
        at = [h for h in hs if abs(h - H) < 1e-9]
        ly = []
        r = rg + H / 1e5
        for x in lib.log_time():
            ys = [lib_curve(h, x) for h in hs]
            v = ys[hs.index(at[0])] if at else interpolate(hs, ys, k, H)
            ly.append(v - math.log(rb / r))
        where = '%s radius %s family %s (radius %s) height %s:' % (
            kind, rb, hs, rg, H)
        judge(ctx, where, got, sx, sy, lib.log_time(), ly)
        ctx.evaluation(*((kind, rb, case['f'], H) if not at else ()))
    ctx.sample(dict(case=case, heights=heights))


def lib_curve(h, x):
    return 10. + x + math.log(h) + 0.02 * (x + 9.) ** 2 * h / 100.
