"""C04: sizing the borehole height."""
import itertools
import math
import warnings

from mc import search as S
from mc.core import Violation

PROPERTY = 'C04'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': '6 response shapes x 23 root positions (below, at, inside, above '
             'the height range) x 4 height ranges x 5 starting heights x 3 '
             'limit sides x 2 methods; 54 physical GHEs with real simulation',
    'thorough': '61 root positions, 6 height ranges; 126 physical GHEs'}
ASSUMPTIONS = [
    'response curves are continuous and cross zero once in the height range; '
    'they are answered by the explored environment (GHE.simulate is the seam), '
    'except for the physical cases']
FLOOR = 1000

SHAPES = {
    'linear': lambda H, r: (r - H) / 10.,
    'hyper': lambda H, r: 20. * (r / H - 1.),
    'steep': lambda H, r: 500. * (r / H - 1.),
    'flat': lambda H, r: 1e-3 * (r - H),
    'kink': lambda H, r: (r - H) * (0.02 if H > r else 2.),
    'cubic': lambda H, r: ((r - H) / 40.) ** 3 + (r - H) / 100.,
}
RANGES = [(60., 135.), (20., 300.), (95., 105.), (100., 100.5)]
RANGES_T = RANGES + [(1., 1000.), (59.9, 60.1)]


def cases(tier, seed):
    for shape in SHAPES:
        for rng in (RANGES if tier == 'quick' else RANGES_T):
            for side in ('hot', 'cold', 'mixed'):
                yield dict(kind='curve', shape=shape, range=list(rng), side=side)
    kinds = ['single', 'double', 'coaxial']
    scale = [0.5, 2., 2.7, 3.4, 4.5, 7.] if tier == 'quick' else \
        [0.1, 0.5, 1., 1.5, 2., 2.3, 2.7, 3., 3.4, 4., 4.5, 5.5, 7., 9.]
    for k in kinds:
        for f in scale:
            for mat in range(3):
                yield dict(kind='physical', bhe=k, scale=f, mat=mat)


def run_case(case, ctx, lib):
    if case['kind'] == 'curve':
        curve(case, ctx, lib)
    else:
        physical(case, ctx, lib)


def curve(case, ctx, lib):
    mn, mx = case['range']
    n = 20 if not ctx.thorough else 58
    roots = [mn + (mx - mn) * i / n for i in range(n + 1)]
    roots += [mn * 0.7, mx * 1.4]
    f = SHAPES[case['shape']]
    inp = S.inputs(lib, mxH=mx, mnH=mn)
    w = S.World(lib, None, case['side'])
    with S.seam(w):
        b = lib.borehole(100.)
        g = lib.gfunction(heights=(mn, 0.5 * (mn + mx), mx))
        ghe = lib.dt.ground_heat_exchangers.GHE(
            0.2, 5., lib.CLS['single'], inp['fluid'], b, inp['pipe'],
            inp['grout'], inp['soil'], g, inp['sim_params'],
            inp['hourly_extraction_ground_loads'])
        for r in roots:
            for start in (mn, mx, 0.5 * (mn + mx), mn * 0.5, mx * 2.):
                for method in ('hybrid', 'hourly'):
                    w.answer = lambda key, H, ghe: f(H, r)
                    w.log = []
                    ghe.bhe.b.H = start
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter('always')
                        out = ghe.size(method=method)
                    judge(ctx, case, ghe, w, r, mn, mx, method, ws, f)
    ctx.sample(dict(case=case, roots=roots[:5]))


def judge(ctx, case, ghe, w, r, mn, mx, method, ws, f):
    H = float(ghe.bhe.b.H)
    ctx.step(len(w.log))
    ctx.trace()
    for k, h, e, m in w.log:
        ctx.state(case['shape'], case['range'], r, round(h, 5), m)
    where = '[%s root %.9g in %s %s]' % (case['shape'], r, case['range'], method)
    ctx.check(all(m == method for _, _, _, m in w.log), where, 'simulated '
              'with another method')
    ctx.check(all(mn - 1e-9 <= h <= mx + 1e-9 for _, h, _, _ in w.log), where,
              'a height outside the allowed range was simulated',
              [h for _, h, _, _ in w.log])
    expect = min(max(r, mn), mx)
    tol = 1e-4 * mx
    ctx.check(abs(H - expect) <= tol, where, 'sized to', H, 'expected', expect)
    if r <= mn:
        ctx.check(H == mn, where, 'not at the minimum height:', H)
        ctx.check(_warned(ws, 'minimum height'), where, 'no warning that the '
                  'minimum height is the limit')
    if r >= mx:
        ctx.check(H == mx, where, 'not at the maximum height:', H)
        ctx.check(_warned(ws, 'maximum height'), where, 'no warning that the '
                  'maximum height is the limit')
    if mn + 2 * tol < r < mx - 2 * tol:
        ctx.check(not _warned(ws, 'height'), where, 'a warning for a height '
                  'inside the range')
    e = f(H, r)
    c = ghe.cost(max(ghe.HPEFT), min(ghe.HPEFT))
    ctx.check(abs(c - e) <= 1e-9 + 1e-9 * abs(e), where, 'the temperatures '
              'kept belong to another height: excess', c, 'instead of', e)


def _warned(ws, word):
    return any(word in str(x.message).lower() for x in ws)


def physical(case, ctx, lib):
    """The real simulation: the result is checked by simulating again."""
    mn, mx = 60., 135.
    loads = [case['scale'] * x for x in _loads(lib)]
    locs = [(0., 0.), (5., 0.)]
    g = lib.gfunction(heights=(mn, 97.5, mx), locations=locs)
    ghe = lib.ghe(kind=case['bhe'], nbh=2, H=100., g=g,
                  sim=limits(lib, mn, mx), loads=loads)
    ghe.size(method='hybrid')
    H = ghe.bhe.b.H
    hp = list(ghe.HPEFT)
    e = ghe.cost(max(hp), min(hp))
    fresh = {}
    for h in (H, mn, mx):
        g2 = lib.gfunction(heights=(mn, 97.5, mx), locations=locs)
        gh = lib.ghe(kind=case['bhe'], nbh=2, H=100., g=g2,
                     sim=limits(lib, mn, mx), loads=loads)
        gh.bhe.b.H = h
        fresh[h] = gh.cost(*gh.simulate())
        ctx.step()
    ctx.state(case, H)
    ctx.trace()
    ctx.check(mn <= H <= mx, 'height outside the range', H)
    ctx.check(abs(fresh[H] - e) < 1e-6, 'the temperatures kept are not those '
              'of the height returned:', e, fresh[H])
    if fresh[mn] <= 0:
        ctx.check(H == mn, 'the minimum height is enough but H =', H)
    elif fresh[mx] >= 0:
        ctx.check(H == mx, 'the maximum height is needed but H =', H)
    else:
        ctx.check(abs(fresh[H]) < 0.02, 'not at the limit: excess', fresh[H])
    ctx.sample(dict(case=case, H=H, excess=e))


def limits(lib, mn, mx):
    ugt = lib.soil().ugt
    return lib.sim(1, 24, ugt + 16.7, ugt - 13.3, mx, mn)


def _loads(lib):
    from mc import fixtures
    return fixtures.loads_profile()
