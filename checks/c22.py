"""C22: invalid requests are refused, valid ones accepted."""
import itertools
from types import SimpleNamespace

import numpy as np

from mc import search as S

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('every subset of the eight geometric constraints x every routine (and '
        'unknown ones), and every option of every interface with its valid values '
        'and a set of invalid ones; a request is non-trivial when it is refused')
BOUNDS = {
    'quick': '2^8 subsets x (4 routines + 16 unknown names); zero lengths; 21 unknown '
             'values per option',
    'thorough': '3^6 x 2^2 assignments (absent, zero, value) x (4 + 16) names; 21 '
                'unknown values per option; real searches'}
ASSUMPTIONS = ['a refusal is a ValueError or AssertionError raised before '
               'anything is evaluated; other exceptions are crashes',
               'asserts are enabled (python without -O)']
FLOOR = 2000
ROUTINES = ('near-square', 'rectangle', 'bi-rectangle', 'bi-zoned')
NEEDS = {'near-square': {'B', 'length'},
         'rectangle': {'length', 'width', 'B_min', 'B_max_x'},
         'bi-rectangle': {'length', 'width', 'B_min', 'B_max_x', 'B_max_y'},
         'bi-zoned': {'length', 'width', 'B_min', 'B_max_x', 'B_max_y'}}
FIELDS = dict(length=24., width=18., B=5., B_min=4., B_max_x=8., B_max_y=7.,
              outer_constraints=[[0, 0], [9, 0], [9, 9]], no_go=[[1, 1], [2, 1], [2, 2]])
UNKNOWN = ('', 'square', 'Near-Square', 'near_square', 'near-square ', None,
           'bi-rectangle-nested', 'NEAR-SQUARE', 'Rectangle', 'RECTANGLE',
           'Bi-Rectangle', 'bi-rectangular', 'BI-ZONED', 'bizoned', 'zoned', 0)
BAD = ('', 'x', None, 'hybrid ', 'BOREHOLE', 0, 'both', 'Borehole', 'SYSTEM',
       'System', ' system', 'boreholes', 'per system', 'HYBRID', 'Hybrid', 'hour',
       'HOURLY', 'Hourly', ' hourly', 'monthly', True)


def cases(tier, seed):
    for r in ROUTINES + UNKNOWN:
        yield dict(kind='subsets', routine=r)
        if tier == 'thorough':
            for z in (0., 0):
                yield dict(kind='given', routine=r, zero=z)
    for r in ROUTINES:
        for f in ('borehole', 'system') + BAD:
            yield dict(kind='flow', routine=r, flow=f)
        for m in ('hybrid', 'hourly') + BAD:
            yield dict(kind='find', routine=r, method=m)
    for k in ('single', 'double', 'coaxial'):
        yield dict(kind='simulate', bhe=k)
    for k in ('units', 'config', 'equivalent', 'gfunction', 'domain', 'sts',
              'zoned', 'spacing', 'interpolation'):
        yield dict(kind=k)


CHUNKS_PER_WORKER = 40


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def refused(ctx, what, f, *key):
    """f() has to be refused."""
    try:
        r = f()
    except (ValueError, AssertionError):
        ctx.evaluation(*(key or (what,)))
        return
    except Exception as e:
        ctx.check(False, what + ': crashes instead of being refused:', repr(e))
    ctx.check(False, what + ': accepted,', repr(r)[:200])


def accepted(ctx, what, f):
    try:
        r = f()
    except Exception as e:
        ctx.check(False, what + ': refused:', repr(e))
    ctx.evaluation()
    return r


def design(lib, gc, routine, **kw):
    inp = S.inputs(lib)
    return lib.dt.design.Design(
        inp['V_flow'], inp['borehole'], inp['bhe_object'], inp['fluid'],
        inp['pipe'], inp['grout'], inp['soil'], inp['sim_params'], gc,
        inp['hourly_extraction_ground_loads'], routine=routine, **kw)


def complete(routine):
    return {k: v for k, v in FIELDS.items() if k in NEEDS[routine]}


def do_subsets(case, ctx, lib):
    r = case['routine']
    GC = lib.dt.media.GeometricConstraints
    names = list(FIELDS)
    for n in range(len(names) + 1):
        for sub in itertools.combinations(names, n):
            what = 'routine %r given %s' % (r, list(sub))
            gc = GC(**{k: FIELDS[k] for k in sub})
            ok = r in NEEDS and NEEDS[r] <= set(sub)
            if ok:
                d = accepted(ctx, what, lambda: design(lib, gc, r))
                dom = d.coordinates_domain if r in ROUTINES[:2] \
                    else d.coordinates_domain_nested
                ctx.check(len(dom) > 0, what, ': no candidates')
                accepted(ctx, what, lambda: gc.check_inputs(r))
            else:
                refused(ctx, what, lambda: design(lib, gc, r))
                if r in NEEDS:
                    refused(ctx, what + ' (check_inputs)',
                            lambda: gc.check_inputs(r))
            ctx.check(vars(gc) == vars(GC(**{k: FIELDS[k] for k in sub})), what,
                      ': the request was altered')
    if r in NEEDS:
        # zero is a value, too
        for k in NEEDS[r] & {'length', 'width'}:
            gc = GC(**dict(complete(r), **{k: 0.}))
            accepted(ctx, 'routine %r with %s 0' % (r, k),
                     lambda: gc.check_inputs(r))
    ctx.sample(case)


def do_given(case, ctx, lib):
    """Which constraints are given, not their values, decides."""
    r = case['routine']
    if r not in NEEDS:
        return
    GC = lib.dt.media.GeometricConstraints
    names = list(FIELDS)[:6]
    for vals in itertools.product((None, case['zero'], 3.), repeat=6):
        for og in itertools.product((None, []), repeat=2):
            kw = dict(zip(names, vals), outer_constraints=og[0], no_go=og[1])
            gc = GC(**kw)
            what = 'check_inputs(%r) with %s' % (r, kw)
            if all(kw[k] is not None for k in NEEDS[r]):
                accepted(ctx, what, lambda: gc.check_inputs(r))
            else:
                refused(ctx, what, lambda: gc.check_inputs(r))


def do_flow(case, ctx, lib):
    r, f = case['routine'], case['flow']
    GC = lib.dt.media.GeometricConstraints
    w = S.World(lib, lambda key, H, ghe: -1. if len(key) >= 6 and H > 80 else 1.)
    with S.seam(w):
        d = None
        what = 'routine %r, flow %r' % (r, f)

        def go():
            return design(lib, GC(**complete(r)), r, flow=f).find_design()
        if f in ('borehole', 'system'):
            s = accepted(ctx, what, go)
            ctx.check(len(s.selected_coordinates) >= 1, what, ': no result')
        else:
            refused(ctx, what, go)
            ctx.check(not w.log, what, ': fields were evaluated before')


def do_find(case, ctx, lib):
    """Unknown methods reach the simulation."""
    r, m = case['routine'], case['method']
    GC = lib.dt.media.GeometricConstraints
    w = S.World(lib, lambda key, H, ghe: -1. if len(key) >= 6 and H > 80 else 1.)
    what = 'routine %r, method %r' % (r, m)
    with S.seam(w):
        def go():
            return design(lib, GC(**complete(r)), r, method=m).find_design()
        if m in ('hybrid', 'hourly'):
            accepted(ctx, what, go)
            ctx.check(w.log and w.log[0][3] == m, what, ': evaluated with',
                      w.log[:1])
        else:
            refused(ctx, what, go)


def do_simulate(case, ctx, lib):
    k = case['bhe']
    ghe = lib.ghe(k, V=0.25, nbh=2, H=100., sim=lib.sim(1, 2, 35., 5., 150., 60.),
                  g=lib.gfunction(heights=(60., 100., 150.),
                                  locations=[(0., 0.), (5., 0.)]))
    for m in ('hybrid', 'hourly'):
        accepted(ctx, '%s, method %r' % (k, m), lambda: ghe.simulate(method=m))
        accepted(ctx, '%s, sizing by %r' % (k, m), lambda: ghe.size(method=m)) \
            if m == 'hybrid' else None
    before = (list(map(float, ghe.HPEFT)), list(map(float, ghe.dTb)))
    for m in BAD:
        for f in (ghe.simulate, ghe.size):
            H = ghe.bhe.b.H
            refused(ctx, '%s, %s by method %r' % (k, f.__name__, m),
                    lambda: f(method=m), k, f.__name__, repr(m))
            ctx.check((list(map(float, ghe.HPEFT)), list(map(float, ghe.dTb)))
                      == before, 'temperatures after a refused', f.__name__)
            ghe.bhe.b.H = H
    accepted(ctx, '%s after refusals' % k, lambda: ghe.simulate())


def do_units(case, ctx, lib):
    gl = lib.plat.ground_loads
    loads = [1500., -2500., 0., 4.]
    for u, sc in (('W', 1000.), ('kW', 1.)):
        got = accepted(ctx, 'units %r' % u, lambda:
                       gl.HybridLoad.split_heat_and_cool(loads, units=u))
        ctx.close(got, [[0., 2500. / sc, 0., 0.], [1500. / sc, 0., 0., 4. / sc]],
                  'loads split in units %r' % u)
        accepted(ctx, 'synthetic profile in %r' % u, lambda:
                 gl.create_synthetic_doubling_load_profile(units=u))
    for u in BAD + ('w', 'KW', 'MW', 'Wh', 1000., 'Kw', 'kw', 'BTU', 'kW ', 'W ', 'kWh'):
        refused(ctx, 'units %r' % (u,), lambda:
                gl.HybridLoad.split_heat_and_cool(loads, units=u))
        refused(ctx, 'no load, units %r' % (u,), lambda:
                gl.HybridLoad.split_heat_and_cool([], units=u))
        refused(ctx, 'synthetic profile in units %r' % (u,), lambda:
                gl.create_synthetic_doubling_load_profile(units=u))
    for n in (0, 1, 8759, 8761, 17520):
        b = lib.bhe('single')
        rn = lib.plat.radial_numerical_borehole.RadialNumericalBH(b)
        rn.calc_sts_g_functions(b)
        refused(ctx, '%d hours of load' % n, lambda: gl.HybridLoad(
            [0.] * n, [1.] * n, b, rn, lib.sim(1, 24)))


def do_config(case, ctx, lib):
    M = lib.CLS['double']
    pipe = lib.pipe('double')
    for cfg in ('series', 'parallel'):
        b = accepted(ctx, 'configuration %r' % cfg, lambda: M(
            0.3, lib.fluid(), lib.borehole(), pipe, lib.grout(), lib.soil(),
            config=cfg))
        ctx.close(b.m_flow_pipe, 0.15 if cfg == 'parallel' else 0.3,
                  'flow per pipe, configuration %r' % cfg)
    for cfg in ('', 'x', 'serial', 'in parallel', 'parallel ', 'both', 'SERIAL',
                'series/parallel'):
        refused(ctx, 'configuration %r' % (cfg,), lambda: M(
            0.3, lib.fluid(), lib.borehole(), pipe, lib.grout(), lib.soil(),
            config=cfg))
        refused(ctx, 'flow per pipe for configuration %r' % (cfg,), lambda:
                M.compute_mass_flow_rate_pipe(0.3, cfg))
    for cfg, m in (('series', .3), (None, .3), ('parallel', .15)):
        ctx.close(accepted(ctx, 'flow for %r' % cfg, lambda:
                           M.compute_mass_flow_rate_pipe(0.3, cfg)), m,
                  'flow per pipe for %r' % cfg)


def do_equivalent(case, ctx, lib):
    eq = lib.plat.equivalance.compute_equivalent
    for k in ('single', 'double', 'coaxial'):
        b = lib.bhe(k, 0.3)
        e = accepted(ctx, 'equivalent of ' + k, lambda: eq(b))
        ctx.check(isinstance(e, lib.CLS['single']), 'equivalent of', k, 'is', type(e))
    b = lib.bhe('single')

    class Other:
        pass
    o = Other()
    o.__dict__.update(vars(b))
    for x in (None, 1., 'single', lib.pipe(), lib.borehole(), o, lib.CLS['single'],
              SimpleNamespace(**vars(b)),
              lib.gt.pipes.SingleUTube(b.pipe.pos, b.pipe.r_in, b.pipe.r_out,
                                       b.b, 2., 1., 0.1)):
        refused(ctx, 'equivalent of %s' % type(x).__name__, lambda: eq(x),
                'equivalent', type(x).__module__, type(x).__name__)


def do_gfunction(case, ctx, lib):
    g = lib.dt.gfunction
    b = lib.borehole(100.)
    t = np.array([3.6e7, 3.6e8])
    loc = [(0., 0.), (5., 0.)]

    def calc(**kw):
        return g.calculate_g_function(
            0.2, lib.CLS['single'], t, loc, b, lib.fluid(), lib.pipe(),
            lib.grout(), lib.soil(), nSegments=4, **kw)

    def live(**kw):
        return g.compute_live_g_function(
            5., [100.], [0.075], [2.], 0.2, lib.CLS['single'], [-1., 0.], loc,
            lib.fluid(), lib.pipe(), lib.grout(), lib.soil(), nSegments=4, **kw)
    for s in ('equal', 'unequal', 'Equal', 'UNEQUAL'):
        accepted(ctx, 'segments %r' % s, lambda: calc(segments=s))
        accepted(ctx, 'live, segments %r' % s, lambda: live(segments=s))
    for bc in ('UHTR', 'UBWT', 'MIFT'):
        accepted(ctx, 'boundary %r' % bc, lambda: calc(boundary=bc))
        accepted(ctx, 'live, boundary %r' % bc, lambda: live(boundary=bc))
    for s in ('', 'x', 'equals', 'un-equal', ' equal', 'none', 'equal ', 'inequal',
              'equal-unequal'):
        for f in (calc, live):
            refused(ctx, '%s, segments %r' % (f.__name__, s),
                    lambda: f(segments=s))
            refused(ctx, '%s, segments %r, ratios' % (f.__name__, s),
                    lambda: f(segments=s, segment_ratios=[.25] * 4))
    for bc in ('', 'x', None, 'uhtr', 'MIFT ', 'UHTR/UBWT', 0, 'mift', 'ubwt',
               'Mift', 'UIFT', 'UBHT'):
        for f in (calc, live):
            refused(ctx, '%s, boundary %r' % (f.__name__, bc),
                    lambda: f(boundary=bc))
            refused(ctx, '%s, boundary %r, equal' % (f.__name__, bc),
                    lambda: f(boundary=bc, segments='equal'))


def do_domain(case, ctx, lib):
    f = lib.dt.domains.square_and_near_square
    for lo in range(-3, 7):
        for up in range(-3, 7):
            what = 'near-square bounds %d, %d' % (lo, up)
            if 1 <= lo <= up:
                d = accepted(ctx, what, lambda: f(lo, up, 5.))
                ctx.check([len(c) for c in d] == [i * j for i in range(lo, up + 1)
                                                  for j in (i, i + 1)], what,
                          'counts', [len(c) for c in d])
            else:
                refused(ctx, what, lambda: f(lo, up, 5.))


def do_sts(case, ctx, lib):
    for k in ('single', 'double', 'coaxial'):
        b = lib.plat.equivalance.compute_equivalent(lib.bhe(k, 0.3))
        rn = lib.plat.radial_numerical_borehole.RadialNumericalBH(b)
        refused(ctx, 'short time response at the borehole wall, ' + k, lambda:
                rn.calc_sts_g_functions(b, calculate_at_bh_wall=True))
        accepted(ctx, 'short time response after a refusal, ' + k,
                 lambda: rn.calc_sts_g_functions(b))


def do_zoned(case, ctx, lib):
    z = lib.dt.coordinates.zoned_rectangle
    for nx, ny in itertools.product(range(2, 6), repeat=2):
        for ix, iy in itertools.product(range(0, 6), repeat=2):
            what = 'zoned %dx%d with %dx%d inside' % (nx, ny, ix, iy)
            if ix <= nx - 2 and iy <= ny - 2:
                c = accepted(ctx, what, lambda: z(nx, ny, 5., 4., ix, iy))
                ctx.check(len(c) == 2 * (nx + ny) - 4 + ix * iy, what, len(c))
            else:
                refused(ctx, what, lambda: z(nx, ny, 5., 4., ix, iy))


def do_spacing(case, ctx, lib):
    ut = lib.dt.utilities
    b = lib.borehole(100.)
    for c in ([], ()):
        try:
            r = ut.borehole_spacing(b, c)
        except (ValueError, AssertionError, IndexError):
            ctx.evaluation('spacing')
        else:
            ctx.check(False, 'spacing of no boreholes:', r)
    accepted(ctx, 'spacing of one', lambda: ut.borehole_spacing(b, [(0., 0.)]))
    for a, p in itertools.product(range(4), repeat=2):
        f = lambda: ut.compute_mpe([1.] * a, [2.] * p)
        if a != p:
            refused(ctx, 'error of %d values against %d' % (p, a), f)
        elif a:
            ctx.close(accepted(ctx, 'error', f), 100., 'percentage error')


def do_interpolation(case, ctx, lib):
    """One curve serves only its height."""
    g = lib.gfunction(heights=(100.,))
    for H in (20., 60., 99., 101., 150., 1e4):
        refused(ctx, 'one curve at 100 m, asked at %s' % H,
                lambda: g.g_function_interpolation(5. / H))
    for kind in ('linear', 'quadratic', 'cubic', 'lagrange'):
        refused(ctx, 'one curve, ' + kind,
                lambda: g.g_function_interpolation(0.05, kind=kind))
    accepted(ctx, 'one curve, own height', lambda: g.g_function_interpolation(0.05))
