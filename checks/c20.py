"""C20: flow accounting."""
import itertools

import numpy as np

from mc import lands as LD
from mc import search as S

PROPERTY = 'C20'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'four routines x 3 lands x 2 conventions x 3 flows x 3 fluids x 3 '
             'exchanger types with up to 13 required numbers of boreholes (every '
             'field each search meets is judged); 8 invalid conventions; sizing '
             'and recomputing g-functions after every search; four real searches',
    'thorough': '6 lands, 5 flows; twelve real searches'}
ASSUMPTIONS = ['the entering fluid temperatures are answered by the explored '
               'environment (GHE.simulate is the seam), except in the cases of '
               'kind real; flows are in L/s']
FLOOR = 300
LANDS = [(20., 15., 4., 8., 6.), (12., 20., 3., 5., 5.), (24., 24., 4.5, 8., 10.),
         (30., 10., 3., 5., 5.), (15., 31., 4., 7.4, 7.), (18.9, 16., 3., 4., 5.)]
FLOWS = [0.2, 0.05, 1.7, 31.2, 0.731]
FLUIDS = [('MEG', 0.), ('MPG', 30.), ('MMA', 40.)]
ROUTINES = ['near-square', 'rectangle', 'bi-rectangle', 'bi-zoned']
BAD = ['', 'Borehole', 'SYSTEM', None, 'both', 0, 'boreholes', 'per-borehole']


def cases(tier, seed):
    q = tier == 'quick'
    for r in range(4 if q else 12):
        yield dict(kind='real', n=r, mat=r % 3)
    for r in ROUTINES:
        for l in range(3 if q else 6):
            for flow in ('borehole', 'system'):
                for v in range(3 if q else 5):
                    yield dict(kind='search', routine=r, land=l, flow=flow, v=v,
                               mat=(l + v) % 3)
    for b in range(len(BAD)):
        yield dict(kind='invalid', flow=b)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def constraints(routine, land):
    L, W, bmin, bx, by = land
    if routine == 'near-square':
        return dict(length=min(L, 4 * 5.), B=5.)
    d = dict(length=L, width=W, B_min=bmin, B_max_x=bx)
    if routine != 'rectangle':
        d['B_max_y'] = by
    return d


def nested(d):
    return getattr(d, 'coordinates_domain_nested', None) or [d.coordinates_domain]


def judge(ctx, ghe, key, V, flow, rho, cp, where):
    n = len(key)
    per = V if flow == 'borehole' else V / n
    ctx.close(ghe.nbh, n, where + ' number of boreholes')
    ctx.close(ghe.V_flow_borehole, per, where + ' flow per borehole')
    ctx.close(ghe.V_flow_system, V if flow == 'system' else V * n,
              where + ' system flow')
    m = per / 1000. * rho
    ctx.close(ghe.bhe.m_flow_borehole, m, where + ' mass flow of the exchanger')
    ctx.close(ghe.bhe_eq.m_flow_borehole, m, where + ' mass flow of the equivalent')
    ctx.close(ghe.radial_numerical.single_u_tube.m_flow_borehole, m,
              where + ' mass flow of the radial model')


def do_search(case, ctx, lib):
    V, flow, r = FLOWS[case['v']], case['flow'], case['routine']
    if flow == 'system' and case['v'] == 1:
        # a litre per minute for fifty boreholes has no finite resistance
        V = 0.2 + 0.01 * case['land']
    gc = constraints(r, LANDS[case['land']])
    i = case['land'] + case['v'] + ROUTINES.index(r) + (flow == 'system')
    fl = FLUIDS[i % 3]
    kind = ['single', 'double', 'coaxial'][(i // 3 + case['v']) % 3]
    fluid = lib.fluid(*fl)
    rho = fluid.rho

    def make():
        return LD.design(
            lib, r, gc, V_flow=V, flow=flow, fluid=fluid,
            bhe_object=lib.CLS[kind], pipe=lib.pipe(kind),
            sim_params=lib.sim(1, 24, 2035., -1995., 150., 60.))
    counts = sorted({len(f) for d in nested(make()) for f in d})
    # the equivalents of the other exchangers are expensive
    step = max(1, len(counts) // (2 if kind != 'single' else
                                  5 if r == 'bi-zoned' else 12))
    for T in counts[::step]:
        seen = []

        def audit(ghe, key, H):
            seen.append(key)
            judge(ctx, ghe, key, V, flow, rho, fluid.cp,
                  '%s, %s flow %s, field of %d:' % (r, flow, V, len(key)))
            ctx.state(case['land'], r, flow, V, key)
            ctx.step()
        w = S.World(lib, lambda key, H, ghe:
                    10. * ((T - 0.3) * 147. / (len(key) * H) - 1.), audit=audit)
        with S.seam(w):
            s = make().find_design()
            where = '%s, %s flow %s, returned field of %d:' % (
                r, flow, V, len(s.selected_coordinates))
            key = S.key_of(s.selected_coordinates)
            judge(ctx, s.ghe, key, V, flow, rho, fluid.cp, where)
            n0 = len(w.curves)
            s.ghe.compute_g_functions()
            ctx.check(len(w.curves) > n0, 'harness: no g-function seen')
            s.ghe.size()
            judge(ctx, s.ghe, key, V, flow, rho, fluid.cp, where + ' sized:')
        ctx.check(len(seen) > 0, 'harness: nothing simulated')
        for k, hs, m in w.curves:
            per = V if flow == 'borehole' else V / len(k)
            ctx.close(m, per / 1000. * rho, '%s, %s flow %s, field of %d: mass '
                      'flow of the g-function' % (r, flow, V, len(k)))
        ctx.trace()
    ctx.sample(dict(case=case, required=counts[:12]))


def do_invalid(case, ctx, lib):
    bad = BAD[case['flow']]
    for r in ROUTINES:
        w = S.World(lib, lambda key, H, ghe: 1. if len(key) < 5 else -1.)
        refused = None
        with S.seam(w):
            try:
                LD.design(lib, r, constraints(r, LANDS[0]),
                          flow=bad).find_design()
            except ValueError as e:
                refused = e
        ctx.check(refused is not None, 'the flow convention', bad,
                  'is accepted by', r)
        ctx.check(not w.log and not w.curves, 'the flow convention', bad,
                  'is refused by', r, 'after', len(w.curves), 'g-functions')
        ctx.state(r, bad)
        ctx.step()
        ctx.trace()


def do_real(case, ctx, lib):
    """Real g-functions and simulations; what the borefield library is given
    and what the temperatures follow from."""
    n = case['n']
    flow = ['borehole', 'system'][n % 2]
    kind = ['single', 'coaxial', 'double'][(n // 2) % 3]
    V = [0.25, 0.8][n % 2]
    gt = lib.gt
    seen = []
    real = gt.networks.Network

    class Spy(real):
        def __init__(self, boreholes, pipes, *a, **k):
            real.__init__(self, boreholes, pipes, *a, **k)
            seen.append((len(boreholes), k.get('m_flow_network'),
                         [float(p.m_flow_borehole) for p in pipes]))
    fluid = lib.fluid(*FLUIDS[n % 3])
    from mc.fixtures import loads_profile
    ugt = lib.soil().ugt
    mx = ugt + (21.7 if n < 4 else 17.7)
    d = LD.design(lib, 'near-square', dict(length=10., B=5.), V_flow=V, flow=flow,
                  fluid=fluid, bhe_object=lib.CLS[kind], pipe=lib.pipe(kind),
                  loads=loads_profile(12000., 20000.),
                  sim_params=lib.sim(1, 4, mx, ugt - 23.3, 120., 60.))
    gt.networks.Network = Spy
    try:
        try:
            s = d.find_design()
        except ValueError:
            s = None
    finally:
        gt.networks.Network = real
    for nb, m, pipes in seen:
        per = (V if flow == 'borehole' else V / nb) / 1000. * fluid.rho
        where = 'field of %d, %s flow %s:' % (nb, flow, V)
        ctx.check(len(pipes) == nb, where, 'has', len(pipes), 'exchangers')
        ctx.close(pipes, [per] * nb, where + ' mass flow of each borehole')
        if m is not None:
            ctx.close(m, per * nb, where + ' mass flow of the network')
        ctx.state('real', n, nb)
        ctx.step()
    ctx.check(len(seen) > 0, 'harness: no g-function computed')
    if s is not None:
        judge(ctx, s.ghe, S.key_of(s.selected_coordinates), V, flow, fluid.rho,
              fluid.cp, 'returned field:')
        ctx.count('real_designs')
    ctx.trace()
