"""The search seam: real search classes, GHE constructor, cost and sizing; the
thermal answers (heat pump entering fluid temperatures) come from the explored
environment instead of the physics."""
import contextlib
import math

import numpy as np

from .core import Violation
from .fixtures import replaced


class World:
    """answer(n, key, H, ghe) -> excess temperature.  `key` names the field
    (its coordinates)."""

    def __init__(self, lib, answer, side='hot', audit=None):
        self.lib = lib
        self.answer = answer
        self.side = side
        self.audit = audit
        self.log = []        # (key, H, excess, method)
        self.curves = []     # (key, heights, m_flow)

    def efts(self, ghe, method):
        key = tuple(map(tuple, ghe.GFunction.bore_locations))
        H = float(ghe.bhe.b.H)
        e = float(self.answer(key, H, ghe))
        if self.audit is not None:
            self.audit(ghe, key, H)
        self.log.append((key, H, e, method))
        sp = ghe.sim_params
        hot, cold = sp.max_EFT_allowable, sp.min_EFT_allowable
        side = self.side
        if side == 'mixed':
            side = 'hot' if len(self.log) % 2 else 'cold'
        if side == 'hot':
            return hot + e, cold - e + 1.
        return hot + e - 1., cold - e


@contextlib.contextmanager
def seam(world, sizer=None):
    """sizer(key, ghe) -> height: answers sizing as well."""
    lib = world.lib
    dt, plat = lib.dt, lib.plat

    def live(B, H_values, r_b_values, D_values, m_flow_borehole, bhe_object,
             log_time, coordinates, fluid, pipe, grout, soil, *a, **k):
        world.curves.append((tuple(map(tuple, coordinates)),
                             tuple(H_values), float(m_flow_borehole)))
        return dt.gfunction.GFunction(
            float(B), {float(h): r for h, r in zip(H_values, r_b_values)},
            {float(h): d for h, d in zip(H_values, D_values)},
            {float(h): [1. + 0.1 * i + math.log(h / 100.)
                        for i in range(len(log_time))] for h in H_values},
            list(log_time), coordinates)

    def sts(self, single_u_tube, *a, **k):
        self.single_u_tube = single_u_tube
        self.t_s = single_u_tube.b.H ** 2 / (
            9 * single_u_tube.soil.k / single_u_tube.soil.rhoCp)
        self.lntts = np.linspace(-40., -8.6, 100)
        self.g = np.linspace(-3., 1., 100)
        self.g_sts = lambda x: np.interp(x, self.lntts, self.g)
        return self.lntts, self.g

    def hybrid(self, hourly_rejection_loads, hourly_extraction_loads, bhe,
               radial_numerical, sim_params, *a, **k):
        self.bhe, self.radial_numerical = bhe, radial_numerical
        self.rejection = self.extraction = None
        self.startmonth = sim_params.start_month
        self.endmonth = sim_params.end_month
        self.load = np.array([0., 0., 1.])
        self.hour = np.array([0., 0., 730.])
        self.sfload = np.array([0., 0., 1.])

    def simulate(self, method='hybrid'):
        if method not in ('hybrid', 'hourly'):
            raise ValueError('Only hybrid or hourly methods available.')
        hi, lo = world.efts(self, method)
        self.HPEFT = [lo, 0.5 * (hi + lo), hi]
        self.dTb = [0., 0., 0.]
        return hi, lo

    def size(self, method='hybrid'):
        key = tuple(map(tuple, self.GFunction.bore_locations))
        self.bhe.b.H = sizer(key, self)
        self.simulate(method=method)

    G = dt.ground_heat_exchangers.GHE
    with replaced(([] if sizer is None else [(G, 'size', size)]) + [
            (dt.gfunction.compute_live_g_function, live),
            (plat.radial_numerical_borehole.RadialNumericalBH,
             'calc_sts_g_functions', sts),
            (plat.ground_loads.HybridLoad, '__init__', hybrid),
            (G, 'simulate', simulate)]):
        yield world


class Inputs(dict):
    """Remembers what it was given."""

    def describe(self):
        return {k: sorted((a, repr(x)) for a, x in vars(self[k]).items())
                for k in ('borehole', 'fluid', 'pipe', 'grout', 'soil',
                          'sim_params')}

    def unchanged(self, ctx):
        now = self.describe()
        for k in now:
            ctx.check(now[k] == self.given[k], 'the', k, 'given was changed to',
                      now[k])


def inputs(lib, kind='single', flow='borehole', V=0.2, mxH=150., mnH=60.,
           loads=None, start=1, end=24, borehole=None):
    """Everything Bisection*/Design take besides the domain."""
    inp = Inputs(V_flow=V, borehole=borehole or lib.borehole(100.),
                 bhe_object=lib.CLS[kind],
                 fluid=lib.fluid(), pipe=lib.pipe(kind), grout=lib.grout(),
                 soil=lib.soil(),
                 sim_params=lib.sim(start, end, mx=2035., mn=-1995., H=mxH, h=mnH),
                 hourly_extraction_ground_loads=loads or [1., -1.] * 12,
                 flow=flow)
    inp.given = inp.describe()
    return inp


def line(n, x0=0.):
    """A field of n boreholes in a row, 5 m apart."""
    return [(x0 + 5. * i, 0.) for i in range(n)]


def key_of(coords):
    return tuple(map(tuple, coords))


def check_final(ctx, lib, s, coords, H, inp):
    """The search object that is handed to the user describes `coords` at H."""
    k = key_of(coords)
    ctx.check(key_of(s.selected_coordinates) == k, 'the selected field is',
              list(s.selected_coordinates)[:6], 'expected', list(coords)[:6])
    check_ghe(ctx, lib, s.ghe, coords, H, inp)


def check_ghe(ctx, lib, ghe, coords, H, inp, relH=1e-9):
    n = len(coords)
    ctx.check(key_of(ghe.GFunction.bore_locations) == key_of(coords),
              'the GHE returned has another field:',
              list(ghe.GFunction.bore_locations)[:6], 'expected', list(coords)[:6])
    ctx.check(abs(ghe.bhe.b.H - H) <= relH * H, 'the GHE returned has height',
              ghe.bhe.b.H, 'expected', H)
    ctx.check(ghe.nbh == n, 'the GHE returned counts', ghe.nbh, 'of', n)
    check_flow(ctx, lib, ghe, n, inp)
    if hasattr(inp, 'unchanged'):
        inp.unchanged(ctx)


def check_flow(ctx, lib, ghe, n, inp):
    rho = inp['fluid'].rho
    per = inp['V_flow'] if inp['flow'] == 'borehole' else inp['V_flow'] / n
    ctx.close(ghe.V_flow_system, per * n, 'system flow (L/s)')
    ctx.close(ghe.V_flow_borehole, per, 'flow per borehole (L/s)')
    ctx.close(ghe.bhe.m_flow_borehole, per / 1000. * rho, 'borehole mass flow')
