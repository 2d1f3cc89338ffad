"""C13: temporal superposition of the loads."""
import contextlib
import itertools
import math

import numpy as np

from mc import loads as L
from mc.fixtures import replaced

PROPERTY = 'C13'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every load history of up to 4 steps over 4 levels x 3 step '
             'lengths for one exchanger, up to 1..3 for 5 other exchangers; '
             'generated histories for start months 1..12 x lengths 1..13, 24, 25 and, for some, 20 to 40 years; steps of 5 seconds up to 50 years '
             'in histories of up to 3; hourly '
             'simulation for 12 start months x 1 to 3, 6, 12, 13, 24 to 27 months, '
             'some 38',
    'thorough': 'up to 5 steps for one, 3 or 4 for the others; hourly up to 61 months'}
ASSUMPTIONS = [
    'the short time step response of an exchanger is not recomputed between '
    'histories that do not change it (C16, C19 check that recomputing changes '
    'nothing); resistance and response are those of C15, C18',
    'hybrid load histories are written into hybrid_load.load / hour, the '
    'generated ones (kind real) are not']
FLOOR = 3000
LEVELS = [1., -1., 0., 2.5]
STEPS = [1., 730., 7.25]
# exchanger, boreholes, height, materials
NODES = [('single', 1, 100., 0), ('single', 3, 60.0432109, 1), ('double', 1, 137.012345, 2),
         ('double', 4, 100., 0), ('coaxial', 2, 100., 2), ('coaxial', 1, 250., 1)]
# long pauses and long constant loads, up to a century, among very short ones
LONG = [0.0013, 730., 43800., 175201., 438000.]


def cases(tier, seed):
    q = tier == 'quick'
    acts = range(len(LEVELS) * len(STEPS))
    # the expensive ones first
    for ln in ((38, 27, 26, 25, 24, 13, 12, 6, 3) if q else
               (61, 50, 49, 39, 38, 37, 36, 27, 26, 25, 24, 23, 18, 14, 13, 12,
                11, 6, 4, 3)):
        for s in range(1, 13):
            if ln < 38 or not q or s % 4 == 1:
                yield dict(kind='hourly', node=(1, 4)[s % 2], start=s, length=ln)
    for n in range(len(NODES)):
        depth = (4, 3, 2, 1, 1, 2)[n] if q else (5, 4, 3, 3, 3, 3)[n]
        for a in range(len(LEVELS) * len(LONG)):
            yield dict(kind='history', node=n, depth=(3 if n < 1 else 2) if q else 3,
                       first=[a], long=True)
        for first in itertools.product(acts, repeat=1 if depth < 4 else 2):
            yield dict(kind='history', node=n, depth=depth, first=list(first))
    for n in range(len(NODES)):
        for s in range(1, 13):
            for ln in (1, 2, 6, 12, 13, 24, 25):
                if n and (s + ln + n) % (4 if q else 2):
                    continue
                yield dict(kind='real', node=n, start=s, length=ln)
            # decades: 20, 30 years and more
            for ln in (240, 359, 480) if q else (120, 240, 300, 359, 480, 600):
                if (s + n) % (12 if q else 2) == 1:
                    yield dict(kind='real', node=n, start=s, length=ln)
    for n in (0, 3, 4):
        for s in range(1, 13):
            yield dict(kind='hourly', node=n, start=s, length=1 + (s + n) % 2)
    for s in (13, 14, 24, 27):
        yield dict(kind='hourly', node=0, start=s, length=1)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


_NODE = {}


@contextlib.contextmanager
def frozen(lib):
    """the short time step response stays as it is (nothing it depends on
    changes meanwhile)"""
    def again(self, *a, **k):
        return self.lntts, self.g
    R = lib.plat.radial_numerical_borehole.RadialNumericalBH
    E = lib.plat.equivalance.compute_equivalent
    with replaced([(R, 'calc_sts_g_functions', again)]):
        yield


def node(lib, n, sim=None, loads=None):
    kind, nbh, H, lib.mat = NODES[n]
    key = n if sim is None else None
    if key is not None and key in _NODE:
        return _NODE[key]
    ghe = lib.ghe(kind, V=0.2 if kind != 'coaxial' else 0.8, nbh=nbh, H=H,
                  sim=sim or lib.sim(H=H), loads=loads)
    if kind != 'single' and key is not None:
        # one simulation leaves the derived state of this height behind
        ghe.simulate('hybrid')
    if key is not None:
        _NODE[key] = ghe
    return ghe


class Reference:
    def __init__(self, ghe):
        kind, H = None, ghe.bhe.b.H
        self.H = H
        self.n = len(ghe.GFunction.bore_locations)
        s = ghe.bhe.soil
        self.k = s.k
        self.ts = H ** 2 / (9. * s.k / s.rhoCp)
        self.Tg = s.ugt
        self.Rb = ghe.bhe.compute_effective_borehole_resistance()
        self.mcp = ghe.bhe.m_flow_borehole * ghe.bhe.fluid.cp
        gf = ghe.GFunction
        lts = np.array(gf.g_lts[H]) - math.log(ghe.bhe.b.r_b / gf.r_b_values[H])
        x = np.array(ghe.radial_numerical.lntts)
        y = np.array(ghe.radial_numerical.g)
        cut = x < gf.log_time[0]
        self.x = np.hstack((x[cut], gf.log_time))
        self.y = np.hstack((y[cut], lts))

    def run_hourly(self, q):
        """the same for one step per hour"""
        q = np.asarray(q, dtype=float) / self.n / self.H
        dq = np.diff(np.hstack((0., q)))
        age = np.arange(1., len(q) + 1.) * 3600. / self.ts
        g = np.interp(np.log(age), self.x, self.y)
        dT = np.convolve(dq, g)[:len(q)] / (2 * math.pi * self.k)
        return dT, self.Tg + dT + q * self.Rb - q * self.H / (2. * self.mcp)

    def run(self, q, t):
        """q: rejection of the field (W) during the step ending at t (hours)"""
        q = np.asarray(q, dtype=float) / self.n / self.H
        dq = np.diff(np.hstack((0., q)))
        begin = np.hstack((0., t[:-1]))
        dT = []
        for i, now in enumerate(t):
            age = (now - begin[:i + 1]) * 3600. / self.ts
            g = np.interp(np.log(age), self.x, self.y)
            dT.append(float(np.sum(dq[:i + 1] * g)) / (2 * math.pi * self.k))
        dT = np.array(dT)
        return dT, self.Tg + dT + q * self.Rb - q * self.H / (2. * self.mcp)


def judge(ctx, ghe, out, dT, T, where):
    ctx.close(ghe.dTb, dT, where + ' borehole wall temperature change', 1e-7, 1e-7)
    ctx.close(ghe.HPEFT, T, where + ' entering temperature', 1e-7, 1e-7)
    ctx.close(list(out), [max(T), min(T)], where + ' reported extremes', 1e-7, 1e-7)
    ctx.trace()


def do_history(case, ctx, lib):
    ghe = node(lib, case['node'])
    ref = Reference(ghe)
    acts = list(itertools.product(LEVELS, LONG if case.get('long') else STEPS))
    first = [acts[i] for i in case['first']]
    t0 = 0.
    with frozen(lib):
        for n in range(0, case['depth'] - len(first) + 1):
            for rest in itertools.product(acts, repeat=n):
                seq = first + list(rest)
                # from a few watts to far more than the field can bear
                size = (1., 60., 1. / 256.)[(len(seq) + (seq[-1][0] > 0)
                                             + len(seq) * case['first'][0]) % 3]
                q = [a[0] * size for a in seq]
                t = np.cumsum([a[1] for a in seq])
                # the series starts wherever the starting month starts
                t0 = (0., 744., 8760. + 1416.)[len(seq) % 3]
                hl = ghe.hybrid_load
                hl.load = np.array([0., 0.] + q)
                hl.hour = np.array([0., t0] + list(t + t0))
                hl.sfload = np.diff(np.hstack((0., hl.load)))
                out = ghe.simulate('hybrid')
                dT, T = ref.run(np.array(q) * 1000., t)
                ctx.step(len(seq))
                ctx.state(case['node'], seq)
                judge(ctx, ghe, out, dT, T, '[%s %s x %g kW]' % (
                    NODES[case['node']], seq, size))
                if not any(q):
                    ctx.check(max(abs(v - ref.Tg) for v in ghe.HPEFT) < 1e-9,
                              'no load but', ghe.HPEFT)
    ctx.sample(dict(case=case, last=seq, HPEFT=[float(v) for v in ghe.HPEFT]))


def year(scale=1.):
    """every hour different"""
    return [1800. * scale * math.sin(2 * math.pi * (i - 700) / 8760.)
            + 900. * math.sin(i * 12.9898) for i in range(8760)]


def do_real(case, ctx, lib):
    s, e = case['start'], case['start'] + case['length'] - 1
    kind, nbh, H, _ = NODES[case['node']]
    prof = year()
    ghe = node(lib, case['node'], lib.sim(s, e, H=H), list(prof))
    out = ghe.simulate('hybrid')
    ref = Reference(ghe)
    hl = ghe.hybrid_load
    load = [float(v) for v in hl.load][2:]
    hour = [float(v) for v in hl.hour]
    ctx.check(abs(hour[1] - L.start_hour(s)) < 1e-6 and
              abs(hour[-1] - L.start_hour(e + 1)) < 1e-6, 'months', s, e,
              'cover the hours', hour[1], hour[-1])
    dT, T = ref.run(np.array(load) * 1000., np.array(hour[2:]) - hour[1])
    ctx.step(len(load))
    ctx.state('real', case['node'], s, e)
    judge(ctx, ghe, out, dT, T, '[real %s months %d-%d]' % (NODES[case['node']], s, e))
    ctx.check(list(ghe.hourly_extraction_ground_loads) == prof,
              'the loads given were changed')


def do_hourly(case, ctx, lib):
    s, n = case['start'], case['length']
    kind, nbh, H, _ = NODES[case['node']]
    prof = year((1. + s / 10.) * (1., 50.)[(s // 2 + n) % 2])
    ghe = node(lib, case['node'], lib.sim(s, s + n - 1, H=H), list(prof))
    out = ghe.simulate('hourly')
    ref = Reference(ghe)
    hours = int(n / 12. * 8760.)
    a = L.start_hour((s - 1) % 12 + 1)
    q = [-prof[(a + k) % 8760] for k in range(hours)]
    dT, T = ref.run_hourly(q)
    ctx.step(hours)
    ctx.state('hourly', case['node'], s, n)
    judge(ctx, ghe, out, dT, T, '[hourly %s months %d-%d]' % (
        NODES[case['node']], s, s + n - 1))
    ctx.check(list(ghe.hourly_extraction_ground_loads) == prof,
              'the loads given were changed')
