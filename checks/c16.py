"""C16: the short time step response (radial model)."""
import itertools
import math

import numpy as np
from scipy.linalg.lapack import dgttrf, dgttrs

PROPERTY = 'C16'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': '4 pipe / borehole geometries x 4 pipe, 4 grout, 4 soil '
             'conductivities, 3 heat capacities, 3 flows, 4 heights (every '
             'pair of deviations from the usual values), double and coaxial '
             'equivalents; every sequence of up to three computations over 5 '
             'exchangers, prescribed ends and height changes; prescribed ends of 34 to '
             '120 h at every single deviation',
    'thorough': 'every four deviations of the lattice; sequences of four'}
ASSUMPTIONS = [
    'the discretisation (3 fluid, 1 film, 4 pipe, 27 grout, 500 soil cells, '
    '120 s) is that of the documentation and the pinned results; the reference '
    'solves the same heat balance independently and is itself checked for '
    'conservation of energy']
FLOOR = 200
# (r_in, r_out, s, r_b)
GEO = [(0.0108, 0.013335, 0.0323, 0.075), (0.0137, 0.0167, 0.02, 0.0625),
       (0.0108, 0.013335, 0.05, 0.11), (0.016, 0.02, 0.01, 0.08)]
KP = [0.4, 0.22, 3., 40.123456]
KG = [1.0, 0.6, 2.4, 3.90123456]
SOIL = [(2.0, 2343.493e3), (0.8, 1500e3), (3.5, 3000e3), (6.0123456, 2712345.678)]
RC = [(1542e3, 3901e3), (1000e3, 2000e3), (3.71e6, 4.9e6)]
M = [(0.2, 'MEG', 0.), (0.6, 'MEG', 0.), (0.35, 'MPG', 30.)]
HS = [100., 60., 180., 401.23456]
FINAL = [34., 40., 48.9, 49.2, 55., 75.5, 120.]
AXES = [GEO, KP, KG, SOIL, RC, M, HS]


def cases(tier, seed):
    yield dict(kind='point', idx=[0] * len(AXES), H=384., ref=True)
    idx = list(itertools.product(*[range(len(a)) for a in AXES]))
    for i in idx:
        if sum(1 for v in i if v) > (2 if tier == 'quick' else 4):
            continue
        yield dict(kind='point', idx=list(i), ref=True)
    # a prescribed end, before and after the usual one
    for i in idx:
        if sum(1 for v in i if v) <= (1 if tier == 'quick' else 2):
            for hours in FINAL if tier == 'thorough' or not any(i) else FINAL[1::2]:
                yield dict(kind='point', idx=list(i), final=hours * 3600.)
    for k in ('double', 'coaxial'):
        for h in HS:
            yield dict(kind='equivalent', bhe=k, H=h)
    n = len(letters())
    for a in range(n):
        for b in range(n):
            yield dict(kind='history', first=[a, b],
                       depth=3 if tier == 'quick' else 4)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def build(lib, idx, H=None):
    g, kp, kg, s, rc, m, h = (a[i] for a, i in zip(AXES, idx))
    P = lib.plat.media.Pipe
    pipe = P(P.place_pipes(g[2], g[1], 1), g[0], g[1], g[2], 1e-6, kp, rc[0])
    return lib.BHX.SingleUTube(
        m[0], lib.fluid(*m[1:]), lib.borehole(H or h, r_b=g[3]), pipe,
        lib.grout(kg, rc[1]), lib.soil(*s))


def reference(b, final=None):
    """ln(t/ts) from the second point on, and g."""
    two_pi = 2. * math.pi
    rb = b.b.r_b
    t_p = b.pipe.r_out - b.pipe.r_in
    ro = math.sqrt(2.) * b.pipe.r_out
    ri = ro - t_p
    rc = ri - 0.25 * t_p
    rf = rc - 0.75 * t_p
    Rb = b.compute_effective_borehole_resistance()
    Rf, Rp = b.R_f / 2., b.R_p / 2.
    cells = []                    # inner, centre, outer, k, rhocp
    C = 2. * b.pipe.r_in ** 2 * b.fluid.rho * b.fluid.cp / (rc ** 2 - rf ** 2)
    w = (rc - rf) / 3.
    for i in range(3):
        c = rf + i * w
        cells.append((c if i == 0 else c - w / 2., c, c + w / 2.,
                      C / b.fluid.cp, C))
    ln = math.log

    def ring(r0, w, n, k, C):
        for j in range(n):
            a = r0 + j * w
            cells.append((a, a + w / 2., a + w, k, C))
    ring(rc, ri - rc, 1, ln(ri / rc) / (two_pi * Rf), 1.)
    ring(ri, t_p, 4, ln(rb / ri) / (two_pi * Rp), b.pipe.rhoCp)
    ring(ro, (rb - ro) / 27., 27, ln(rb / ri) / (two_pi * (Rb - Rf)),
         b.grout.rhoCp)
    ring(rb, (10. - 2. * rb) / 500., 500, b.soil.k, b.soil.rhoCp)
    c = np.array(cells)
    dt = 120.
    G = two_pi / (np.log(c[:-1, 2] / c[:-1, 1]) / c[:-1, 3]
                  + np.log(c[1:, 1] / c[1:, 0]) / c[1:, 3])
    S = c[:, 4] * math.pi * (c[:, 2] ** 2 - c[:, 0] ** 2) / dt
    n = len(c)
    d = S.copy()
    d[:-1] += G
    d[1:] += G
    dl, du = -G.copy(), -G.copy()
    # the outermost cell keeps its temperature
    d[-1] = 1.
    dl[-1] = 0.
    S[-1] = 1.
    lu = dgttrf(dl, d, du)
    ts = b.b.H ** 2 / 9. / (b.soil.k / b.soil.rhoCp)
    if final is None:
        final = max(ts * math.exp(-8.6), 49. * 3600.)
    T = np.zeros(n)
    out = []
    steps = 0
    lost = 0.
    while True:
        r = S * T
        r[0] += 1.
        T = dgttrs(*lu[:5], r)[0]
        steps += 1
        lost += G[-1] * (T[-2] - T[-1])
        out.append(two_pi * b.soil.k * (T[0] - Rb))
        if (steps - 1) * dt >= final - dt - 1e-6:
            break
    # conservation: what was put in is stored or has left through the outside
    stored = float(np.dot(S[:-1], T[:-1]))
    assert abs(stored + lost - steps) < 1e-6 * steps, (stored, lost, steps)
    return ts, np.arange(steps) * dt, np.array(out), final


def same(ctx, where, got, ref, b):
    x, g = (np.asarray(v, dtype=float) for v in got)
    ts, t, want, final = ref
    ctx.check(abs(len(x) - len(t)) <= 1 and len(x) == len(g), where, 'has',
              len(x), 'points, expected', len(t))
    n = min(len(x), len(t))
    tx = np.exp(x) * ts
    ctx.check(0. < tx[0] <= 1., where, 'starts at', tx[0])
    ctx.check(bool(np.all(np.abs(tx[1:n] - t[1:n]) <= 1e-6 * t[1:n])), where,
              'times are', tx[:4], 'expected', t[:4])
    ctx.check(tx[-1] >= final - 120. - 1e-3, where, 'ends at', tx[-1],
              'before', final)
    e = np.abs(g[:n] - want[:n])
    k = int(np.argmax(e))
    ctx.check(bool(e[k] <= 1e-6 * (1. + abs(want[k]))), where, 'g at', t[k],
              's is', g[k], 'heat balance', want[k])
    ctx.check(bool(np.all(np.diff(g) >= -1e-9)), where, 'g decreases')
    # line source: dg/dln(t) tends to one half
    if n > 1000:
        a, z = int(n * 0.9), n - 1
        s = (g[z] - g[a]) / math.log(tx[z] / tx[a])
        fo = t[a] / ts / 9. * (b.b.H / b.b.r_b) ** 2  # Fourier number of the bore
        heavy = max(1., b.grout.rhoCp / b.soil.rhoCp)   # a filling that stores
        ctx.check(0.47 < s < 0.53 + 1.2 * heavy / fo, where, 'late slope', s, 'Fo', fo)


def outcome(r, ret):
    t = np.array([1.5, 7., 33.]) * 3600.
    return (np.array(ret[0]), np.array(ret[1]), np.array(r.lntts),
            np.array(r.g), float(r.t_s),
            np.array(r.g_sts(np.log(t / r.t_s)), dtype=float))


def point(ctx, lib, b, where, final=None):
    desc = describe(b)
    R = lib.plat.radial_numerical_borehole.RadialNumericalBH
    r = R(b)
    if final is None:
        o = outcome(r, r.calc_sts_g_functions(b))
    else:
        o = outcome(r, r.calc_sts_g_functions(b, final_time=final))
    ctx.check(describe(b) == desc, where, 'the exchanger was changed')
    ref = reference(b, final)
    same(ctx, where, o[:2], ref, b)
    same(ctx, where + ' attributes', o[2:4], ref, b)
    ctx.close(o[4], ref[0], where + ' time constant')
    t = np.array([1.5, 7., 33.]) * 3600.
    want = np.interp(np.log(t), np.log(ref[1][1:]), ref[2][1:])
    ctx.close(o[5], want, where + ' g_sts', rel=1e-6, abs_=1e-6)
    ctx.step(len(o[0]))
    ctx.trace()


def describe(b):
    return [b.m_flow_borehole, b.b.H, b.b.r_b, b.b.D, b.pipe.r_in, b.pipe.r_out,
            b.pipe.k, b.pipe.rhoCp, b.pipe.s, b.grout.k, b.grout.rhoCp, b.soil.k,
            b.soil.rhoCp, b.soil.ugt, b.R_f, b.R_p, b.fluid.rho,
            b.compute_effective_borehole_resistance()]


def do_point(case, ctx, lib):
    b = build(lib, case['idx'], case.get('H'))
    point(ctx, lib, b, 'lattice point %s to %s:' % (case['idx'], case.get('final')),
          case.get('final'))
    ctx.state(case['idx'], case.get('H'), case.get('final'))
    ctx.sample(case)


def do_equivalent(case, ctx, lib):
    b = lib.bhe(case['bhe'], H=case['H'])
    eq = lib.plat.equivalance.compute_equivalent(b)
    point(ctx, lib, eq, '%s %s m:' % (case['bhe'], case['H']))
    ctx.state(case['bhe'], case['H'])


def letters():
    return ['a', 'b', 'a short', 'c', 'a at 61 m', 'b thinner', 'a long']


def play(lib, r, b, letter):
    """One recomputation; the exchanger objects are shared by the history."""
    e = b['abc'.index(letter[0])]
    if letter == 'a at 61 m':
        e.b.H = 61.
        e.update_thermal_resistance()
    if letter == 'b thinner':
        e.grout.k = 0.7
        e.update_thermal_resistance()
    if letter == 'a short':
        out = r.calc_sts_g_functions(e, final_time=35. * 3600.)
    elif letter == 'a long':
        out = r.calc_sts_g_functions(e, final_time=61. * 3600.)
    else:
        out = r.calc_sts_g_functions(e)
    return outcome(r, out)


def exchangers(lib):
    return [build(lib, [0, 0, 0, 0, 0, 0, 1]), build(lib, [1, 0, 1, 1, 0, 0, 0]),
            build(lib, [3, 2, 2, 0, 1, 1, 2])]


_REF = {}


def do_history(case, ctx, lib):
    R = lib.plat.radial_numerical_borehole.RadialNumericalBH
    for rest in itertools.product(letters(), repeat=case['depth'] - 2):
        seq = [letters()[i] for i in case['first']] + list(rest)
        b = exchangers(lib)
        r = R(b[len(rest) % 3])
        for n, letter in enumerate(seq):
            got = play(lib, r, b, letter)
            ctx.step()
            key = (letter, b[0].b.H if letter[0] == 'a' else b[1].grout.k
                   if letter[0] == 'b' else 0)
            if key not in _REF:
                f = exchangers(lib)
                f[0].b.H = b[0].b.H
                f[0].update_thermal_resistance()
                f[1].grout.k = b[1].grout.k
                f[1].update_thermal_resistance()
                e = f['abc'.index(letter[0])]
                _REF[key] = play(lib, R(e), f, letter)
            ctx.state(tuple(seq[:n]), letter)
            for p, q, nm in zip(got, _REF[key], ('times', 'g', 'lntts attribute',
                                                 'g attribute', 't_s', 'g_sts')):
                ctx.close(p, q, 'after %s: %s' % (seq[:n + 1], nm), rel=1e-9,
                          abs_=1e-9)
        ctx.trace()
