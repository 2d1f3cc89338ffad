"""C12: peak durations."""
import math

import numpy as np

from mc import loads as L

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('two day load shapes (base level x peak hour x width x secondary peak x '
        'neighbouring load) enumerated at the first, last and middle days of '
        'every month, for three exchangers; each duration is recomputed by an '
        'independent superposition.  A month with load counts as non-trivial')
BOUNDS = {
    'quick': '5 bases x 5 hours x 6 widths x 4 secondary shapes x 4 days, 12 '
             'months each, 3 exchanger types; 7 scales from 1e-9 to 1e6; all '
             'zero-month patterns of 4 shapes; the three sets of materials in turn',
    'thorough': '5 x 24 x 9 x 4 x 6 in each month'}
ASSUMPTIONS = ['the two day window is the peak day with the day before or the '
               'day after (the code and its tests use the day after)']
FLOOR = 500
BASES = [0., 0.2, 0.6, 0.99, 1.]
WIDTH = [1, 2, 5, 12, 24, 30, 3, 8, 48]
SCALE = [1., 1e-9, 1e-6, 1e-3, 1e3, 1e6, 0.37]


def cases(tier, seed):
    q = tier == 'quick'
    hours = (0, 5, 12, 18, 23) if q else range(24)
    for b in BASES:
        for h in hours:
            for w in WIDTH[:6 if q else 9]:
                yield dict(kind='shape', base=b, hour=h, width=w,
                           days=4 if q else 6,
                           mat=(BASES.index(b) + h + WIDTH.index(w)) % 3)
    for s in SCALE:
        for k in ('single', 'double', 'coaxial'):
            for mat in range(3):
                yield dict(kind='scale', scale=s, exchanger=k, mat=mat)
    for m in range(16):
        yield dict(kind='zero', mask=m)
    for s in SCALE:
        yield dict(kind='constant', level=s)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def reference(window, avg, g, ts, two_pi_k, Rb):
    """duration (h) from first principles: temperatures at whole hours"""
    top = max(window)
    gs = [float(g(math.log(3600. * t / ts))) for t in range(1, 49)]

    def temps(q):
        out = [0.]
        for n in range(1, 49):
            T, last = 0., 0.
            for j in range(n):          # step of hour j felt n - j hours later
                T += (q[j] - last) / two_pi_k * gs[n - j - 1]
                last = q[j]
            out.append(T + q[n - 1] * Rb)
        return out
    given = temps([(q - avg) / top * q for q in window])
    nominal = max(given)
    const = temps([top - avg] * 48)
    if nominal <= 0.:
        return 0., given, const
    if const[-1] <= nominal:
        return 48., given, const
    for t in range(48):
        if const[t] <= nominal <= const[t + 1]:
            return t + (nominal - const[t]) / (const[t + 1] - const[t]), given, const
    return None, given, const


def judge(ctx, o, prof, year, where, eq, r):
    n = len(prof)
    Rb = eq.compute_effective_borehole_resistance()
    tpk = 2 * math.pi * eq.soil.k
    kept = [[list(map(float, v)) for v in x] for x in
            (o.monthly_two_day_fluid_temps_nm, o.monthly_two_day_fluid_temps_pk)]
    ctx.check(all(len(x) == 13 for x in kept), where, 'two day responses of',
              [len(x) - 1 for x in kept], 'months')
    for i, (a, b) in enumerate(L.month_slices(year), start=1):
        part = prof[a:b]
        peak = max(part)
        dur = float(o.monthly_peak_duration[i])
        ctx.check(0. <= dur <= 48., where, 'month', i, 'duration', dur)
        if peak == 0.:
            ctx.check(dur <= 1e-3, where, 'month', i, 'without load has a peak '
                      'of', dur, 'hours')
            ctx.check(not any(kept[0][i]) and not any(kept[1][i]), where, 'month',
                      i, 'without load has a response', max(kept[0][i]))
            ctx.evaluation()
            continue
        first = a + part.index(peak)
        day = a + (first - a) // 24 * 24
        win = [float(v) for v in o.monthly_two_day_hourly_peak[i]]
        after = [prof[(day + k) % n] for k in range(48)]
        before = [prof[(day - 24 + k) % n] for k in range(48)]
        ctx.check(win in (after, before), where, 'month', i,
                  'the two day window is not the peak day and a neighbour', win)
        avg = sum(part) / len(part)
        want, given, const = reference(win, avg, r.g_sts, r.t_s, tpk, Rb)
        size = max(map(abs, given + const))
        ctx.close(kept[0][i], given, '%s month %d: two day response' % (where, i),
                  rel=1e-7, abs_=1e-9 * size + 1e-13 * max(win))
        ctx.close(kept[1][i], const, '%s month %d: two day response to the peak'
                  % (where, i), rel=1e-7, abs_=1e-9 * size + 1e-13 * max(win))
        # at vanishing loads the temperature itself vanishes in rounding
        if max(win) - avg <= 1e-9 * max(win):
            ctx.check(dur <= 48., where)
        else:
            ctx.check(want is not None and abs(dur - want) <= 1e-6 + 1e-6 * want,
                      where, 'month', i, 'peak duration', dur, 'expected', want)
        ctx.evaluation(where, i)


def do_shape(case, ctx, lib):
    b, h0, w = case['base'], case['hour'], case['width']
    for second in range(4):
        for dsel in range(case['days']):
            prof = [b] * 8760
            for m, (x, y) in enumerate(L.month_slices()):
                nd = (y - x) // 24
                d = (0, nd - 1, 14, nd - 2, 1, 7)[(dsel + m) % case['days']]
                at = x + 24 * d + h0
                lvl = 1.5 + 0.1 * m
                for k in range(w):
                    if at + k < y:
                        prof[at + k] = lvl * (1. - 0.3 * (k % 3 == 1))
                if second == 1:      # a lower peak earlier the same day
                    for k in range(max(0, h0 - 6), h0 - 3):
                        prof[x + 24 * d + k] = 1.2
                elif second == 2:    # a lower long one the next day
                    for k in range(4, 16):
                        prof[(x + 24 * (d + 1) + k) % 8760] = 1.25
                elif second == 3:    # load before and none afterwards
                    for k in range(24):
                        prof[(x + 24 * (d + 1) + k) % 8760] = 0.
                        prof[(x + 24 * (d - 1) + k) % 8760] = 1.1
            eq, r = L.exchanger(lib, 'single')
            where = '[base %g hour %d width %d second %d day %d]' % (
                b, h0, w, second, dsel)
            judge(ctx, L.loads(lib, list(prof)), prof, 2019, where, eq, r)
            if dsel == 0 and h0 in (0, 12) and w < 6:
                # both sides of the hybrid load, other exchangers
                kind = ('double', 'coaxial')[second % 2]
                eq, r = L.exchanger(lib, kind)
                other = prof[4000:] + prof[:4000]
                hl = L.hybrid(lib, list(prof), list(other), kind=kind)
                judge(ctx, hl.rejection, prof, 2019, where + kind, eq, r)
                judge(ctx, hl.extraction, other, 2019, where + kind + 'x', eq, r)


def do_scale(case, ctx, lib):
    """durations do not depend on the unit of the loads"""
    k, s = case['exchanger'], case['scale']
    eq, r = L.exchanger(lib, k)
    base = [abs(v) / 1000. + 0.05 * math.sin(i * i) ** 2 for i, v in
            enumerate(lib_profile())]
    d0 = L.loads(lib, list(base), kind=k).monthly_peak_duration
    prof = [v * s for v in base]
    o = L.loads(lib, list(prof), kind=k)
    judge(ctx, o, prof, 2019, '[scale %g %s]' % (s, k), eq, r)
    ctx.check(np.allclose(o.monthly_peak_duration, d0, rtol=1e-5, atol=1e-5),
              'durations change with the scale of the loads', s,
              list(o.monthly_peak_duration), list(d0))


def lib_profile():
    from mc.fixtures import loads_profile
    return loads_profile()


def do_zero(case, ctx, lib):
    """months without load next to months with load, one day spikes at the ends"""
    eq, r = L.exchanger(lib, 'single')
    for rest in range(16):
        mask = case['mask'] | rest << 4 | case['mask'] << 8
        prof = [0.] * 8760
        for m, (x, y) in enumerate(L.month_slices()):
            if mask >> m & 1:
                at = (x, y - 1, x + 340, y - 24)[(m + rest) % 4]
                prof[at] = 3. + m
        judge(ctx, L.loads(lib, list(prof)), prof, 2019,
              '[months %s]' % bin(mask), eq, r)
    # a leap year and the ends of the year
    n = 8784
    prof = [0.] * n
    prof[-1] = prof[0] = 1. + case['mask']
    prof[59 * 24 + case['mask']] = 4.
    judge(ctx, L.loads(lib, list(prof), 2020), prof, 2020, '[leap]', eq, r)


def do_constant(case, ctx, lib):
    eq, r = L.exchanger(lib, 'single')
    v = case['level']
    for prof in ([v] * 8760, [v * (1. + 1e-15 * (i % 7)) for i in range(8760)],
                 [v * (1 + 1e-12 * math.sin(i)) for i in range(8760)],
                 [v / 3.] * 4000 + [v] * 4760):
        o = L.loads(lib, list(prof))
        judge(ctx, o, prof, 2019, '[constant %g]' % v, eq, r)
