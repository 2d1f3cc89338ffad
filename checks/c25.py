"""C25: synthetic and rebuilt hourly profiles."""
import copy
import itertools

from mc import loads as L
from mc.core import Violation

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('every peak day and duration of every month for both load types is '
        'rebuilt into an hourly profile and judged hour by hour; every synthetic '
        'load function call on short months; the doubling profile for every '
        'year kind and unit.  Months with a peak count as non-trivial')
BOUNDS = {'quick': '31 days x 11 durations x 12 months x 2 years',
          'thorough': '31 days x 50 durations x 12 months x 4 years'}
ASSUMPTIONS = ['monthly summaries are set on the HybridLoad object (data '
               'attributes); the cases of kind real go through the constructor']
FLOOR = 300


def cases(tier, seed):
    q = tier == 'quick'
    durs = [0., 0.4, 1., 1.6, 2., 3., 5.4, 12., 24., 25.2, 48.] if q else \
        [i + 0.3 * (i % 3 - 1) for i in range(1, 49)] + [0., 48.]
    for d in durs:
        for y in ((2019, 2020) if q else (2019, 2020, 2021, 2100)):
            yield dict(kind='rebuild', dur=d, year=y)
    for y in (2018, 2019, 2020, 2021, 2000, 2100, 2023, 2024):
        for u in ('W', 'kW', None):
            yield dict(kind='doubling', year=y, units=u)
    yield dict(kind='badunit')
    for d in range(28):
        yield dict(kind='function', day=d)
    for s in range(4):
        yield dict(kind='real', shape=s)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


_BASE = {}


def month_ok(ctx, got, avg, peak, day, dur, where):
    """got: the hours of one month; day 1..31 (0: none); dur whole hours"""
    n = len(got)
    for v in got:
        ctx.check(abs(v - avg) <= 1e-9 * (1 + abs(avg)) or
                  abs(v - peak) <= 1e-9 * (1 + abs(peak)), where, 'hour of',
                  v, 'neither average', avg, 'nor peak', peak)
    if abs(peak - avg) < 1e-9:
        return
    at = [k for k, v in enumerate(got) if abs(v - peak) <= 1e-9 * (1 + abs(peak))]
    ctx.check(len(at) == dur, where, 'peak lasts', len(at), 'hours, expected',
              dur)
    if not at:
        return
    ctx.check(at[-1] - at[0] + 1 == dur, where, 'peak is not contiguous', at)
    mid = 24 * (max(day, 1) - 1) + 12
    ideal = min(max(mid, dur / 2.), n - dur / 2.)
    ctx.check(abs((at[0] + at[-1] + 1) / 2. - ideal) <= 0.5 + 1e-9, where,
              'peak hours', (at[0], at[-1]), 'expected around', ideal)


def do_rebuild(case, ctx, lib):
    y = case['year']
    ms = L.month_slices(y)
    n = ms[-1][1]
    if y not in _BASE:
        _BASE[y] = L.hybrid(lib, [1.] * n, [2.] * n, year=y)
    for day in range(1, 32):
        h = copy.copy(_BASE[y])
        h.rejection, h.extraction = copy.copy(h.rejection), copy.copy(h.extraction)
        spec = []
        for k, o in enumerate((h.rejection, h.extraction)):
            avg = [0.] + [3. + i + k * .5 for i in range(12)]
            peak = [0.] + [7. + 2. * i + k * .25 for i in range(12)]
            days = [0] + [(day - 1 + 11 * k + i * k) % d + 1
                          for i, d in enumerate(L.days(y))]
            dur = [0.] + [case['dur']] * 12
            if day % 3 == 0:        # a month without this load
                q = 1 + (day + 5 * k) % 12
                avg[q] = peak[q] = 0.
                days[q], dur[q] = 0, 1e-6
            o.monthly_average, o.monthly_peak = avg, peak
            o.monthly_peak_day, o.monthly_peak_duration = days, dur
            spec.append((avg, peak, days, dur))
        rej, ext = h.hourly_load_representation(year=y)
        for got, (avg, peak, days, dur), name in zip((rej, ext), spec,
                                                     ('rejection', 'extraction')):
            ctx.check(len(got) == n, name, 'has', len(got), 'hours of', n)
            for i, (a, b) in enumerate(ms, start=1):
                month_ok(ctx, got[a:b], avg[i], peak[i], days[i],
                         int(round(dur[i])), '[%s %d day %d duration %g month %d]'
                         % (name, y, day, case['dur'], i))
        ctx.evaluation(case['dur'], y, day)


def do_real(case, ctx, lib):
    rej, ext = [0.] * 8760, [0.] * 8760
    for i, (a, b) in enumerate(L.month_slices()):
        for h in range(a, b):
            d, r = divmod(h - a, 24)
            rej[h] = (1. + i * .2 + (r in (0, 13, 14, 15)[:case['shape'] + 1])
                      * (2. + .01 * d)) * (case['shape'] != 1 or i % 4 > 0)
            ext[h] = 12. - i + (r in (23, 5, 6)[:case['shape']]) * (4. - .02 * d)
    h = L.hybrid(lib, rej, ext)
    out = h.hourly_load_representation()
    for got, src, o in zip(out, (rej, ext), (h.rejection, h.extraction)):
        ctx.check(len(got) == 8760, len(got))
        for i, (a, b) in enumerate(L.month_slices(), start=1):
            part = src[a:b]
            peak = max(part)
            day = part.index(peak) // 24 + 1
            month_ok(ctx, got[a:b], sum(part) / len(part), peak, day,
                     int(round(o.monthly_peak_duration[i])),
                     '[real %d month %d]' % (case['shape'], i))
    ctx.evaluation('real', case['shape'])


def do_doubling(case, ctx, lib):
    gl = lib.plat.ground_loads
    y, u = case['year'], case['units']
    s = 1. if u == 'kW' else 1000.
    args = dict(year=y) if u is None else dict(units=u, year=y)
    rej, ext = gl.create_synthetic_doubling_load_profile(**args)
    ms = L.month_slices(y)
    ctx.check(len(rej) == len(ext) == ms[-1][1], 'hours', len(rej), len(ext))
    for i, (a, b) in enumerate(ms, start=1):
        # day numbers count from zero
        month_ok(ctx, ext[a:b], i * s, 2 * i * s, 7 + i, i,
                 '[extraction %d month %d]' % (y, i))
        j = 13 - i
        month_ok(ctx, rej[a:b], j * s, 2 * j * s, 21 - i, j,
                 '[rejection %d month %d]' % (y, i))
    ctx.evaluation(y, u)


def do_badunit(case, ctx, lib):
    gl = lib.plat.ground_loads
    for u in ('MW', '', 'w'):
        try:
            gl.create_synthetic_doubling_load_profile(units=u)
        except ValueError:
            ctx.evaluation()
            continue
        raise Violation('unit %r accepted' % u)


def do_function(case, ctx, lib):
    """one month inside a longer series: nothing else is touched"""
    f = lib.plat.ground_loads.synthetic_load_function
    day = case['day']
    for prev, dur in itertools.product((0, 24, 744), list(range(0, 49))):
        n = 28 * 24
        hours = [-5.] * (prev + n + 48)
        f(hours, 1., 2., dur, day, prev, n)
        ctx.check(len(hours) == prev + n + 48, 'series has', len(hours),
                  'hours now')
        ctx.check(all(v == -5. for v in hours[:prev] + hours[prev + n:]),
                  'hours outside the month changed')
        month_ok(ctx, hours[prev:prev + n], 1., 2., day + 1, dur,
                 '[function day %d duration %d]' % (day, dur))
        ctx.evaluation(day, prev, dur)
