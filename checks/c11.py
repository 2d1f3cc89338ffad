"""C11: the hybrid load time series."""
import itertools

import numpy as np

from mc import loads as L

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('monthly summaries (totals, peaks, peak days, peak durations) enumerated '
        'and expanded by the real code: every pair of peak days of every month '
        'for every pair of durations, every starting month with every length, '
        'every pattern of months without rejection / extraction; each step of '
        'the series is judged.  A series with a peak counts as non-trivial')
BOUNDS = {
    'quick': '31 x 31 days x 6 x 6 durations over the 12 months; start 1..12 x '
             'lengths 1..40, 59..61, 120 (361, 480, 601 '
             'from three of them); 4^6 load patterns',
    'thorough': '31 x 31 days x 9 x 9 durations, each in every month; start '
                '1..12 x lengths 1..130, 240, 360, 361, 480, 601, 1201; 4^6 load patterns x 3'}
ASSUMPTIONS = ['the calendar of the simulation is that of common years',
               'monthly summaries are set on the HybridLoad object (data '
               'attributes) before process_monthly_loads runs; the cases of '
               'kind real go through the constructor only']
FLOOR = 3000
DUR = [1., 7.3, 24., 47.9, 2.5, 1e-6, 36., 48., 0.3]


def cases(tier, seed):
    q = tier == 'quick'
    nd = 6 if q else 9
    for dc in range(nd):
        for dh in range(nd):
            for day in range(1, 32):
                if q:
                    yield dict(kind='days', dc=dc, dh=dh, day=day, rot=day % 12)
                else:
                    for rot in range(0, 12):
                        yield dict(kind='days', dc=dc, dh=dh, day=day, rot=rot)
    for s in range(1, 13):
        ls = list(range(1, 41)) + [59, 60, 61, 120] + ([361, 480, 601] if s in (1, 6, 12) else []) if q else \
            list(range(1, 131)) + [240, 360, 361, 480, 601, 1201]
        for n in ls:
            yield dict(kind='range', start=s, length=n)
    for p in itertools.product(range(4), repeat=3):
        yield dict(kind='zero', first=list(p), levels=1 if q else 3)
    for s in (1, 2, 7, 12):
        for n in (1, 12, 25, 40):
            for shape in range(3):
                yield dict(kind='real', start=s, length=n, shape=shape)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


class Month:
    """what a month of the year looks like"""

    def __init__(self, tc, th, pc, ph, dayc, dayh, dc, dh):
        self.t = (tc, th)
        self.peak = (pc, ph)
        self.day = (dayc if pc > 0 else 0, dayh if ph > 0 else 0)
        self.dur = (dc if pc > 0 else 1e-6, dh if ph > 0 else 1e-6)


def expand(lib, months, start, end):
    """the real expansion of these monthly summaries"""
    if 'hl' not in _BASE:
        _BASE['hl'] = [0.] * 8760
    h = _BASE.get('obj')
    if h is None:
        h = L.hybrid(lib, [1.] * 8760, [2.] * 8760)
        _BASE['obj'] = h
    import copy
    h = copy.copy(h)
    h.rejection, h.extraction = copy.copy(h.rejection), copy.copy(h.extraction)
    for k, o in enumerate((h.rejection, h.extraction)):
        n = np.array
        o.monthly_total = [0.] + [m.t[k] for m in months]
        o.monthly_average = [0.] + [m.t[k] / (24. * d) for m, d in
                                    zip(months, L.days())]
        o.monthly_peak = [0.] + [m.peak[k] for m in months]
        o.monthly_peak_day = [0] + [m.day[k] for m in months]
        o.monthly_peak_duration = [0] + [m.dur[k] for m in months]
    h.startmonth, h.endmonth = start, end
    h.load, h.hour, h.sfload = np.array(0), np.array(0), np.array(0)
    h.process_monthly_loads()
    return h


_BASE = {}


def judge(ctx, h, months, start, end, where):
    load = [float(v) for v in np.atleast_1d(h.load)]
    hour = [float(v) for v in np.atleast_1d(h.hour)]
    ctx.check(len(load) == len(hour), where, 'lengths', len(load), len(hour))
    ctx.check(load[0] == 0 and load[1] == 0 and hour[0] == 0, where,
              'does not begin unloaded', load[:3], hour[:3])
    t0, t1 = L.start_hour(start), L.start_hour(end + 1)
    ctx.check(hour[1] == t0, where, 'begins at hour', hour[1], 'expected', t0)
    ctx.check(abs(hour[-1] - t1) < 1e-6, where, 'ends at hour', hour[-1],
              'expected', t1)
    seg = []     # (from, to, level)
    for a, b, v in zip(hour[1:], hour[2:], load[2:]):
        ctx.check(b > a, where, 'time does not go forward:', a, b)
        seg.append((a, b, v))
    sf = [float(v) for v in np.atleast_1d(h.sfload)]
    ctx.check(len(sf) == len(load) and all(
        abs(s - (v - u)) <= 1e-9 * (abs(u) + abs(v) + 1.)
        for s, u, v in zip(sf[1:], load, load[1:])), where,
        'step loads are not the differences of the loads')
    k = 0
    for i in range(start, end + 1):
        a, b = L.start_hour(i), L.start_hour(i + 1)
        part = []
        while k < len(seg) and seg[k][1] <= b + 1e-7:
            part.append(seg[k])
            k += 1
        ctx.check(part and abs(part[0][0] - a) < 1e-6 and
                  abs(part[-1][1] - b) < 1e-6, where, 'month', i,
                  'does not begin and end on a step', part[:1], part[-1:])
        m = months[(i - 1) % 12]
        judge_month(ctx, part, m, a, b, where + ' month %d' % i,
                    i < start + 12 or i > end - 12)
        ctx.count('months')
    ctx.check(k == len(seg), where, 'steps after the end')


def judge_month(ctx, part, m, a, b, where, retained):
    net = m.t[0] - m.t[1]
    got = sum((y - x) * v for x, y, v in part)
    scale = sum((y - x) * abs(v) for x, y, v in part) + m.t[0] + m.t[1]
    # a tail of 1e-6 hours stands for months without load
    ctx.check(abs(got - net) <= 1e-6 * scale + 1e-5 *
              max(abs(v) for _, _, v in part), where, 'holds', got,
              'kWh, expected', net)
    peaks = [(s, m.peak[j], m.day[j], m.dur[j])
             for j, s in ((0, 1.), (1, -1.)) if m.peak[j] > 0]
    if not retained or not peaks or m.day[0] == m.day[1]:
        ctx.check(len({round(v, 9) for _, _, v in part}) == 1, where,
                  'is not constant:', part)
        return
    peaks.sort(key=lambda p: p[2])
    # where the peaks belong if nothing is in the way
    want = []
    for s, p, d, w in peaks:
        mid = a + (d - 1) * 24 + 12.5
        want.append([s * p, mid, w])
    found = []
    for v, mid, w in want:
        if w < 1e-3:
            continue
        # the steps at this level: contiguous, this long in total
        hit = [(x, y) for x, y, u in part if abs(u - v) <= 1e-9 * abs(v)
               and (abs(y - x - w) < 1e-5)]
        ctx.check(len(hit) >= 1, where, 'no step of', v, 'kW for', w,
                  'hours in', part)
        # the closest one (the rest of the month may look the same)
        x, y = min(hit, key=lambda q: abs((q[0] + q[1]) / 2 - mid))
        ctx.check(x >= a - 1e-6 and y <= b + 1e-6, where, 'peak', (x, y),
                  'leaves the month', (a, b))
        found.append((x, y, mid, w))
    if len(found) == 2:
        ctx.check(found[0][1] <= found[1][0] + 1e-6, where,
                  'peaks overlap or are in the wrong order', found)
    ideal = [(mid - w / 2, mid + w / 2) for _, _, mid, w in found]
    apart = len(ideal) < 2 or ideal[0][1] <= ideal[1][0] - 1.
    for (x, y, mid, w), (ix, iy) in zip(found, ideal):
        # clamp to the month
        c = min(max(mid, a + w / 2), b - w / 2)
        others = [q for q in found if q[:2] != (x, y)]
        free = apart and all(
            abs(min(max(q[2], a + q[3] / 2), b - q[3] / 2) - q[2]) < 1e-9
            for q in others)
        if free:
            ctx.check(abs((x + y) / 2 - c) <= 0.51 + 1e-6, where, 'peak', (x, y),
                      'expected around', c)
        else:
            # pushed by the other peak: no further than both need
            reach = sum(q[3] for q in found) + 1.
            ctx.check(abs((x + y) / 2 - mid) <= reach, where, 'peak', (x, y),
                      'far from', mid)
            if others and abs((x + y) / 2 - c) > 0.51 + 1e-6:
                q = others[0]
                ctx.check(min(abs(q[1] - x), abs(q[0] - y)) < 1e-5, where,
                          'peak', (x, y), 'moved although', q[:2],
                          'is not in the way')


def do_days(case, ctx, lib):
    """the month i has rejection peak day `day` and the extraction peak day runs
    over all days, in 12 rotations so that every month sees every pair"""
    dc, dh = DUR[case['dc']], DUR[case['dh']]
    for shift in range(31):
        months = []
        for i, d in enumerate(L.days()):
            k = (i + case['rot']) % 12
            day1 = (case['day'] - 1) % d + 1
            day2 = (shift + k) % d + 1
            months.append(Month(900. + 50 * i, 500. - 30 * i, 9. + i, 7. + .5 * i,
                                day1, day2, dc, dh))
        h = expand(lib, months, 1, 12)
        judge(ctx, h, months, 1, 12, '[rejection day %d, shift %d, durations %g '
              '%g]' % (case['day'], shift, dc, dh))
        ctx.evaluation(case['dc'], case['dh'], case['day'], case['rot'], shift)


def year_of(i, day0=3, dur=5.):
    months = []
    for k, d in enumerate(L.days()):
        months.append(Month(700. + 90 * k + i, 1400. - 70 * k, 8. + k, 15. - k,
                            (day0 + 5 * k) % d + 1, (day0 + 11 + 3 * k) % d + 1,
                            dur + k / 7., dur - k / 5.))
    return months


def do_range(case, ctx, lib):
    s, e = case['start'], case['start'] + case['length'] - 1
    months = year_of(0)
    h = expand(lib, months, s, e)
    judge(ctx, h, months, s, e, '[months %d to %d]' % (s, e))
    ctx.evaluation(s, e)
    ctx.sample(dict(case=case, hour=[float(x) for x in h.hour[:6]],
                    load=[round(float(x), 4) for x in h.load[:6]]))


def do_zero(case, ctx, lib):
    """every month: both loads, rejection only, extraction only, none"""
    for rest in itertools.product(range(4), repeat=3):
        p = (case['first'] + list(rest)) * 2
        for lv in range(case['levels']):
            months = []
            for m, k in zip(year_of(lv, 1 + 9 * lv), p):
                c, h = k in (0, 1), k in (0, 2)
                months.append(Month(m.t[0] * c, m.t[1] * h, m.peak[0] * c,
                                    m.peak[1] * h, m.day[0], m.day[1],
                                    m.dur[0], m.dur[1]))
            h = expand(lib, months, 1, 12)
            judge(ctx, h, months, 1, 12, '[pattern %s]' % p)
            ctx.evaluation(*((p, lv) if set(p) != {3} else ()))


def do_real(case, ctx, lib):
    """through the constructor, durations and all"""
    rej, ext = [0.] * 8760, [0.] * 8760
    for i, (a, b) in enumerate(L.month_slices()):
        for h in range(a, b):
            d, r = divmod(h - a, 24)
            if case['shape'] != 1:
                rej[h] = 1. + i * .2 + (r in (13, 14, 15)) * (2. + .01 * d)
            if case['shape'] != 2 or i % 3:
                ext[h] = 12. - i + (r in (5, 6)) * (4. - .02 * d) * (i != 4)
    s, e = case['start'], case['start'] + case['length'] - 1
    h = L.hybrid(lib, rej, ext, s, e)
    months = []
    for i in range(1, 13):
        c, x = h.rejection, h.extraction
        a, b = L.month_slices()[i - 1]
        months.append(Month(
            sum(rej[a:b]), sum(ext[a:b]), max(rej[a:b]), max(ext[a:b]),
            rej[a:b].index(max(rej[a:b])) // 24 + 1,
            ext[a:b].index(max(ext[a:b])) // 24 + 1,
            c.monthly_peak_duration[i], x.monthly_peak_duration[i]))
    judge(ctx, h, months, s, e, '[real months %d to %d]' % (s, e))
    ctx.evaluation('real', s, e, case['shape'])
