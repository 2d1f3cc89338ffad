"""C10: splitting and monthly summary of hourly loads."""
import itertools

from mc import loads as L
from mc.core import Violation

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('every sequence of hourly loads up to the bound over five levels and '
        'both units is split; every hour of every month is the place of the '
        'monthly peak, with ties at every distance of a list; every subset of '
        'months without load.  Profiles with load count as non-trivial')
BOUNDS = {
    'quick': 'sequences up to 5 of 5 levels; all 744 peak hours x 3 years x 4 '
             'base/tie shapes; all 4096 subsets of empty months',
    'thorough': 'sequences up to 7; all 744 peak hours x 4 years x 9 shapes'}
ASSUMPTIONS = []
FLOOR = 5000
LEVELS = [0., 2000., -3000., 0.25, -0.5]
TIES = [(0., None), (1., None), (1., 1), (1., 24), (0., 100), (0.5, 23),
        (0., 7), (2., 25), (0.1, 400)]


def cases(tier, seed):
    q = tier == 'quick'
    for first in itertools.product(range(5), repeat=2):
        yield dict(kind='split', first=list(first), n=5 if q else 7)
    years = (2019, 2020, 2021) if q else (2019, 2020, 2021, 2100)
    for h in range(744):
        for y in years:
            yield dict(kind='hour', hour=h, year=y, shapes=4 if q else 9)
    for m in range(0, 4096, 16):
        yield dict(kind='empty', mask=m)
    yield dict(kind='length')


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def do_split(case, ctx, lib):
    split = lib.plat.ground_loads.HybridLoad.split_heat_and_cool
    for n in range(2, case['n'] + 1):
        for rest in itertools.product(range(5), repeat=n - 2):
            seq = [LEVELS[i] for i in case['first'] + list(rest)]
            for units, scale in (('W', 1000.), ('kW', 1.)):
                given = list(seq)
                out = split(given, units=units)
                rej, ext = out
                ctx.check(given == seq, 'the loads given were changed')
                ctx.check(len(rej) == len(ext) == n, 'lengths', len(rej), len(ext))
                for q, r, e in zip(seq, rej, ext):
                    ctx.check(r >= 0. and e >= 0. and (r == 0. or e == 0.),
                              'hour', q, 'split into', r, e)
                    ctx.check(abs((e - r) * scale - q) <= 1e-9 * abs(q),
                              'hour', q, units, 'split into', r, e)
                ctx.evaluation(*((seq, units) if any(seq) else ()))
            rw, ew = split(seq)
            r2, e2 = split(seq, units='W')
            ctx.check((rw, ew) == (r2, e2), 'default units')
    if case['first'] == [0, 0]:
        for bad in ('MW', 'w', ''):
            try:
                split([1.], units=bad)
            except ValueError:
                continue
            raise Violation('unit %r accepted' % bad)


def compare(ctx, o, hourly, year, where):
    for i, (a, b) in enumerate(L.month_slices(year), start=1):
        part = hourly[a:b]
        total = sum(part)
        peak = max(part)
        day = part.index(peak) // 24 + 1 if peak > 0 else 0
        for name, got, want in (
                ('total', o.monthly_total[i], total),
                ('average', o.monthly_average[i], total / len(part)),
                ('peak', o.monthly_peak[i], peak)):
            ctx.check(abs(got - want) <= 1e-9 * max(map(abs, part)), where,
                      'month', i, name, got, 'expected', want)
        ctx.check(o.monthly_peak_day[i] == day, where, 'month', i, 'peak day',
                  o.monthly_peak_day[i], 'expected', day)


def do_hour(case, ctx, lib):
    y, h = case['year'], case['hour']
    ms = L.month_slices(y)
    n = ms[-1][1]
    for k, (base, tie) in enumerate(TIES[:case['shapes']]):
        prof = [base] * n
        for m, (a, b) in enumerate(ms, start=1):
            top = base + 1. + 0.01 * m
            at = a + (h + (m - 1) * (k > 1)) % (b - a)
            prof[at] = top
            if tie is not None and at + tie < b:
                prof[at + tie] = top
            # something else going on in the month
            other = a + (at - a + 311) % (b - a)
            if prof[other] == base:
                prof[other] = base + 0.5
        given = list(prof)
        where = '[year %d hour %d shape %d]' % (y, h, k)
        o = L.loads(lib, given, y)
        ctx.check(given == prof, where, 'the loads given were changed')
        compare(ctx, o, prof, y, where)
        ctx.evaluation(y, h, k)
        if k in (0, 2) and h % 6 == y % 6:
            magnitude(ctx, lib, prof, y, where)
        if k == 0 and h % 31 == 0:
            table(ctx, lib, prof, y, where)


def magnitude(ctx, lib, prof, y, where):
    """watts or gigawatts, and a peak that is only a little higher"""
    for scale in (1e-9, 1e-3, 1e6):
        scaled = [scale * v for v in prof]
        compare(ctx, L.loads(lib, scaled, y), scaled, y,
                '%s times %g:' % (where, scale))
        ctx.evaluation('magnitude', scale, y, where)
    near = [v if v < 1. else 5. + 1e-7 * v for v in prof]
    compare(ctx, L.loads(lib, near, y), near, y, where + ' nearly flat')
    ctx.evaluation('near', y, where)


def table(ctx, lib, prof, y, where):
    """the printed peak analysis repeats the numbers, rejection from rejection"""
    n = len(prof)
    shifted = [2. * v for v in prof[100:] + prof[:100]]
    hl = L.hybrid(lib, prof, shifted, year=y)
    compare(ctx, hl.rejection, prof, y, where + ' rejection')
    compare(ctx, hl.extraction, shifted, y, where + ' extraction')
    df = hl.create_dataframe_of_peak_analysis()
    names = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
             'August', 'September', 'October', 'November', 'December']
    ctx.check(list(df.index) == names, where, 'rows', list(df.index))
    for i, name in enumerate(names, start=1):
        for t, o in (('rejection', hl.rejection), ('extraction', hl.extraction)):
            for f, a in (('Total', o.monthly_total), ('Peak', o.monthly_peak),
                         ('Average', o.monthly_average),
                         ('Peak Day', o.monthly_peak_day),
                         ('Peak Duration', o.monthly_peak_duration)):
                got = df.loc[name, (f, t)]
                ctx.check(abs(got - a[i]) <= 1e-9 * max(1., abs(a[i])), where,
                          'table', name, f, t, got, 'expected', a[i])
    ctx.evaluation('table', y, where)


def do_empty(case, ctx, lib):
    for mask in range(case['mask'], case['mask'] + 16):
        prof = [0.] * 8760
        for m, (a, b) in enumerate(L.month_slices()):
            if mask >> m & 1:
                prof[a + 24 * m + m] = 1. + m
        o = L.loads(lib, prof)
        compare(ctx, o, prof, 2019, '[months with load %s]' % bin(mask))
        ctx.evaluation(*((mask,) if mask else ()))


def do_length(case, ctx, lib):
    for year, n, ok in ((2019, 8760, True), (2019, 8759, False),
                        (2019, 8761, False), (2019, 8784, False),
                        (2020, 8784, True), (2020, 8760, False),
                        (2100, 8760, True), (2000, 8784, True), (2019, 24, False),
                        (2019, 0, False)):
        try:
            L.loads(lib, [1.] * n, year)
            got = True
        except (AssertionError, ValueError):
            got = False
        ctx.check(got == ok, n, 'hours in', year,
                  'accepted' if got else 'refused')
        ctx.evaluation()
