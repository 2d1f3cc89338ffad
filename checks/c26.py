"""C26: figures and progress messages."""
import contextlib
import copy
import io
import itertools
import math
import os
import pickle
import shutil
import sys
import tempfile
import warnings
from types import SimpleNamespace

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from mc import lands as LD  # noqa: E402
from mc import loads as L  # noqa: E402
from mc import search as S  # noqa: E402
from mc.fixtures import replaced  # noqa: E402

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('every figure is drawn for a complete lattice of its data and what its '
        'artists hold is compared with the data; every generator and search is '
        'run with and without progress messages.  Figures of more than one '
        'marker or curve count as non-trivial')
BOUNDS = {
    'quick': 'all 63 fields on a 3 x 2 grid in both orders; 4 lands x 3 no-go '
             'zones x 4 fields; candidate lists of 0 to 12 fields; 8 families of '
             'g-functions; all 81 sign patterns of 4 hours at 6 places of the '
             'year; 12 months x 4 selections x 5 profiles; ticks of 5 thresholds x '
             '4 x 4 decades x 4 divisions; progress: 42 lands x 3 routines, 4 '
             'routines x all required sizes; notes given unasked',
    'thorough': 'all 511 fields on a 3 x 3 grid; 6561 sign patterns of 8 hours '
                'at one place; all 17 load profiles; lands of the thorough lattice'}
ASSUMPTIONS = ['the drawing library (matplotlib) draws what its artists hold']
FLOOR = 1000
GRID = [(0., 0.), (5., 0.), (10.5, 0.), (0., 6.), (5., 6.), (10.5, 6.),
        (0., 13.), (5., 13.), (10.5, 13.)]
LANDS = [[[0., 0.], [20., 0.], [20., 10.], [0., 10.]],
         [[0., 0.], [18., 3.], [7.5, 22.]],
         [[-5., -5.], [5., -5.], [8., 0.], [5., 5.], [-5., 5.]], []]
NOGO = [None, [[1., 1.], [4., 1.], [4., 3.]],
        [[2., 2.], [8., 2.], [8., 4.], [5., 3.], [2., 4.]]]
FIELDS = [[], [(3., 4.)], [(0., 0.), (5., 0.), (0., 6.)],
          [(1.5 * i, 2. * j) for i in range(5) for j in range(4)]]
HOURS = [[0, 1, 2, 3, 4, 5, 6, 7], [23, 24, 743, 744, 745, 1000, 1415, 1416],
         [4000, 4001, 4003, 4007, 4015, 4031, 4063, 4127],
         [8759, 8758, 8736, 8735, 8016, 8015, 7000, 7001],
         [0, 8759, 100, 5000, 744, 2160, 3000, 6551],
         [12, 1428, 2172, 2892, 3636, 4356, 5100, 5844]]


def cases(tier, seed):
    q = tier == 'quick'
    n = 6 if q else 9
    for first in range(0, 2 ** n, 16):
        yield dict(kind='fields', n=n, frm=first)
    for l in range(len(LANDS)):
        for g in range(len(NOGO)):
            yield dict(kind='land', land=l, nogo=g)
    for n in range(0, 13, 3):
        yield dict(kind='domain', n=n)
    yield dict(kind='domain', n=130 if q else 999)
    for f in range(8):
        yield dict(kind='family', n=f)
    for p in range(len(HOURS)):
        yield dict(kind='hours', place=p, n=4)
    if not q:
        for c in range(27):
            yield dict(kind='hours', place=4, n=8, frm=c)
    for p in range(5 if q else 17):
        yield dict(kind='twoday', profile=p)
    for t in (0.01, 0.1, 1., 10., 3.):
        yield dict(kind='ticks', linthresh=t)
    k = 8
    for i in range(k):
        yield dict(kind='progress', part=i, of=k)
    yield dict(kind='notes')
    for r in ('near-square', 'rectangle', 'bi-rectangle', 'bi-zoned'):
        for f in range(2):
            yield dict(kind='searches', routine=r, flow=f)


def run_case(case, ctx, lib):
    try:
        globals()['do_' + case['kind']](case, ctx, lib)
    finally:
        plt.close('all')


# ---------------------------------------------------------------------------
# what a figure shows
# ---------------------------------------------------------------------------
def dotted(line):
    return line.get_linestyle() in ('None', 'none', '', ' ')


def markers(ax, label=None):
    """the positions of all markers that are not joined by a line"""
    out = []
    for c in ax.collections:
        if hasattr(c, 'get_offsets') and (label is None or label(c.get_label())):
            out += [tuple(map(float, p)) for p in np.asarray(c.get_offsets())]
    for l in ax.lines:
        if dotted(l) and (label is None or label(l.get_label())):
            out += [tuple(map(float, p)) for p in zip(*l.get_data())]
    return out


def curves(ax):
    return [[tuple(map(float, p)) for p in zip(*l.get_data())]
            for l in ax.lines if not dotted(l)]


def same(a, b):
    return LD.same_points(a, b, 1e-6)


def outline(pts, poly):
    """the closed line goes once around the corners, in order"""
    poly = [tuple(map(float, p)) for p in poly]
    if len(pts) != len(poly) + 1 or pts[0] != pts[-1]:
        return False
    ring, n = pts[:-1], len(poly)
    return any(all(ring[(k + d * i) % n] == poly[i] for i in range(n))
               for k in range(n) for d in (1, -1))


def figure(ctx, pair, where):
    ctx.check(isinstance(pair, tuple) and len(pair) == 2, where, 'gives', pair)
    return pair[1]


# ---------------------------------------------------------------------------
def do_fields(case, ctx, lib):
    show = lib.dt.coordinates.visualize_coordinates
    for mask in range(max(1, case['frm']), min(case['frm'] + 16, 2 ** case['n'])):
        pts = [p for i, p in enumerate(GRID) if mask >> i & 1]
        for order in (pts, pts[::-1]):
            field = copy.deepcopy(order)
            ax = figure(ctx, show(field), 'visualize_coordinates')
            ctx.check(same(markers(ax), order), 'the figure of', order, 'shows',
                      markers(ax))
            ctx.check(field == order, 'drawing altered', order)
            g = lib.dt.gfunction.GFunction(5., {100.: 0.075}, {100.: 2.},
                                           {100.: [1., 2.]}, [-1., 0.], field)
            ax = figure(ctx, g.visualize_borefield(), 'visualize_borefield')
            ctx.check(same(markers(ax), order), 'the borefield', order, 'shows',
                      markers(ax))
            other = [(x + 1., 2. * y) for x, y in order[1:] + [(7., 7.)]]
            ax = figure(ctx, g.visualize_borefield(other), 'visualize_borefield')
            ctx.check(same(markers(ax), other), 'the borefield', other, 'shows',
                      markers(ax))
            ctx.check(g.bore_locations == order, 'drawing altered the field')
            ctx.evaluation(*([mask, order is pts] if len(pts) > 1 else []))
            plt.close('all')


def do_land(case, ctx, lib):
    show = lib.dt.gfunction.GFunction.visualize_area_and_constraints
    land, hole = LANDS[case['land']], NOGO[case['nogo']]
    for field in FIELDS:
        for passed in ('keyword', 'position', 'left out'):
            if passed == 'left out' and hole is not None:
                continue
            args = copy.deepcopy((land, field, hole))
            if passed == 'keyword':
                pair = show(args[0], args[1], no_go=args[2])
            elif passed == 'position':
                pair = show(*args)
            else:
                pair = show(*args[:2])
            ax = figure(ctx, pair, 'visualize_area_and_constraints')
            where = 'land %s, no-go %s, %d boreholes' % (land, hole, len(field))
            ctx.check(args == (land, field, hole), 'drawing altered the data of',
                      where)
            ctx.check(same(markers(ax), field), where, 'shows', markers(ax))
            want = [p for p in (land, hole) if p]
            got = curves(ax)
            ctx.check(len(got) == len(want), where, 'has', len(got), 'outlines')
            for w in want:
                hit = [i for i, c in enumerate(got) if outline(c, w)]
                ctx.check(hit, where, 'lacks the outline of', w, 'shows', got)
                del got[hit[0]]
            cols = [l.get_color() for l in ax.lines if not dotted(l)]
            ctx.check(len(set(map(str, cols))) == len(want), where, 'draws land '
                      'and no-go zone alike', cols)
            ctx.evaluation(*([case['land'], case['nogo'], len(field)]
                             if want else []))
            plt.close('all')


def do_domain(case, ctx, lib):
    show = lib.dt.domains.visualize_domain
    scratch = tempfile.mkdtemp(prefix='c26.')
    F = matplotlib.figure.Figure
    real = F.savefig
    try:
        many = case['n'] > 50       # the pictures themselves are left out
        for n in range(case['n'], case['n'] + (1 if many else 3)):
            for folder in ('new',) if many else ('new', 'there', 'a/b'):
                base = os.path.join(scratch, str(n))
                out = os.path.join(base, folder)
                os.makedirs(out if folder == 'there' else base, exist_ok=True)
                fields = [[(5. * i + j, 2. * (i % (j + 1))) for i in range(1 + k + j)]
                          for j, k in enumerate([(3 * i) % 7 for i in range(n)])]
                saved = {}

                def save(self, name, *a, **k):
                    k['dpi'] = 10
                    path = os.path.realpath(str(name))
                    ctx.check(path.startswith(os.path.realpath(out) + os.sep),
                              'a picture goes to', path, 'not into', out)
                    saved[os.path.basename(path)] = [
                        m for ax in self.axes for m in markers(ax)]
                    if many:
                        with open(path, 'w') as f:
                            f.write('picture')
                        return None
                    return real(self, name, *a, **k)
                given = copy.deepcopy(fields)
                with replaced([(F, 'savefig', save)]):
                    show(given, out)
                ctx.check(given == fields, 'drawing altered the candidates')
                files = sorted(os.listdir(out))
                ctx.check(len(files) == n, len(files), 'pictures of', n, 'fields')
                for i, f in enumerate(files):
                    pts = saved.get(f, saved.get(os.path.splitext(f)[0]))
                    ctx.check(pts is not None and same(pts, fields[i]), 'picture',
                              f, 'of field', i, 'shows', pts)
                    ctx.check(os.path.getsize(os.path.join(out, f)) > 0,
                              'an empty picture', f)
                ctx.evaluation(*([n, folder] if n > 1 else []))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_family(case, ctx, lib):
    n = case['n']
    hs = [[100.], [60., 120.], [8., 24., 96.], [24., 48., 96., 192., 384.],
          [384., 96., 8.], [50., 75., 100., 125., 150.], [1., 8.],
          [10. * i for i in range(1, 13)]][n]
    for B in (5., 7., 12.):
        lt = lib.log_time()
        g = lib.gfunction(B=B, heights=hs, locations=[(0., 0.), (B, 0.)],
                          log_time=lt)
        before = pickle.dumps((g.B, g.r_b_values, g.D_values, g.g_lts, g.log_time,
                               g.bore_locations))
        ax = figure(ctx, g.visualize_g_functions(), 'visualize_g_functions')
        after = pickle.dumps((g.B, g.r_b_values, g.D_values, g.g_lts, g.log_time,
                              g.bore_locations))
        ctx.check(before == after, 'drawing altered the g-functions')
        lines = [l for l in ax.lines if len(l.get_xdata()) == len(lt)]
        ctx.check(len(lines) == len(hs), len(lines), 'curves of', hs)
        texts = {t.get_text() for t in ax.texts}
        for h in hs:
            want = '%d/%d' % (B, h)
            hit = [l for l in lines if l.get_label() == want]
            ctx.check(len(hit) == 1, 'the curve of', want, 'is missing: ',
                      [l.get_label() for l in lines])
            x, y = hit[0].get_data()
            ctx.close(list(map(float, x)), lt, 'times of the curve ' + want)
            ctx.close(list(map(float, y)), g.g_lts[h], 'values of the curve ' + want)
            ctx.check(any(_number(t) is not None and
                          abs(_number(t) - B / h) <= 0.6e-4 for t in texts),
                      'no curve is marked', B / h, sorted(texts))
        ctx.evaluation(*([n, B] if len(hs) > 1 else []))
        plt.close('all')


def _number(t):
    try:
        return float(t)
    except ValueError:
        return None


def do_hours(case, ctx, lib):
    hours = HOURS[case['place']][:case['n']]
    pats = list(itertools.product((0., 1., -1.), repeat=case['n']))
    if 'frm' in case:
        pats = pats[case['frm']::27 * 9]
    h = None
    for s, pat in enumerate(pats):
        q = [0.] * 8760
        for i, (hr, sign) in enumerate(zip(hours, pat)):
            q[hr] = sign * (1500. + 250. * i)
        rej, ext = lib.plat.ground_loads.HybridLoad.split_heat_and_cool(q)
        if h is None or s % 27 == 0:
            h = L.hybrid(lib, rej, ext, 1, 24)
        else:           # the figure shows the hourly loads and nothing else
            h = copy.copy(h)
            h.rejection, h.extraction = copy.copy(h.rejection), copy.copy(h.extraction)
            h.rejection.hourly, h.extraction.hourly = rej, ext
        fig = h.visualize_hourly_heat_extraction()
        ax = fig.axes[0]
        for name, keep in (('extraction', lambda v: v > 0),
                           ('rejection', lambda v: v < 0)):
            want = [(float(i), v / 1000.) for i, v in enumerate(q) if keep(v)]
            got = markers(ax, lambda l: name in l.lower())
            ctx.check(same(got, want), 'the figure of', want, 'shows', got, 'as',
                      name)
        ctx.check(len(markers(ax)) == sum(v != 0 for v in q), 'markers', markers(ax))
        ctx.check(rej == [max(0., -v) / 1000. for v in q] and
                  ext == [max(0., v) / 1000. for v in q], 'drawing altered the loads')
        ctx.evaluation(*([case['place'], pat] if sum(map(abs, pat)) > 1 else []))
        plt.close('all')


def profile(p):
    q = [0.] * 8760
    rng = [(7 * p + 3) % 11 + 1, (5 * p + 2) % 13 + 1]
    for m, (a, b) in enumerate(L.month_slices()):
        if p == 4 and m in (0, 5, 11):
            continue                    # months without load
        d = (3 * m + 5 * p) % ((b - a) // 24)
        for i in range(a, b):
            h = (i - a) % 24
            q[i] = 200. * math.cos(i * rng[0] / 50.)
            if (i - a) // 24 == d and (10 - p % 5) <= h <= 15:
                q[i] = -3000. - 100. * m
            if (i - a) // 24 == (d + 9) % 28 and 3 <= h <= 5 + p % 7:
                q[i] = 4000. - 150. * m
    if p == 2:
        q = [max(v, 0.) for v in q]
    if p == 3:
        q = [min(v, 0.) for v in q]
    return q


def do_twoday(case, ctx, lib):
    q = profile(case['profile'])
    rej, ext = lib.plat.ground_loads.HybridLoad.split_heat_and_cool(q)
    h = L.hybrid(lib, rej, ext, 1, 24)

    def keep():
        return pickle.dumps([(x.monthly_two_day_fluid_temps_pk,
                              x.monthly_two_day_fluid_temps_nm,
                              x.monthly_peak_duration, x.hourly)
                             for x in (h.rejection, h.extraction)])
    before = keep()
    for m in range(1, 13):
        for e, r in itertools.product((True, False), repeat=2):
            fig = h.visualize_fluid_simulation_results(m, extraction=e, rejection=r)
            ax = fig.axes[0]
            where = 'month %d, extraction %s, rejection %s:' % (m, e, r)
            labels = {}
            for l in ax.lines:
                if not l.get_label().startswith('_'):
                    ctx.check(l.get_label() not in labels, where, 'two curves named',
                              l.get_label())
                    labels[l.get_label()] = [list(map(float, v))
                                             for v in l.get_data()]
            want = {}
            for on, name, x in ((e, 'Extraction', h.extraction),
                                (r, 'Rejection', h.rejection)):
                if on:
                    want['Peak ' + name] = x.monthly_two_day_fluid_temps_pk[m]
                    want[name] = x.monthly_two_day_fluid_temps_nm[m]
            ctx.check(set(labels) == set(want), where, 'shows', sorted(labels))
            for k, v in want.items():
                ctx.check(labels[k][0] == list(range(49)), where, 'hours of', k)
                ctx.close(labels[k][1], list(map(float, v)),
                          '%s curve %s' % (where, k))
            marks = [(float(x.monthly_peak_duration[m]),
                      float(max(x.monthly_two_day_fluid_temps_nm[m])))
                     for on, x in ((e, h.extraction), (r, h.rejection)) if on]
            got = [tuple(map(float, p)) for c in ax.collections
                   for p in np.asarray(c.get_offsets())]
            ctx.check(same(got, marks), where, 'marks', got, 'not', marks)
            ticks = list(map(float, ax.get_xticks()))
            for d, _ in marks:
                ctx.check(min(abs(t - d) for t in ticks) <= 0.051, where,
                          'no tick at the duration', d, ticks)
            ctx.evaluation(*([case['profile'], m, e, r] if e or r else []))
            plt.close('all')
    ctx.check(keep() == before, 'drawing altered the loads')


def do_ticks(case, ctx, lib):
    T = lib.dt.utilities.MinorSymLogLocator
    t = case['linthresh']
    for lo, hi, n in itertools.product(range(4), range(4), (4, 5, 10, 20)):
        if lo == 0 and hi == 0:
            continue
        # majors: -t*10^lo' ... -t, 0, t ... (none on a side with 0)
        majors = [-t * 10. ** k for k in range(lo - 1, -1, -1)] + [0.] + \
                 [t * 10. ** k for k in range(hi)]
        loc = T(t) if n == 10 else T(t, nints=n) if n == 5 else T(t, n)
        given = np.array(majors)
        loc.axis = SimpleNamespace(get_majorticklocs=lambda: given)
        for again in range(2):
            got = sorted(map(float, loc()))
            ctx.check(list(given) == majors, 'the major ticks were altered')
            for a, b in zip(majors, majors[1:]):
                parts = n if abs(a + b) / 2. < t else n - 1
                want = [a + (b - a) * i / parts for i in range(1, parts)]
                eps = (b - a) * 1e-6
                inner = [x for x in got if a + eps < x < b - eps]
                ctx.close(inner, want, 'minor ticks between %s and %s (threshold '
                          '%s, %d)' % (a, b, t, n), rel=1e-9, abs_=eps)
        ctx.evaluation(t, lo, hi, n)
    loc = T(t)
    loc.axis = SimpleNamespace(get_majorticklocs=lambda: np.array([0.]))
    ctx.check(len(loc()) == 0, 'minor ticks around a single major tick')
    refused = False
    try:
        T(t).tick_values(0., 1.)
    except NotImplementedError:
        refused = True
    ctx.check(refused, 'tick_values() answers without an axis')


# ---------------------------------------------------------------------------
def told(fn, *a, **k):
    """result (or the refusal) and the messages"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = fn(*a, **k)
        except ValueError as e:
            r = 'ValueError: %s' % e
    return r, out.getvalue()


def do_progress(case, ctx, lib):
    D = lib.dt.domains
    for i, land in enumerate(LD.lattice(ctx.tier)):
        if i % case['of'] != case['part']:
            continue
        if ctx.tier == 'quick' and i // case['of'] % 8:
            continue
        Lx, Ly, bmin, bx, by = LD.Land(land).floats()
        jobs = [(D.rectangular, (Lx, Ly, bmin, bx)),
                (D.bi_rectangular, (Lx, Ly, bmin, bx, by)),
                (D.bi_rectangle_nested, (Lx, Ly, bmin, bx, by))]
        for fn, args in jobs:
            quiet, said0 = told(fn, *args)
            loud, said1 = told(fn, *args, disp=True)
            ctx.check(quiet == loud, 'asking for messages changes', fn.__name__,
                      args)
            ctx.check(said0 == '', fn.__name__, 'talks unasked:', said0[:80])
            ctx.check(said1 != '' or isinstance(quiet, str) or not any(quiet),
                      fn.__name__, 'says nothing', args)
            ctx.evaluation(*([fn.__name__, args] if len(quiet) > 1 else []))
    for a, b in itertools.product((-1, 0, 1), repeat=2):
        f = lib.dt.utilities.check_bracket
        want = f(a, b)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.check(f(a, b, disp=True) == want and f(a, b, disp=False) == want,
                      'check_bracket of', a, b, 'depends on disp')


def do_searches(case, ctx, lib):
    r = case['routine']
    flow = ('borehole', 'system')[case['flow']]
    for land in ((20., 15., 4., 8., 6.), (12., 20., 3., 5., 5.)):
        Lx, Ly, bmin, bx, by = land
        gc = dict(length=Lx, width=Ly, B_min=bmin, B_max_x=bx, B_max_y=by)
        if r == 'near-square':
            gc = dict(length=20., B=5.)
        elif r == 'rectangle':
            del gc['B_max_y']
        d = LD.design(lib, r, gc)
        lists = getattr(d, 'coordinates_domain_nested', None) or \
            [d.coordinates_domain]
        counts = sorted({len(f) for l in lists for f in l})
        for T in [counts[0] - 1] + counts + [counts[-1] + 1]:
            def go(*a, **k):
                w = S.World(lib, lambda key, H, ghe:
                            10. * ((T - 0.3) * 147. / (len(key) * H) - 1.))
                with S.seam(w):
                    s = LD.design(lib, r, gc, flow=flow).find_design(*a, **k)
                return (S.key_of(s.selected_coordinates), float(s.ghe.bhe.b.H),
                        list(map(float, s.ghe.HPEFT)), w.log)
            quiet, said0 = told(go)
            loud, said1 = told(go, disp=True)
            no, said2 = told(go, False)
            where = '%s with %s flow on %s for %d' % (r, flow, land, T)
            ctx.check(quiet == loud == no, 'asking for messages changes the '
                      'design:', where, quiet[:2], loud[:2])
            ctx.check(said0 == '' and said2 == '', where, 'talks unasked:',
                      said0[:80])
            ctx.check(said1 != '', where, 'says nothing')
            ctx.evaluation(r, flow, land, T)


def do_notes(case, ctx, lib):
    """the two notes that are given unasked: to whom they apply, and only to them"""
    for r in ('near-square', 'rectangle', 'bi-rectangle', 'bi-zoned'):
        gc = dict(length=20., width=15., B_min=4., B_max_x=8., B_max_y=6.)
        if r == 'near-square':
            gc = dict(length=20., B=5.)
        elif r == 'rectangle':
            del gc['B_max_y']
        for method in ('hybrid', 'hourly'):
            d, said = told(LD.design, lib, r, gc, method=method)
            ctx.check((said != '') == (method == 'hourly') and
                      ('hourly' in said) == (method == 'hourly'),
                      r, 'by the', method, 'method says', said[:80])
            ctx.evaluation(r, method)
    for n in (10, 2499, 2500, 2501, 2600):
        fields = [S.line(k) for k in (1, 2, n)]

        def go():
            w = S.World(lib, lambda key, H, ghe: 5. if len(key) < 2 else -5.)
            err = io.StringIO()
            with S.seam(w), contextlib.redirect_stderr(err), \
                    replaced([(sys.__stderr__, err)]), \
                    warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                lib.dt.search_routines.Bisection1D(fields, **S.inputs(lib))
            return err.getvalue() + ''.join(str(x.message) for x in ws)
        said, out = told(go)
        ctx.check(out == '' and ('2500' in said) == (n > 2500), 'a list of up to', n,
                  'boreholes says', said[:80], out[:80])
        ctx.evaluation('info', n)
