"""C24: helpers for geometry, calendar, flow and statistics."""
import copy
import itertools
import math
from fractions import Fraction as F
from types import SimpleNamespace

import numpy as np

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('every helper on a complete lattice of its arguments against exact '
        '(rational or integer) arithmetic; non-trivial: more than one borehole, '
        'corner, pipe pair or month')
BOUNDS = {
    'quick': 'counts to 120 x 60 spacings; all lattice triangles and quadrangles of '
             'a 4 x 3 grid in all rotations; 1 to 6 pipe pairs; 480 months',
    'thorough': 'counts to 400 x 300 spacings; 5 x 4 grid; 2400 months'}
ASSUMPTIONS = []
FLOOR = 5000


def cases(tier, seed):
    q = tier == 'quick'
    n = 60 if q else 300
    for i in range(0, n, 10):
        yield dict(kind='counts', frm=i + 1, n=120 if q else 400)
    w, h = (4, 3) if q else (5, 4)
    for a in itertools.product(range(w), range(h)):
        yield dict(kind='area', first=list(a), w=w, h=h)
    yield dict(kind='perimeter')
    yield dict(kind='spacing', n=8 if q else 14)
    yield dict(kind='signs')
    yield dict(kind='pipes', n=6 if q else 9)
    yield dict(kind='calendar', n=480 if q else 2400)
    yield dict(kind='reynolds')
    yield dict(kind='domain')
    yield dict(kind='mpe')
    yield dict(kind='root')
    yield dict(kind='coordinates')
    yield dict(kind='times')


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


# the 27 points in time of Eskilson's g-functions
TIMES = [-8.5, -7.8, -7.2, -6.5, -5.9, -5.2, -4.5, -3.963, -3.27, -2.864, -2.577,
         -2.171, -1.884, -1.191, -0.497, -0.274, -0.051, 0.196, 0.419, 0.642, 0.873,
         1.112, 1.335, 1.679, 2.028, 2.275, 3.003]


def do_times(case, ctx, lib):
    f = lib.dt.utilities.Eskilson_log_times
    for n in range(3):
        got = f()
        ctx.check(list(map(float, got)) == TIMES, 'points in time', got)
        got[n] = 100.           # the list is the caller's
        ctx.evaluation()


def do_counts(case, ctx, lib):
    ut = lib.dt.utilities
    for i in range(case['frm'], case['frm'] + 10):
        B = i / 7. + 0.3 if i % 3 == 0 else i / 10. + 2.
        for N in range(1, case['n'] + 1):
            L = ut.length_of_side(N, B)
            ctx.close(L, (N - 1) * B, 'side of %d at %s' % (N, B), rel=1e-12)
            for f in (None, np.floor, np.ceil):
                got = ut.number_of_boreholes(L, B) if f is None else \
                    ut.number_of_boreholes(L, B, func=f)
                ctx.check(got == N and isinstance(got, (int, np.integer)), 'boreholes along', L, 'at', B, 'with',
                          f, 'are', got, 'not', N)
            if N > 1:
                b = ut.spacing_along_length(L, N)
                ctx.close(b, B, 'spacing of %d along %s' % (N, L), rel=1e-12)
                ctx.check(ut.number_of_boreholes(L, b) == N and
                          ut.number_of_boreholes(L, b, func=np.floor) == N,
                          'boreholes along', L, 'at', b)
            # in between
            for x in (0.25, 0.5, 0.999, 0.001):
                m = L + x * B
                ctx.check(ut.number_of_boreholes(m, B) == N + 1, 'boreholes along',
                          m, 'at', B, 'rounded up')
                ctx.check(ut.number_of_boreholes(m, B, func=np.floor) == N,
                          'boreholes along', m, 'at', B, 'rounded down')
            ctx.evaluation(*([N, B] if N > 1 else []))


def exact_area(c):
    s = sum(F(a[0]) * F(b[1]) - F(b[0]) * F(a[1])
            for a, b in zip(c, c[1:] + c[:1]))
    return abs(s) / 2


def do_area(case, ctx, lib):
    f = lib.dt.utilities.polygonal_area
    pts = list(itertools.product(range(case['w']), range(case['h'])))
    p0 = tuple(case['first'])
    for n in (2, 3):
        for rest in itertools.permutations([p for p in pts if p != p0], n):
            c = [p0] + list(rest)
            want = float(exact_area(c))
            ctx.close(f([list(p) for p in c]), want, 'area of %s' % c, abs_=1e-12)
            ctx.close(f(tuple(c[::-1])), want, 'area of %s' % c[::-1], abs_=1e-12)
            ctx.evaluation('area', c)
    # many corners: stairs and combs
    if case['first'] == [0, 0]:
        for n in (5, 16, 32, 33, 64, 100, 500):
            c = [(0, 0), (n, 0)]
            for i in range(n):
                c += [(n - i, i + 1), (n - i - 1, i + 1)]
            comb = [(0, -1), (2 * n, -1)]
            for i in range(n):
                comb += [(2 * (n - i), i % 3 + 1), (2 * (n - i) - 1, i % 3 + 1),
                         (2 * (n - i) - 1, 0), (2 * (n - i) - 2, 0)]
            for p in (c, comb, c[::-1], comb[7:] + comb[:7]):
                ctx.close(f([list(q) for q in p]), float(exact_area(p)),
                          'area of %d corners' % len(p), rel=1e-12)
                ctx.evaluation('many', n, len(p))
    # moved and scaled
    for dx, dy, s in ((10.25, -4.5, 2.5), (1000., 1000., 0.5)):
        for q, r in itertools.permutations([p for p in pts if p != p0], 2):
            c = [p0, q, r, (0, 0)]
            ctx.close(f([(dx + s * x, dy + s * y) for x, y in c]),
                      float(exact_area(c)) * s * s, 'area of moved %s' % c,
                      abs_=1e-8)
            ctx.evaluation()


def do_perimeter(case, ctx, lib):
    ut = lib.dt.utilities
    for lx, ly in itertools.product((0.5, 1., 20., 36.25, 100.), repeat=2):
        for o in (None, (0, 0), (3., 4.), (-2.5, 7.), [10., 0.]):
            c = ut.make_rectangle_perimeter(lx, ly) if o is None else \
                ut.make_rectangle_perimeter(lx, ly, origin=o)
            x, y = o or (0, 0)
            want = [(x, y), (x + lx, y), (x + lx, y + ly), (x, y + ly)]
            got = [tuple(p) for p in c]
            # the same closed polygon, whatever corner and sense it begins with
            rot = [[w[(k * d + i) % 4] for k in range(4)]
                   for w in [want] for i in range(4) for d in (1, -1)]
            ctx.check(any(np.allclose(got, r, rtol=1e-12, atol=1e-12) for r in rot)
                      and len(got) == 4, 'rectangle', lx, ly, o, 'has corners', got)
            ctx.close(ut.polygonal_area(c), lx * ly, 'area of rectangle')
            ctx.evaluation('perimeter', lx, ly, o)


def do_spacing(case, ctx, lib):
    ut = lib.dt.utilities
    n = case['n']
    for r in (0.05, 0.075, 3.):
        b = lib.borehole(100., r_b=r)
        for p in itertools.product((0., 2.5, -1.), repeat=2):
            ctx.close(ut.borehole_spacing(b, [p]), r, 'spacing of one', abs_=0.)
            for i, j in itertools.product(range(-n, n), repeat=2):
                q = (p[0] + i * 0.75, p[1] + j * 0.5)
                for more in ([], [(100., 100.)], [p]):
                    B = ut.borehole_spacing(b, [p, q] + more)
                    want = max(r, math.hypot(i * 0.75, j * 0.5))
                    ctx.close(B, want, 'spacing of %s' % ([p, q] + more), rel=1e-12)
                ctx.evaluation('spacing', r, p, q)
        ctx.close(b.r_b, r, 'borehole radius', abs_=0.)


def do_signs(case, ctx, lib):
    ut = lib.dt.utilities
    vals = (-1e300, -3., -1, -1e-9, -5e-324, -0., 0, 0., 5e-324, 1e-9, 1, 2.5,
            1e300, np.float64(2), np.float64(-2), float('inf'), float('-inf'))
    for x in vals:
        s = ut.sign(x)
        ctx.check(s == (1 if x > 0 else -1), 'sign of', x, 'is', s)
        ctx.evaluation('sign', x)
    for a, b in itertools.product(vals, repeat=2):
        for sa, sb in ((a, b), (ut.sign(a), ut.sign(b))):
            got = ut.check_bracket(sa, sb)
            want = sa < 0 < sb or sb < 0 < sa
            ctx.check(got == want and got in (True, False), 'bracket of', sa, sb,
                      'is', got)
            ctx.evaluation('bracket', sa, sb)


def do_pipes(case, ctx, lib):
    P = lib.plat.media.Pipe
    for n in range(1, case['n'] + 1):
        for s, r in itertools.product((0., 0.0323, 0.05, 0.1), (0.01, 0.013335, 0.02)):
            pos = P.place_pipes(s, r, n)
            where = '%d pairs, shank %s, radius %s:' % (n, s, r)
            ctx.check(len(pos) == 2 * n, where, len(pos), 'pipes')
            R = s / 2 + r
            for p in pos:
                ctx.close(math.hypot(*p), R, where + ' distance to the axis')
            # evenly spread
            a = sorted(math.atan2(p[1], p[0]) % (2 * math.pi) for p in pos)
            gaps = [(y - x) % (2 * math.pi) for x, y in zip(a, a[1:] + a[:1])]
            ctx.close(gaps, [math.pi / n] * (2 * n), where + ' angles', abs_=1e-7)
            # every pipe has one across, the shank spacing away
            for p in pos:
                d = max(math.hypot(p[0] - q[0], p[1] - q[1]) for q in pos)
                ctx.close(d - 2 * r, s, where + ' shank spacing')
            # neighbours within the list form the legs of one tube
            for i in range(n):
                d = math.hypot(pos[2 * i][0] - pos[2 * i + 1][0],
                               pos[2 * i][1] - pos[2 * i + 1][1])
                ctx.close(d, 2 * R * math.sin(math.pi / 2 / n), where + ' leg pair')
            pipe = P(pos, 0.9 * r, r, s, 1e-6, 0.4, 1542e3)
            ctx.check(pipe.n_pipes == n, where, 'counts', pipe.n_pipes)
            ctx.evaluation(*([n, s, r] if n > 1 else []))
    ctx.check(lib.pipe('coaxial').n_pipes == 1, 'a coaxial pipe counts',
              lib.pipe('coaxial').n_pipes)


DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
NAMES = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August',
         'September', 'October', 'November', 'December']


def do_calendar(case, ctx, lib):
    gl = lib.plat.ground_loads
    end = 0
    for m in range(1, case['n'] + 1):
        d = DAYS[(m - 1) % 12]
        ctx.check(gl.monthdays(m) == d, 'days of month', m, 'are', gl.monthdays(m))
        ctx.check(gl.firstmonthhour(m) == end + 1, 'first hour of month', m, 'is',
                  gl.firstmonthhour(m), 'not', end + 1)
        end += 24 * d
        ctx.check(gl.lastmonthhour(m) == end, 'last hour of month', m, 'is',
                  gl.lastmonthhour(m), 'not', end)
        ctx.evaluation('month', m)
    ctx.check(gl.lastmonthhour(0) == 0, 'hours before the first month',
              gl.lastmonthhour(0))
    for i, nm in enumerate(NAMES):
        ctx.check(gl.number_to_month(i + 1) == nm, 'month', i + 1, 'is',
                  gl.number_to_month(i + 1))
        ctx.check(gl.monthindex(nm) == i + 1, nm, 'is', gl.monthindex(nm))
        ctx.evaluation('name', nm)
    for x in (0, 13, -1):
        ctx.check(gl.number_to_month(x) is None, 'month', x, 'is named')
    for x in ('', 'january', 'Jan', None):
        ctx.check(gl.monthindex(x) is None, 'month', x, 'is numbered')


def do_reynolds(case, ctx, lib):
    bh = lib.BHX
    for m, r, e, rho, mu in itertools.product(
            (0.01, 0.2, 1.5), (0.01, 0.0217), (1e-6, 1e-4), (998., 1050.),
            (1e-3, 5e-3)):
        f = SimpleNamespace(rho=rho, mu=mu)
        ctx.close(bh.compute_Reynolds(m, r, e, f), 2 * m / (math.pi * r * mu),
                  'Reynolds number of %s kg/s' % m)
        for R in (1.2 * r, 3 * r):
            ctx.close(bh.compute_Reynolds_concentric(m, r, R, f),
                      2 * m / (math.pi * (r + R) * mu), 'annulus Reynolds number')
        ctx.evaluation('Re', m, r, e, rho, mu)


def do_domain(case, ctx, lib):
    dm = lib.dt.domains
    vals = (-2., -0.5, 0., 1.5)
    for n in range(1, 6):
        for v in itertools.product(vals, repeat=n):
            d, uni = dm.verify_excess(list(v))
            want = [b - a for a, b in zip(v, v[1:])]
            ctx.close(d, want, 'differences of %s' % (v,))
            ctx.check(uni == all(x <= 0 for x in want), 'unimodality of', v, uni)
            ctx.evaluation('excess', v)
    for n in range(0, 6):
        for sizes in itertools.product((1, 2, 3), repeat=n):
            dom = [[(float(i), float(j)) for j in range(k)]
                   for i, k in enumerate(sizes)]
            keep = copy.deepcopy(dom)
            got = dm.reorder_domain(dom)
            ctx.check(dom == keep, 'reordering alters the domain given')
            ctx.check(sorted(got) == sorted(keep), 'reordering loses fields', sizes)
            ctx.check([len(c) for c in got] == sorted(sizes), 'reordered', sizes,
                      'to', [len(c) for c in got])
            ctx.evaluation('reorder', sizes)


def do_mpe(case, ctx, lib):
    f = lib.dt.utilities.compute_mpe
    vals = (-2., 1., 4.)
    for n in range(1, 4):
        for a in itertools.product(vals, repeat=n):
            for p in itertools.product((0.,) + vals, repeat=n):
                want = 100. * sum((x - y) / y for x, y in zip(p, a)) / n
                ctx.close(f(list(a), list(p)), want, 'percentage error %s %s'
                          % (a, p))
                ctx.evaluation('mpe', a, p)


def do_root(case, ctx, lib):
    f = lib.plat.equivalance.solve_root
    for r in [i / 8. for i in range(1, 160)]:
        for lo, up in ((1., 10.), (0.5, 12.25), (3., 4.), (None, None)):
            x0 = 1.25
            L = x0 / 100. if lo is None else lo
            U = x0 * 10. if up is None else up
            for g in (lambda x: x - r, lambda x: x ** 3 - r ** 3,
                      lambda x: math.log(x / r)):
                kw = {} if lo is None else dict(lower=lo, upper=up)
                got = f(x0, g, **kw)
                ctx.close(got, min(max(r, L), U), 'root at %s in [%s, %s]'
                          % (r, L, U), rel=1e-5, abs_=1e-5)
                ctx.evaluation('root', r, L, U)


def do_coordinates(case, ctx, lib):
    tr = lib.dt.coordinates.transpose_coordinates
    for n in range(0, 5):
        for ys in itertools.product((0., 2.5, -1.), repeat=n):
            c = [(float(i), y) for i, y in enumerate(ys)]
            keep = list(c)
            got = tr(c)
            ctx.check([tuple(p) for p in got] == [(y, x) for x, y in keep],
                      'transposed', keep, 'to', got)
            ctx.check([tuple(p) for p in tr(got)] == keep and c == keep,
                      'transposing twice', keep)
            for s in (1, 10, 2.):
                sc = lib.dt.feature_recognition.scale_coordinates(c, s)
                ctx.check([tuple(p) for p in sc] == [(x * s, y * s) for x, y in keep],
                          'scaled', keep, 'by', s, 'to', sc)
            ctx.evaluation('coordinates', ys)
