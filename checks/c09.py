"""C09: property boundaries and no-go zones."""
import itertools
from fractions import Fraction as F

from mc import lands as LD

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('every polygon with vertices on a small lattice (all triangles, all '
        'simple quadrilaterals in every vertex order, L, U, T shapes) against '
        'every point of a finer lattice, classified in rational arithmetic; all '
        'four contour treatments; every polygonal land of the list with every '
        'building.  A polygon counts as non-trivial when it has points inside, '
        'outside and on the contour')
BOUNDS = {'quick': 'triangles on 4x4, quadrilaterals on 3x3, 12 other shapes, 4 '
                   'scales, 12x12 points and 135 within 1 cm of each edge; 13 lands (every first corner, both ways round) x 7 buildings x 2 spacings',
          'thorough': 'triangles on 5x5, quadrilaterals on 4x4, 6 scales; 13 '
                      'lands x 7 buildings x 5 spacings'}
ASSUMPTIONS = [
    'coordinates are non-negative multiples of 0.1 mm below 1 km; points off '
    'the 0.1 mm lattice are judged only when further than 2 mm from the contour']
FLOOR = 3000
SCALES = ['1', '20', '1.13', '33.87', '7.5', '0.57']
OTHER = [
    [(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)],                   # L
    [(0, 0), (4, 0), (4, 4), (3, 4), (3, 1), (1, 1), (1, 4), (0, 4)],   # U
    [(1, 0), (3, 0), (3, 2), (4, 2), (4, 4), (0, 4), (0, 2), (1, 2)],   # T
    [(0, 0), (4, 0), (4, 4), (0, 4)],
    [(0, 2), (2, 0), (4, 2), (2, 4)],
    [(0, 0), (2, 1), (4, 0), (3, 2), (4, 4), (2, 3), (0, 4), (1, 2)],   # star
    [(0, 0), (4, 1), (3, 4), (1, 3)],
    [(1, 1), (3, 1), (3, 3), (1, 3)],
    [(0, 1), (4, 0), (4, 4), (0, 3)],
    [(0, 0), (4, 0), (0, 4)],
    [(2, 0), (4, 4), (2, 3), (0, 4)],
    [(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)],
]


def simple(q):
    def o(a, b, c):
        v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return (v > 0) - (v < 0)
    n = len(q)
    for i in range(n):
        if o(q[i], q[(i + 1) % n], q[(i + 2) % n]) == 0:
            return False
    if n == 4:
        for a, b, c, d in ((q[0], q[1], q[2], q[3]), (q[1], q[2], q[3], q[0])):
            if o(a, b, c) != o(a, b, d) and o(c, d, a) != o(c, d, b):
                return False
    return True


def cases(tier, seed):
    quick = tier == 'quick'
    k = 4 if quick else 5
    polys = [list(t) for t in itertools.combinations(
        itertools.product(range(k), repeat=2), 3) if simple(t)]
    k = 3 if quick else 4
    for t in itertools.combinations(itertools.product(range(k), repeat=2), 4):
        for perm in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 1, 3, 2)):
            q = [t[i] for i in perm]
            if simple(q):
                polys.append(q)
                polys.append(q[::-1])
    polys += OTHER
    scales = SCALES[:4] if quick else SCALES
    for n, p in enumerate(polys):
        for s in scales if n >= len(polys) - len(OTHER) - 200 or not quick \
                else scales[n % 2::2]:
            yield dict(kind='cut', poly=[list(v) for v in p], scale=s)
    lands = range(len(LANDS))
    for l in lands:
        for b in range(len(BUILDINGS)):
            for sp in range(2 if quick else 5):
                yield dict(kind='land', land=l, building=b, sp=sp,
                           turn=(l + b + sp) % 7)
        for turn in range(1, 2 * len(LANDS[l])):
            yield dict(kind='land', land=l, building=turn % 5, sp=0, turn=turn)
    yield dict(kind='absent')
    for n in range(1, 6 if quick else 7):
        yield dict(kind='reorder', n=n)


def classify(p, poly):
    """1 inside, 0 on the contour, -1 outside; exact"""
    x, y = p
    inside = False
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
        cr = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        if cr == 0 and min(x1, x2) <= x <= max(x1, x2) and \
                min(y1, y2) <= y <= max(y1, y2):
            return 0
        if (y1 > y) != (y2 > y):
            if x < F(x2 - x1) * (y - y1) / (y2 - y1) + x1:
                inside = not inside
    return 1 if inside else -1


def near(p, poly, tol=0.002):
    x, y = map(float, p)
    for i in range(len(poly)):
        x1, y1 = map(float, poly[i])
        x2, y2 = map(float, poly[(i + 1) % len(poly)])
        L = (x2 - x1) ** 2 + (y2 - y1) ** 2
        t = 0. if L == 0 else max(0., min(1., (
            (x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L))
        if (x - x1 - t * (x2 - x1)) ** 2 + (y - y1 - t * (y2 - y1)) ** 2 \
                <= tol * tol:
            return True
    return False


def fl(pts):
    return [(float(x), float(y)) for x, y in pts]


def on_lattice(p):
    return all((v * 10000).denominator == 1 for v in p)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def do_cut(case, ctx, lib):
    fr = lib.dt.feature_recognition
    s = F(case['scale'])
    poly = [(F(a) * s, F(b) * s) for a, b in case['poly']]
    m = max(max(v) for v in case['poly']) + 1
    pts = [(F(i, 2) * s, F(j, 2) * s) for i in range(2 * m + 1)
           for j in range(2 * m + 1)]
    # and points that are not on the half lattice
    pts += [(F(i) * s + F(1, 3), F(j) * s + F(2, 7)) for i in range(m)
            for j in range(m)]
    # and points a fraction of a millimetre up to a centimetre off the contour
    for a, b in zip(poly, poly[1:] + poly[:1]):
        for t in (F(0), F(1, 3), F(1, 2)):
            x, y = (F(round((u + t * (v - u)) * 10000), 10000)
                    for u, v in zip(a, b))
            for d in (F(1, 10000), F(4, 10000), F(1, 1000), F(4, 1000),
                      F(1, 100)):
                pts += [(x + i * d, y + j * d) for i in (-1, 0, 1)
                        for j in (-1, 0, 1)]
    pts = [p for p in pts if p[0] >= 0 and p[1] >= 0]
    pts = list(dict.fromkeys(pts))
    cls = [classify(p, poly) for p in pts]
    ok = [on_lattice(p) and all(on_lattice(v) for v in poly) or
          not near(p, poly) for p in pts]
    keep = [i for i in range(len(pts)) if ok[i]]
    pts = [pts[i] for i in keep]
    cls = [cls[i] for i in keep]
    fp, fb = fl(pts), fl(poly)
    for inside in (True, False):
        for contour in (True, False):
            got = fr.remove_cutout(fp, boundary=fb, remove_inside=inside,
                                   keep_contour=contour)
            wanted = {(True, True): (-1, 0), (True, False): (-1,),
                      (False, True): (0, 1), (False, False): (1,)}[
                          (inside, contour)]
            want = [p for p, c in zip(fp, cls) if c in wanted]
            ctx.check(len(got) == len(want) and all(
                abs(a[0] - b[0]) < 1e-4 and abs(a[1] - b[1]) < 1e-4
                for a, b in zip(got, want)),
                'remove_inside=%s keep_contour=%s polygon %s keeps' %
                (inside, contour, fb), diff(got, want))
            ctx.evaluation(*((case['poly'], case['scale'], inside, contour)
                             if len(set(cls)) == 3 else ()))
    for turn in range(2 * len(fb)):
        r = fr.determine_largest_rectangle(turned(fb, turn))
        ctx.close([max(v[0] for v in r), max(v[1] for v in r)],
                  [max(v[0] for v in fb), max(v[1] for v in fb)],
                  'rectangle around %s' % turned(fb, turn))
    # the arguments are left alone
    ctx.check(fb == fl(poly) and fp == fl(pts), 'arguments changed')
    ctx.sample(dict(case=case, points=len(pts)))


def diff(got, want):
    r = lambda ps: {(round(x, 4), round(y, 4)) for x, y in ps}
    a, b = r(got), r(want)
    return 'also %s, not %s (%d instead of %d)' % (
        sorted(a - b)[:4], sorted(b - a)[:4], len(got), len(want))


def do_absent(case, ctx, lib):
    fr = lib.dt.feature_recognition
    pts = [(0., 0.), (5., 0.), (3., 4.)]
    for b in (None, []):
        for i in (True, False):
            for k in (True, False):
                got = fr.remove_cutout(pts, boundary=b, remove_inside=i,
                                       keep_contour=k)
                ctx.check(list(map(tuple, got)) == pts, 'absent zone cuts')
                ctx.evaluation(str(b), i, k)


def do_reorder(case, ctx, lib):
    """every sequence of sizes 1..3 (ties included)"""
    n = case['n']
    for sizes in itertools.product((1, 2, 3), repeat=n):
        dom = [[(float(i), float(k)) for k in range(c)]
               for i, c in enumerate(sizes)]
        got = lib.dt.domains.reorder_domain([list(f) for f in dom])
        c = [len(f) for f in got]
        ctx.check(c == sorted(sizes), 'sizes', c, 'from', sizes)
        ctx.check(sorted(map(tuple, got)) == sorted(map(tuple, dom)),
                  'fields lost or duplicated', sizes)
        ctx.evaluation(*((sizes,) if n > 1 else ()))


LANDS = [
    [('0', '0'), ('30', '0'), ('30', '20'), ('0', '20')],
    [('0', '0'), ('20', '0'), ('20', '33.87'), ('0', '33.87')],
    [('0', '0'), ('30', '0'), ('30', '10'), ('15', '10'), ('15', '24'), ('0', '24')],
    [('0', '0'), ('30', '0'), ('0', '24')],
    [('5', '0'), ('30', '5'), ('25', '25'), ('0', '20')],
    [('10', '0'), ('29', '0'), ('29', '29'), ('10', '29')],
    [('0', '0'), ('36', '0'), ('36', '24'), ('24', '24'), ('24', '8'),
     ('12', '8'), ('12', '24'), ('0', '24')],
    [('0', '12'), ('15', '0'), ('30', '12'), ('15', '24')],
    [('0', '8'), ('8', '8'), ('8', '0'), ('24', '0'), ('24', '30'), ('0', '30')],
    [('2', '3'), ('21.7', '3'), ('21.7', '19.3'), ('2', '19.3')],
    [('0', '0'), ('10', '0'), ('20', '30'), ('0', '20')],
    [('0', '0'), ('24', '4'), ('30', '28'), ('6', '20')],
    [('0', '10'), ('12', '0'), ('32.5', '26')],
]
BUILDINGS = [
    None, [],
    [('5', '5'), ('15', '5'), ('15', '15'), ('5', '15')],
    [('0', '0'), ('12', '0'), ('12', '9'), ('0', '9')],
    [('10', '2'), ('18', '10'), ('10', '18'), ('2', '10')],
    [('0', '0'), ('40', '0'), ('40', '14'), ('0', '14')],
    [('2', '2'), ('22', '2'), ('22', '18'), ('17', '18'), ('17', '7'), ('7', '7'),
     ('7', '18'), ('2', '18')],
]
SPACINGS = [('3', '6', '7'), ('4', '8', '8'), ('5', '5', '10'), ('2.5', '5', '4'),
            ('4.45', '10', '6')]


def turned(p, k):
    """another first corner, the other way round"""
    k, n = k // 2, len(p)
    p = p[k % n:] + p[:k % n] if n else p
    return p[::-1] if k % 2 else p


def do_land(case, ctx, lib):
    dm = lib.dt.domains
    poly = turned([(F(a), F(b)) for a, b in LANDS[case['land']]], case['turn'])
    b = BUILDINGS[case['building']]
    building = b if b is None else turned([(F(a), F(c)) for a, c in b],
                                          case['turn'])
    bmin, bx, by = SPACINGS[case['sp']]
    W = (max(v[0] for v in poly), max(v[1] for v in poly))
    land = LD.Land((str(float(W[0])), str(float(W[1])), bmin, bx, by))
    if not land.feasible('bi-rectangle'):
        ctx.count('infeasible')
        return
    fb = None if b is None else fl(building)
    got = dm.polygonal_land_constraint(fl(poly), float(F(bmin)), float(F(bx)),
                                       float(F(by)), building_description=fb)
    # the rectangular candidates of the bounding land (see C06, C07)
    rect = dm.bi_rectangle_nested(float(W[0]), float(W[1]), float(F(bmin)),
                                  float(F(bx)), float(F(by)))
    ctx.check(len(got) == len(rect), len(got), 'lists from', len(rect))
    for i, (dom, full) in enumerate(zip(got, rect)):
        sizes = [len(f) for f in dom]
        ctx.check(0 not in sizes, 'an empty field in list', i)
        ctx.check(sizes == sorted(sizes), 'list', i, 'not sorted', sizes)
        want = []
        vague = False
        for f in full:
            sure, may = [], []
            for p in f:
                q = tuple(F(round(v * 10000), 10000) for v in p)
                exact = all(abs(float(a) - v) < 1e-7 for a, v in zip(q, p))
                q = q if exact else tuple(map(F, p))
                edge = (not exact and near(q, poly)), \
                    (not exact and bool(building) and near(q, building))
                keep = classify(q, poly) >= 0 and (
                    not building or classify(q, building) < 0)
                if any(edge):
                    may.append(p)
                elif keep:
                    sure.append(p)
            vague = vague or bool(may)
            want.append((sure, may))
        name = LD.Names()
        key = name.field
        if vague:
            # a borehole whose side of a slanted contour is a matter of less
            # than 2 mm: the fields are compared without it
            ctx.count('lists_with_vague_boreholes')
            free = {name(p) for _, m in want for p in m}
            strip = lambda f: [p for p in f if name(p) not in free]
            a = sorted(key(strip(f)) for f in dom if strip(f))
            c = sorted(key(strip(s)) for s, _ in want if strip(s))
        else:
            a = sorted(key(f) for f in dom)
            c = sorted(key(s) for s, _ in want if s)
        ctx.check(a == c, 'list', i, 'has other fields than the legal part of '
                  'the rectangular candidates:', len(a), 'vs', len(c),
                  [x for x in a if x not in c][:1],
                  [x for x in c if x not in a][:1])
        ctx.evaluation(case['land'], case['building'], case['sp'], i)
        for f in dom:
            for p in f:
                q = tuple(map(F, p))
                ctx.check(classify(q, poly) >= 0 or near(q, poly),
                          'borehole', p, 'outside the property')
                ctx.check(not building or classify(q, building) < 0
                          or near(q, building), 'borehole', p,
                          'inside the building')

