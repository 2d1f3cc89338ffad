"""C07: candidate lists: order, start, completeness."""
import math
from fractions import Fraction as F

from mc import lands as LD

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('every candidate list of every land of the lattice against the ladder '
        'written down with exact row counts; a list with more than one field '
        'counts as non-trivial')
BOUNDS = {'quick': '10 x 9 lands and 672 just off a whole number of spacings, 11 large ones, 7 spacing limits, 3 routines; near-square: 90 '
                   'spacings x up to 12 (three spacings: 50) multiples and half multiples',
          'thorough': '16 x 20 lands and 4224 just off a whole number of spacings, 11 large ones, 11 spacing limits; near-square up to 32 '
                      'multiples'}
ASSUMPTIONS = ['lands without an admissible spacing (and zoned lands with fewer '
               'than three rows) have no candidates and are left out']
FLOOR = 1500


def cases(tier, seed):
    for land in LD.lattice(tier):
        for r in ('rectangle', 'bi-rectangle', 'bi-zoned'):
            if LD.Land(land).feasible(r):
                yield dict(land=list(land), routine=r)
    for b10 in range(20, 110):
        yield dict(routine='near-square', B=b10,
                   top=50 if b10 in (50, 61, 95) else
                   12 if tier == 'quick' else 32)


def grid(n1, n2, b1, b2, o1=0, o2=0):
    return [(o1 + i * b1, o2 + j * b2) for i in range(n1) for j in range(n2)]


def run_case(case, ctx, lib):
    r = case['routine']
    if r == 'near-square':
        return near_square(case, ctx, lib)
    land = LD.Land(case['land'])
    nested = LD.domains(lib, r, land)
    spec = {'rectangle': rectangle, 'bi-rectangle': bi_rectangle,
            'bi-zoned': bi_zoned}[r](land)
    ctx.check(len(nested) == len(spec), 'number of candidate lists',
              len(nested), 'expected', len(spec))
    for i, (dom, want) in enumerate(zip(nested, spec)):
        head, zone = want
        ctx.evaluation(*((case['land'], r, i) if len(dom) > 1 else ()))
        where = '%s list %d:' % (r, i)
        c = [len(f) for f in dom]
        ctx.check(all(a < b for a, b in zip(c, c[1:])), where,
                  'numbers of boreholes do not grow:', c)
        ctx.check(len(dom) >= len(head), where, 'has', len(dom),
                  'fields, expected', len(head), 'or more')
        for k, w in enumerate(head):
            ctx.check(LD.same_points(dom[k], land.place(w)), where, 'field', k,
                      'is', dom[k], 'expected', land.place(w))
        if zone is None:
            ctx.check(len(dom) == len(head), where, 'has', len(dom),
                      'fields, expected', len(head))
            continue
        zoned(ctx, where, land, dom[len(head):], *zone)
    ctx.sample(dict(case=case, counts=[[len(f) for f in d] for d in nested][:3]))


def rectangle(land):
    """lines and rows at the largest spacing, then for every further row across
    the coarsest field that has it"""
    N0 = land.r1[0]
    b = land.l1 / (N0 - 1)
    rows = math.floor(land.l2 / b) + 1
    out = [grid(i, 1, b, b) for i in range(1, N0)]
    out += [grid(N0, j, b, b) for j in range(1, rows)]
    last = 1
    for N in land.r1:
        b = land.l1 / (N - 1)
        rows = math.floor(land.l2 / b) + 1
        if rows != last:
            out.append(grid(N, rows, b, b))
            last = rows
    return [(out, None)]


def bi_rectangle(land):
    res = []
    for n2 in land.n2:
        b2 = land.l2 / (n2 - 1)
        N0 = land.n1[0]
        b1 = land.l1 / (N0 - 1)
        out = [grid(i, 1, b1, b2) for i in range(1, N0)]
        out += [grid(N0, j, b1, b2) for j in range(1, n2)]
        out += [grid(N, n2, land.l1 / (N - 1), b2) for N in land.n1]
        res.append((out, None))
    return res


def perimeter(n1, n2, b1, b2):
    return [p for p in grid(n1, n2, b1, b2)
            if p[0] in (0, (n1 - 1) * b1) or p[1] in (0, (n2 - 1) * b2)]


def bi_zoned(land):
    # one more row on the long side, then on the short side, and so on; when one
    # side is at its densest the other goes on alone
    j = k = 0
    pairs = []
    for i in range(len(land.n1) + len(land.n2) - 1):
        pairs.append((land.n1[j], land.n2[k]))
        if j < len(land.n1) - 1 and (i % 2 == 0 or k == len(land.n2) - 1):
            j += 1
        else:
            k += 1
    res = []
    for i, (n1, n2) in enumerate(pairs):
        head = []
        if i == 0:
            b1, b2 = land.l1 / (n1 - 1), land.l2 / (n2 - 1)
            path = [(x * b1, 0) for x in range(n1)] + \
                   [(0, y * b2) for y in range(1, n2)] + \
                   [((n1 - 1) * b1, y * b2) for y in range(1, n2)] + \
                   [(x * b1, (n2 - 1) * b2) for x in range(1, n1 - 1)]
            head = [path[:m] for m in range(1, len(path) + 1)]
        res.append((head, (n1, n2)))
    return res


def zoned(ctx, where, land, dom, n1, n2):
    b1, b2 = land.l1 / (n1 - 1), land.l2 / (n2 - 1)
    ring = perimeter(n1, n2, b1, b2)

    def field(i, j):
        c1, c2 = land.l1 / (i + 1), land.l2 / (j + 1)
        return land.place(ring + grid(i, j, c1, c2, c1, c2))
    i = j = 1
    ctx.check(len(dom) > 0 and LD.same_points(dom[0], field(1, 1)), where,
              'the zoned fields do not start with the perimeter and one '
              'borehole inside:', dom[:1])
    for k, f in enumerate(dom[1:]):
        if LD.same_points(f, field(i + 1, j)):
            i += 1
        elif LD.same_points(f, field(i, j + 1)):
            j += 1
        else:
            ctx.check(False, where, 'zoned field', k + 1, 'does not add one '
                      'interior row to', (i, j), ':', f)
    ctx.check((i, j) == (n1 - 2, n2 - 2), where, 'ends with', (i, j),
              'interior rows of', (n1 - 2, n2 - 2))


def near_square(case, ctx, lib):
    B = F(case['B'], 10)
    for half in range(0, 2 * case['top'] + 1):
        length = B * half / 2
        # what fits: boreholes at 0, B, 2B, ... <= length
        n = half // 2 + 1
        d = LD.design(lib, 'near-square',
                      dict(length=float(length), B=float(B)))
        dom = d.coordinates_domain
        ctx.evaluation(case['B'], half)
        want = [(i, i + j) for i in range(1, n + 1) for j in (0, 1)]
        where = 'near-square, spacing %s, length %s:' % (float(B), float(length))
        ctx.check(len(dom) == len(want), where, len(dom), 'fields, expected',
                  len(want))
        for f, (a, b) in zip(dom, want):
            ctx.check(LD.same_points(f, [(float(p), float(q)) for p, q in
                                         grid(a, b, B, B)]), where, (a, b),
                      'is', f)
