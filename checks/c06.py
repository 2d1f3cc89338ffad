"""C06: candidate fields of rectangular lands are legal."""
from mc import lands as LD

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('every field of every candidate list of every land of the lattice '
        '(length x width x spacing limits) and routine; a field with more than '
        'one borehole counts as non-trivial')
BOUNDS = {'quick': '10 x 9 lands and 672 just off a whole number of spacings, 11 large ones, 7 spacing limits, 3 routines',
          'thorough': '16 x 20 lands and 4224 just off a whole number of spacings, 11 large ones, 11 spacing limits, 3 routines'}
ASSUMPTIONS = [
    'lands without an admissible spacing, and zoned lands with fewer than three '
    'rows, have no candidates and are left out',
    'lengths compared to 1e-6 m']
FLOOR = 5000
TOL = 1e-6


def cases(tier, seed):
    for land in LD.lattice(tier):
        for r in ('rectangle', 'bi-rectangle', 'bi-zoned'):
            if LD.Land(land).feasible(r):
                yield dict(land=list(land), routine=r)


def run_case(case, ctx, lib):
    land = LD.Land(case['land'])
    r = case['routine']
    L, W, bmin, bx, by = land.floats()
    before = land.floats()
    nested = LD.domains(lib, r, land)
    ctx.check(len(nested) > 0, 'no candidate list')
    for i, dom in enumerate(nested):
        ctx.check(len(dom) > 0, 'candidate list', i, 'is empty')
        for k, f in enumerate(dom):
            where = '%s list %d field %d of %d boreholes:' % (r, i, k, len(f))
            legal(ctx, where, f, r, land)
            ctx.evaluation(*((case['land'], r, i, k) if len(f) > 1 else ()))
    ctx.count('lands')
    ctx.sample(dict(case=case, lists=[len(d) for d in nested],
                    last=len(nested[-1][-1])))


def legal(ctx, where, f, r, land):
    L, W, bmin, bx, by = land.floats()
    ctx.check(len(f) > 0, where, 'empty')
    pts = [(float(x), float(y)) for x, y in f]
    for x, y in pts:
        ctx.check(-TOL <= x <= L + TOL and -TOL <= y <= W + TOL, where,
                  'borehole', (x, y), 'outside the land', (L, W))
    cell = {}
    for p in pts:
        cell.setdefault((int(p[0] // bmin), int(p[1] // bmin)), []).append(p)
    lim = (bmin - TOL) ** 2
    for (a, b), ps in cell.items():
        near = [q for da in (-1, 0, 1) for db in (-1, 0, 1)
                for q in cell.get((a + da, b + db), ())]
        for p in ps:
            close = sum(1 for q in near if (p[0] - q[0]) ** 2
                        + (p[1] - q[1]) ** 2 < lim)
            ctx.check(close == 1, where, 'borehole', p, 'is closer than', bmin,
                      'to another')
    # rows: along the axes for zoned fields, everywhere for the others
    for ax, mx in ((0, bx), (1, by)):
        if r == 'bi-zoned':
            vals = sorted(p[ax] for p in pts if abs(p[1 - ax]) <= TOL)
        else:
            vals = sorted(p[ax] for p in pts)
        rows = []
        for v in vals:
            if not rows or v - rows[-1] > TOL:
                rows.append(v)
        gaps = [b - a for a, b in zip(rows, rows[1:])]
        if not gaps:
            continue
        ctx.check(max(gaps) - min(gaps) <= 1e-6, where, 'uneven rows along',
                  'xy'[ax], gaps)
        if r == 'rectangle':
            mx = bx
        ctx.check(max(gaps) <= mx + TOL, where, 'rows along', 'xy'[ax],
                  'are', max(gaps), 'apart, more than', mx)
        ctx.check(abs(rows[0]) <= TOL, where, 'rows start at', rows[0])
