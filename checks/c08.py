"""C08: shape generators."""
import itertools

from mc import lands as LD

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('every shape with every combination of row counts up to the bound, for '
        'every spacing pair and origin, compared with the set of grid points '
        'that make up the shape; shapes with more than one borehole count as '
        'non-trivial')
BOUNDS = {'quick': 'rows 1..14 per side, 4 spacing pairs, 2 origins',
          'thorough': 'rows 1..20 per side, 6 spacing pairs, 3 origins'}
ASSUMPTIONS = []
FLOOR = 5000
SP = [(5., 5.), (3., 7.5), (6.25, 1.1), (10 / 3., 4.45), (0.1, 20.), (7., 0.3)]
ORIGINS = [(0, 0), (2.5, -7.), (100., 3.)]


def cases(tier, seed):
    n = 14 if tier == 'quick' else 20
    ns = 4 if tier == 'quick' else 6
    for nx in range(1, n + 1):
        for ny in range(1, n + 1):
            for s in range(ns):
                yield dict(nx=nx, ny=ny, s=s)


def run_case(case, ctx, lib):
    co = lib.dt.coordinates
    nx, ny = case['nx'], case['ny']
    bx, by = SP[case['s']]

    def same(what, got, idx, o=(0, 0)):
        want = [(o[0] + i * bx, o[1] + j * by) for i, j in idx]
        ctx.check(len(set(idx)) == len(idx), 'harness')
        ctx.check(LD.same_points(got, want, 1e-9 * (1 + 100)), what, 'is', got,
                  'expected', want)
        ctx.evaluation(*((what, case['s'], o) if len(idx) > 1 else ()))
        # transposing swaps every borehole in place
        t = co.transpose_coordinates(got)
        ctx.check(len(t) == len(got) and all(
            (a[0], a[1]) == (b[1], b[0]) for a, b in zip(t, got)), what,
            'transposed is', t)
        ctx.check(all(tuple(a) == tuple(b) for a, b in
                      zip(co.transpose_coordinates(t), got)), 'twice transposed')

    full = [(i, j) for i in range(nx) for j in range(ny)]
    no = 2 if ctx.tier == 'quick' else 3
    for o in ORIGINS[:no]:
        same('rectangle(%d,%d)' % (nx, ny),
             co.rectangle(nx, ny, bx, by, origin=o), full, o)
    same('rectangle(%d,%d)' % (nx, ny), co.rectangle(nx, ny, bx, by), full)
    ring = [p for p in full if p[0] in (0, nx - 1) or p[1] in (0, ny - 1)]
    same('open_rectangle(%d,%d)' % (nx, ny),
         co.open_rectangle(nx, ny, bx, by), ring)
    same('U_shape(%d,%d)' % (nx, ny), co.U_shape(nx, ny, bx, by),
         [p for p in full if p[0] in (0, nx - 1) or p[1] == 0])
    same('L_shape(%d,%d)' % (nx, ny), co.L_shape(nx, ny, bx, by),
         [p for p in full if p[0] == 0 or p[1] == 0])
    if nx > 1:
        for n2 in range(1, ny + 1):
            same('lop_U(%d,%d,%d)' % (nx, ny, n2),
                 co.lop_U(nx, ny, bx, by, n2),
                 [p for p in full if p[0] == 0 or p[1] == 0 or
                  (p[0] == nx - 1 and p[1] < n2)])
    if nx > 2 and ny > 1:
        for n2 in range(1, nx - 1):
            same('C_shape(%d,%d,%d)' % (nx, ny, n2),
                 co.C_shape(nx, ny, bx, by, n2),
                 [p for p in full if p[0] in (0, nx - 1) or p[1] == 0 or
                  (p[1] == ny - 1 and p[0] <= n2)])
    for i, j in itertools.product(range(1, nx + 2), range(1, ny + 2)):
        legal = i <= nx - 2 and j <= ny - 2
        try:
            z = co.zoned_rectangle(nx, ny, bx, by, i, j)
        except ValueError:
            z = None
        what = 'zoned_rectangle(%d,%d,%d,%d)' % (nx, ny, i, j)
        ctx.check((z is not None) == legal, what,
                  'refused' if z is None else 'accepted')
        ctx.evaluation()
        if legal:
            cx, cy = (nx - 1) * bx / (i + 1), (ny - 1) * by / (j + 1)
            want = [(a * bx, b * by) for a, b in ring] + [
                (a * cx, b * cy) for a in range(1, i + 1)
                for b in range(1, j + 1)]
            ctx.check(LD.same_points(z, want, 1e-7), what, 'is', z, 'expected',
                      want)
            ctx.evaluation(what, case['s'])
    ctx.sample(dict(case=case, open_rectangle=co.open_rectangle(nx, ny, bx, by)))
