"""C17: equivalent single U-tubes."""
import copy
import itertools
import math

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('every point of a lattice of flows, heights, radii, pipes, shank '
        'spacings, conductivities and fluids that deviates from the usual values '
        'in up to two (thorough: three) places; a point counts as non-trivial '
        'when the resistances can be matched')
BOUNDS = {'quick': 'U-tubes of two to four (parallel and series) and coaxial, up to two '
                   'deviations in 10 places of 2 to 7 values',
          'thorough': 'up to three deviations'}
ASSUMPTIONS = [
    'a grout conductivity is looked for on a grid of 60 when the code reports a '
    'bound']
FLOOR = 200
D_AXES = dict(
    m=[0.3, 0.06, 0.15, 0.6, 1.2], H=[100., 40., 300.],
    r_b=[0.075, 0.06, 0.11, 0.15, 0.038, 0.045],
    pipe=[(0.0108, 0.013335), (0.0137, 0.0167), (0.0081, 0.0107)],
    s=[0.0323, 0.022, 0.05], k_p=[0.4, 0.2, 1.2], k_g=[1., 0.5, 2.5],
    soil=[(2.0, 2343.493e3), (0.8, 1.6e6), (4., 3e6)],
    fluid=[('MEG', 0.), ('MPG', 30.)], config=['parallel', 'series'], n=[2, 3, 4])
C_AXES = dict(
    m=[0.2, 0.06, 0.5, 1.2], H=[100., 40., 300.], r_b=[0.075, 0.058, 0.11, 0.15, 0.0777, 0.0779, 0.068],
    pipe=[((0.0221, 0.025), (0.0487, 0.055)), ((0.0137, 0.0167), (0.03, 0.0355)),
          ((0.0081, 0.0107), (0.0487, 0.055))],
    k_p=[(0.4, 0.4), (0.2, 0.4), (0.4, 1.5)], k_g=[1., 0.5, 2.5],
    soil=[(2.0, 2343.493e3), (0.8, 1.6e6), (4., 3e6)],
    fluid=[('MEG', 0.), ('MPG', 30.)])


def points(axes, dev):
    names = list(axes)
    base = {n: 0 for n in names}
    yield base
    for k in range(1, dev + 1):
        for which in itertools.combinations(names, k):
            for vals in itertools.product(*[range(1, len(axes[n])) for n in which]):
                yield dict(base, **dict(zip(which, vals)))


def cases(tier, seed):
    dev = 2 if tier == 'quick' else 3
    for kind, axes in (('double', D_AXES), ('coaxial', C_AXES)):
        for p in points(axes, dev):
            if valid(kind, value(kind, p)):
                yield dict(kind=kind, at=p)
    for i in range(6):
        yield dict(kind='single', i=i)
    for kind in ('double', 'coaxial'):
        for i in range(4):
            yield dict(kind='history', bhe=kind, i=i)


def value(kind, p):
    axes = D_AXES if kind == 'double' else C_AXES
    return {n: axes[n][i] for n, i in p.items()}


def valid(kind, v):
    """The pipes of the original have to fit in its borehole, and apart."""
    if kind == 'double':
        ro, n = v['pipe'][1], v['n']
        c = v['s'] / 2. + ro
        return c + ro < v['r_b'] and \
            2. * math.sin(math.pi / 2. / n) * c > 2. * ro + 1e-4
    return v['pipe'][1][1] < v['r_b']


def build(lib, kind, v):
    P = lib.plat.media.Pipe
    b = lib.borehole(v['H'], r_b=v['r_b'])
    g, s, f = lib.grout(v['k_g']), lib.soil(*v['soil']), lib.fluid(*v['fluid'])
    if kind == 'double':
        ri, ro = v['pipe']
        pipe = P(P.place_pipes(v['s'], ro, v['n']), ri, ro, v['s'], 1e-6, v['k_p'],
                 1542e3)
        return lib.BHX.MultipleUTube(v['m'], f, b, pipe, g, s, config=v['config'])
    (a, bb), (c, d) = v['pipe']
    pipe = P((0, 0), [a, bb], [c, d], 0, 1e-6, list(v['k_p']), 1542e3)
    return lib.BHX.CoaxialPipe(v['m'], f, b, pipe, g, s)


def describe(b):
    p = b.pipe
    one = [float(b.m_flow_borehole), float(b.m_flow_pipe), b.b.H, b.b.D, b.b.r_b,
           b.b.x, b.b.y, p.eps, p.s, p.rhoCp, b.grout.k, b.grout.rhoCp,
           b.k_g, b.soil.k, b.soil.rhoCp, b.soil.ugt, b.k_s, b.fluid.rho,
           b.fluid.cp, b.fluid.mu, b.fluid.k,
           float(b.compute_effective_borehole_resistance())]
    for v in (p.r_in, p.r_out, p.k):
        one += list(v) if isinstance(v, (list, tuple)) else [v]
    for v in (p.pos if isinstance(p.pos, list) else [p.pos]):
        one += [float(i) for i in v]
    return one


def volumes(kind, v):
    if kind == 'double':
        ri, ro = v['pipe']
        n = 2 * v['n']
        return n * math.pi * ri ** 2, n * math.pi * (ro ** 2 - ri ** 2)
    (a, b), (c, d) = v['pipe']
    return (math.pi * (a * a + c * c - b * b),
            math.pi * (b * b - a * a + d * d - c * c))


def film_and_wall(kind, v, b):
    """Of the original, as the library's users know them (all tubes at once, the
    outer wall of the annulus)."""
    if kind == 'double':
        ri, ro = v['pipe']
        n = 2 * v['n']
        return (1. / (b.h_f * 4 * n * math.pi * ri ** 2),
                math.log(ro / ri) / (2 * n * math.pi * v['k_p']))
    c, d = v['pipe'][1]
    return (1. / (b.h_fluid_a_in * 2 * math.pi * c),
            math.log(d / c) / (2 * math.pi * v['k_p'][1]))


def judge(ctx, lib, kind, v, b, e, where):
    ctx.check(isinstance(e, lib.BHX.SingleUTube), where, 'is a', type(e))
    ctx.close(e.m_flow_borehole, v['m'], where + ' borehole flow')
    ctx.close(e.m_flow_pipe, v['m'], where + ' pipe flow')
    vf, vp = volumes(kind, v)
    ri, ro = e.pipe.r_in, e.pipe.r_out
    ctx.close([e.r_in, e.r_out], [ri, ro], where + ' radii of the model')
    ctx.close(2 * math.pi * ri ** 2, vf, where + ' fluid volume', rel=1e-9,
              abs_=0.)
    ctx.close(2 * math.pi * (ro ** 2 - ri ** 2), vp, where + ' pipe wall volume',
              rel=1e-9, abs_=0.)
    ctx.close([e.soil.k, e.soil.rhoCp, e.soil.ugt, e.k_s, e.b.H, e.b.D, e.b.x, e.b.y],
              [b.soil.k, b.soil.rhoCp, b.soil.ugt, b.soil.k, v['H'], b.b.D, 0., 0.],
              where + ' soil, height, depth, place')
    ctx.close([e.grout.rhoCp, e.pipe.rhoCp, e.pipe.eps],
              [b.grout.rhoCp, b.pipe.rhoCp, b.pipe.eps],
              where + ' heat capacities, roughness')
    ctx.close([e.fluid.rho, e.fluid.cp, e.fluid.mu, e.fluid.k],
              [b.fluid.rho, b.fluid.cp, b.fluid.mu, b.fluid.k], where + ' fluid')
    # the pipes fit
    for pos in (e.pipe.pos, e.pos):
        ctx.check(len(pos) == 2, where, 'has pipes', pos)
        (x0, y0), (x1, y1) = [(float(x), float(y)) for x, y in pos]
        gap = math.hypot(x0 - x1, y0 - y1) - 2 * ro
        ctx.check(gap > 0., where, 'pipes overlap by', -gap)
        ctx.close(gap, e.pipe.s, where + ' shank spacing')
        out = max(math.hypot(x0, y0), math.hypot(x1, y1)) + ro
        ctx.check(out <= e.b.r_b, where, 'pipes leave the borehole by',
                  out - e.b.r_b)
    ctx.check(e.b.r_b >= b.b.r_b - 1e-12, where, 'borehole became narrower')
    if 4 * ro < 2 * b.b.r_b:
        ctx.close(e.b.r_b, b.b.r_b, where + ' borehole radius')
    # film and wall: the conductivity of the pipe that gives the resistances of
    # the original, where one within 1/100 .. 10 times the usual one does
    film, wall = film_and_wall(kind, v, b)
    shape = math.log(ro / ri) / (2 * math.pi)
    if film + wall > e.R_f:
        k, usual = shape / (film + wall - e.R_f), shape / (2 * wall)
        if usual / 100. * 1.01 < k < usual * 10. * 0.99:
            ctx.count('film and wall matched')
            ctx.close(e.R_f + e.R_p, film + wall, where + ' film and wall '
                      'resistance', rel=1e-3)
            ctx.close(e.R_fp, film + wall, where + ' film and wall resistance of '
                      'the model', rel=1e-3)
    # resistances
    Rb = float(b.compute_effective_borehole_resistance())
    Re = float(e.compute_effective_borehole_resistance())
    ctx.close(e.k_g, e.grout.k, where + ' grout conductivity of the model')
    ctx.close(Re, fresh(lib, e, e.grout.k), where + ' resistance', rel=1e-9)
    if abs(Re - Rb) <= 1e-5 * Rb:
        ctx.check(0.01 - 1e-9 <= e.grout.k <= 7. + 1e-9, where,
                  'grout conductivity', e.grout.k)
        return True
    lo, hi = fresh(lib, e, 0.01), fresh(lib, e, 7.)
    grid = [fresh(lib, e, 0.01 * 700. ** (i / 59.)) for i in range(60)]
    ctx.check(not (min(grid) < Rb < max(grid)), where, 'resistance', Re,
              'differs from', Rb, 'although grouts from', lo, 'to', hi, 'exist')
    near = 7. if Rb < hi else 0.01
    ctx.close(e.grout.k, near, where + ' nearest bound', rel=1e-6)
    return False


def fresh(lib, e, k):
    g = copy.deepcopy(e.grout)
    g.k = k
    return float(lib.BHX.SingleUTube(
        e.m_flow_borehole, e.fluid, copy.deepcopy(e.b), e.pipe, g,
        e.soil).compute_effective_borehole_resistance())


def run_case(case, ctx, lib):
    eq = lib.plat.equivalance.compute_equivalent
    if case['kind'] == 'single':
        b = lib.bhe('single', m=0.1 * (case['i'] + 1), H=60. + 40. * case['i'])
        d = describe(b)
        e = eq(b)
        ctx.check(describe(e) == d, 'a single U-tube is not its own equivalent')
        ctx.check(describe(b) == d, 'the original was changed')
        ctx.evaluation()
        return
    if case['kind'] == 'history':
        return history(case, ctx, lib, eq)
    kind, v = case['kind'], value(case['kind'], case['at'])
    b = build(lib, kind, v)
    d = describe(b)
    e = eq(b)
    ctx.close(describe(b), d, '%s %s: the original was changed:' % (kind, v), rel=1e-12)
    ok = judge(ctx, lib, kind, v, b, e, '%s %s:' % (kind, v))
    ctx.evaluation(*((kind, case['at']) if ok else ()))
    ctx.count('matched', int(ok))
    # what is done to the equivalent does not reach the original
    e.b.H += 17.
    e.grout.k *= 1.5
    e.soil.k *= 1.5
    e.pipe.k = 9.
    e.update_thermal_resistance(m_flow_borehole=0.9)
    b.update_thermal_resistance()
    ctx.close(describe(b), d, '%s %s: the original changes with its equivalent:'
              % (kind, v), rel=1e-12)
    ctx.sample(dict(case=case, k_g=e.grout.k))


def history(case, ctx, lib, eq):
    """Deriving again, after updates of the original, equals deriving afresh."""
    kind = case['bhe']
    v = value(kind, {n: 0 for n in (D_AXES if kind == 'double' else C_AXES)})
    muts = [('m', 0.45), ('H', 61.), ('m', 0.1), ('H', 220.)]
    k = case['i']
    b = build(lib, kind, v)
    eq(b)
    for n, x in (muts + muts)[k:k + 4]:
        v[n] = x
        if n == 'm':
            b.update_thermal_resistance(m_flow_borehole=x)
        else:
            b.b.H = x
            b.update_thermal_resistance()
        e = eq(b)
        judge(ctx, lib, kind, v, b, e, '%s after %s:' % (kind, v))
        want = describe(eq(build(lib, kind, v)))
        ctx.close(describe(e), want, '%s after updates %s: not the equivalent of '
                  'a new exchanger' % (kind, v), rel=1e-9)
        ctx.evaluation(kind, k, n, x)
