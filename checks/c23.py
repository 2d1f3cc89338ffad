"""C23: live g-functions against direct borefield computations."""
import copy
import itertools
import math

import numpy as np

from checks.c21 import flat

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('every field x exchanger x boundary condition x segment option x solver x '
        'order of heights is computed by the code and directly with the borefield '
        'library; all borehole orders; all ordered pairs of computations.  Fields '
        'of more than one borehole count as non-trivial')
BOUNDS = {
    'quick': '5 fields of 1 to 6 boreholes, 5 of up to 104 anywhere, up to 12 heights at once, 3 exchangers, 3 boundary conditions, 3 '
             'segment options, 2 solvers, 6 orders of 3 heights; all orders of 4 '
             'boreholes; all pairs of 15 requests',
    'thorough': '9 fields up to 12 boreholes, 5 of up to 104 anywhere; all orders of 5 boreholes; all '
                'triples of 15 requests'}
ASSUMPTIONS = ['the borefield library (pygfunction) is correct']
FLOOR = 150
FIELDS = [
    [(0., 0.)],
    [(0., 0.), (5., 0.)],
    [(3., 4.), (3., 9.5), (10., 4.)],
    [(0., 0.), (5., 0.), (0., 6.), (5., 6.)],
    [(0., 0.), (4.5, 0.), (9., 0.), (0., 5.), (4.5, 5.), (9., 5.)],
    [(0., 0.), (7., 0.), (14., 0.)],
    [(2. * i, i * i) for i in range(5)],
    [(5. * i, 5. * j) for i in range(3) for j in range(3)],
    [(5. * i, 4. * j) for i in range(4) for j in range(3)]]
# anywhere, and as many as a land may bear
FAR = [[(-7.5, -3.), (-7.5, 4.), (0., -3.)],
       [(1000., -2000.), (1006., -2000.)],
       [(-5. * i, 5.5 * j - 8.) for i in range(6) for j in range(5)],
       [(6. * i, 4. * j) for i in range(13) for j in range(8)],
       [(3. * i, -3. * i) for i in range(1, 26)]]
MANY = [[5., 384.], [60., 80., 100., 120.], [24., 48., 96., 192., 384.],
        [300., 20., 150., 40., 75.25, 200., 100.], [60.5, 60.25, 61.],
        [float(h) for h in range(40, 160, 10)]]
KINDS = ('single', 'double', 'coaxial')
BCS = ('MIFT', 'UBWT', 'UHTR')
SEGS = [dict(), dict(nSegments=5, segments='equal'),
        dict(nSegments=4, segment_ratios=np.array([0.1, 0.5, 0.3, 0.1]))]
SOLVERS = ('equivalent', 'similarities')
HS = (60., 100., 135.5)


def cases(tier, seed):
    q = tier == 'quick'
    nf = 5 if q else 9
    for f in range(nf):
        for k in KINDS:
            for bc in BCS:
                if bc != 'MIFT' and k != 'single' and q:
                    continue
                for s in range(len(SEGS)):
                    for sv in SOLVERS:
                        if sv != 'equivalent' and (s == 0 and f > 3):
                            continue
                        yield dict(kind='live', field=f, bhe=k, bc=bc, seg=s,
                                   solver=sv, mat=(f + s) % 3)
    for f in range(len(FAR)):
        for m in (0.05, 0.3):
            for bc in BCS:
                yield dict(kind='far', field=f, m=m, bc=bc,
                           mat=(f + BCS.index(bc)) % 3)
    for i in range(len(MANY)):
        for k in KINDS:
            yield dict(kind='many', i=i, bhe=k,
                       mat=(i + KINDS.index(k)) % 3)
    for o in itertools.permutations(range(3)):
        for k in KINDS:
            yield dict(kind='heights', order=list(o), bhe=k)
    n = 4 if q else 5
    for o in itertools.permutations(range(n)):
        if q or o[0] == 0:
            yield dict(kind='order', order=list(o))
    for i in range(len(REQUESTS)):
        for j in range(len(REQUESTS)):
            yield dict(kind='history', first=[i, j] if not q else [i], last=j if q
                       else None)
    for k in KINDS:
        for f in range(1, 4):
            yield dict(kind='ghe', bhe=k, field=f, mat=f % 3)
    for f in (1, 2) if q else range(1, 5):
        for bc in BCS:
            for i in range(5):
                yield dict(kind='one', field=f, bc=bc, i=i, mat=(f + i) % 3)
    yield dict(kind='database')


CHUNKS_PER_WORKER = 30


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


def parts(lib, kind, m=0.25):
    if lib.mat:
        return dict(fluid=lib.fluid(), pipe=lib.pipe(kind), grout=lib.grout(),
                    soil=lib.soil())
    return dict(fluid=lib.fluid(), pipe=lib.pipe(kind), grout=lib.grout(1.3),
                soil=lib.soil(2.2, 2.1e6))


def direct(lib, kind, loc, H, D, r_b, m, p, lt, bc='MIFT', solver='equivalent',
           nSegments=8, segments='unequal', segment_ratios=None,
           end_length_ratio=0.02, tilt=0., orientation=0.):
    """What the borefield library gives."""
    gt = lib.gt
    field = [gt.boreholes.Borehole(H, D, r_b, x, y, tilt, orientation)
             for x, y in loc]
    alpha = p['soil'].k / p['soil'].rhoCp
    t = np.array([math.exp(x) * H * H / (9. * alpha) for x in lt])
    opt = dict(nSegments=nSegments, disp=False)
    if segments.lower() == 'unequal':
        opt['segment_ratios'] = np.array(segment_ratios) \
            if segment_ratios is not None else \
            gt.utilities.segment_ratios(
                nSegments, end_length_ratio=end_length_ratio)
    if bc == 'MIFT':
        tubes = [lib.CLS[kind](m, p['fluid'], b, p['pipe'], p['grout'], p['soil'])
                 for b in field]
        what = gt.networks.Network(field, tubes, m_flow_network=m * len(field),
                                   cp_f=p['fluid'].cp)
    else:
        what = field
    g = gt.gfunction.gFunction(what, alpha, time=t, boundary_condition=bc,
                               options=opt, method=solver)
    return list(map(float, g.gFunc))


def live(lib, kind, loc, Hs, rs, Ds, m, p, lt, B=5., bc='MIFT', **kw):
    return lib.dt.gfunction.compute_live_g_function(
        B, Hs, rs, Ds, m, lib.CLS[kind], lt, loc, p['fluid'], p['pipe'],
        p['grout'], p['soil'], boundary=bc, **kw)


def judge(ctx, g, lib, kind, loc, Hs, rs, Ds, m, p, lt, B, where, **kw):
    ctx.close(g.B, B, where + ' spacing', abs_=0.)
    ctx.check([tuple(c) for c in g.bore_locations] == [tuple(c) for c in loc], where,
              'locations', g.bore_locations)
    ctx.close(g.log_time, lt, where + ' times', abs_=0.)
    for name, d in (('curves', g.g_lts), ('radii', g.r_b_values),
                    ('depths', g.D_values)):
        ctx.check(sorted(d) == sorted(Hs), where, name, 'stored for', sorted(d))
    for H, r, D in zip(Hs, rs, Ds):
        ctx.close(g.r_b_values[H], r, where + ' radius at %s' % H, abs_=0.)
        ctx.close(g.D_values[H], D, where + ' depth at %s' % H, abs_=0.)
        want = direct(lib, kind, loc, H, D, r, m, p, lt, **kw)
        ctx.close(g.g_lts[H], want, where + ' g-function at %s m' % H, rel=1e-9)
        y = list(map(float, g.g_lts[H]))
        ctx.check(all(a < b for a, b in zip(y, y[1:])), where,
                  'g-function does not increase')


LT = [-8.5, -5.2, -2.17137, -0.0513, 1.11218, 3.003]


def do_live(case, ctx, lib):
    loc, kind = FIELDS[case['field']], case['bhe']
    kw = dict(SEGS[case['seg']], solver=case['solver'])
    p = parts(lib, kind)
    Hs, rs, Ds = [75.0123456789, 140.], [0.075, 0.0801234567], [2.00056789, 4.5]
    if len(loc) > 6 and case['solver'] != 'equivalent':
        Hs, rs, Ds = Hs[:1], rs[:1], Ds[:1]
    args = [list(loc), list(Hs), list(rs), list(Ds), list(LT)]
    before = flat([args, p])
    g = live(lib, kind, args[0], args[1], args[2], args[3], 0.25, p, args[4],
             B=4.75, bc=case['bc'], **copy.deepcopy(kw))
    where = '%s:' % case
    judge(ctx, g, lib, kind, loc, Hs, rs, Ds, 0.25, p, LT, 4.75, where,
          bc=case['bc'], **kw)
    ctx.check(flat([args, p]) == before, where, 'an input was altered')
    # the curve itself
    gt = lib.gt
    b = gt.boreholes.Borehole(110., 3., 0.07, 50., 60.)
    alpha = p['soil'].k / p['soil'].rhoCp
    t = np.exp(np.array(LT[1:4])) * 110. ** 2 / 9. / alpha
    f = lib.dt.gfunction.calculate_g_function(
        0.25, lib.CLS[kind], t, loc, b, p['fluid'], p['pipe'], p['grout'],
        p['soil'], boundary=case['bc'], **copy.deepcopy(kw))
    ctx.close(f.gFunc, direct(lib, kind, loc, 110., 3., 0.07, 0.25, p, LT[1:4],
                              bc=case['bc'], **kw), where + ' single curve')
    ctx.check((b.H, b.D, b.r_b, b.x, b.y) == (110., 3., 0.07, 50., 60.), where,
              'the borehole was altered')
    ctx.evaluation(*([case] if len(loc) > 1 else []))
    ctx.sample(case)


def do_far(case, ctx, lib):
    loc, kind = FAR[case['field']], KINDS[case['field'] % 3]
    p = parts(lib, kind)
    args = (loc, [90.], [.07], [3.], case['m'], p, LT)
    judge(ctx, live(lib, kind, *args, B=3.25, bc=case['bc']), lib, kind, *args, 3.25,
          '%s:' % case, bc=case['bc'])
    ctx.evaluation(case)


def do_many(case, ctx, lib):
    Hs, kind = MANY[case['i']], case['bhe']
    p = parts(lib, kind)
    n = len(Hs)
    args = (FIELDS[1 + case['i'] % 2], Hs, [.06 + .002 * i for i in range(n)],
            [1. + .5 * (i * 5 % 7) for i in range(n)], 0.4, p, lib.log_time())
    judge(ctx, live(lib, kind, *args, B=5.), lib, kind, *args, 5., '%s:' % case)
    ctx.evaluation(case)


def do_heights(case, ctx, lib):
    kind = case['bhe']
    p = parts(lib, kind)
    o = case['order']
    rs, Ds = [0.07, 0.075, 0.08], [1., 2., 3.5]
    a = [[v[i] for i in o] for v in (HS, rs, Ds)]
    g = live(lib, kind, FIELDS[2], a[0], a[1], a[2], 0.3, p, lib.log_time(), B=5.5)
    judge(ctx, g, lib, kind, FIELDS[2], a[0], a[1], a[2], 0.3, p, lib.log_time(),
          5.5, 'heights %s:' % a[0])
    # usable: the curve comes back at each height
    for H, r, D in zip(*a):
        y, rr, DD, h = g.g_function_interpolation(5.5 / H)
        ctx.close(y, g.g_lts[H], 'heights %s: interpolated at %s' % (a[0], H),
                  rel=1e-7)
        ctx.close([rr, DD, h], [r, D, H], 'heights %s: radius, depth' % a[0])
    ctx.evaluation('heights', kind, o)


def do_order(case, ctx, lib):
    o = case['order']
    base = [(0., 0.), (5., 0.), (0., 7.), (11., 3.), (6., 12.)][:len(o)]
    loc = [base[i] for i in o]
    for k, bc in (('single', 'MIFT'), ('coaxial', 'MIFT'), ('double', 'UBWT'),
                  ('single', 'UHTR')):
        p = parts(lib, k)
        a = live(lib, k, base, [90.], [.075], [2.], 0.25, p, LT, bc=bc)
        b = live(lib, k, loc, [90.], [.075], [2.], 0.25, p, LT, bc=bc)
        # the solver groups similar boreholes, which is not quite exact
        ctx.close(b.g_lts[90.], a.g_lts[90.], '%s, %s, borehole order %s'
                  % (k, bc, o), rel=2e-3)
        ctx.check(b.bore_locations == loc, 'borehole order changed')
        ctx.evaluation('order', k, bc, o)


REQUESTS = [
    dict(kind='single', loc=FIELDS[1], H=100.),
    dict(kind='single', loc=FIELDS[1], H=60.),
    dict(kind='single', loc=FIELDS[3], H=100.),
    dict(kind='coaxial', loc=FIELDS[1], H=100.),
    dict(kind='single', loc=FIELDS[1], H=100., r=0.09),
    dict(kind='single', loc=FIELDS[1], H=100., bc='UBWT'),
    dict(kind='single', loc=FIELDS[1], H=100., nSegments=4),
    dict(kind='single', loc=FIELDS[1], H=100., m=0.05),
    dict(kind='single', loc=FIELDS[1], H=100., soil=(2.9, 2.1e6)),
    dict(kind='single', loc=FIELDS[1], H=100., soil=(2.2, 2.9e6)),
    dict(kind='single', loc=FIELDS[1], H=100., grout=0.5),
    dict(kind='single', loc=FIELDS[1], H=100., pipe=0.2),
    dict(kind='single', loc=FIELDS[1], H=100., fluid=('MPG', 25.)),
    dict(kind='single', loc=FIELDS[1], H=100., D=5.),
    dict(kind='single', loc=[(0., 0.), (0., 8.)], H=100.)]
_FRESH = {}


def request(lib, q, shared):
    kw = {k: v for k, v in q.items() if k in ('bc', 'nSegments')}
    p = materials(lib, q, shared[q['kind']])
    return live(lib, q['kind'], q['loc'], [q['H']], [q.get('r', 0.075)],
                [q.get('D', 2.)], q.get('m', 0.25), p, LT, **kw)


def materials(lib, q, p):
    p = dict(p)
    if 'soil' in q:
        p['soil'] = lib.soil(*q['soil'])
    if 'grout' in q:
        p['grout'] = lib.grout(q['grout'])
    if 'pipe' in q:
        p['pipe'] = lib.pipe(q['kind'])
        p['pipe'].k = q['pipe']
    if 'fluid' in q:
        p['fluid'] = lib.fluid(*q['fluid'])
    return p


def do_history(case, ctx, lib):
    seqs = [case['first'] + [case['last']]] if case['last'] is not None else \
        [case['first'] + [j] for j in range(len(REQUESTS))]
    for seq in seqs:
        shared = {k: parts(lib, k) for k in KINDS}
        got = [request(lib, REQUESTS[i], shared) for i in seq]
        for i, g in zip(seq, got):
            q = REQUESTS[i]
            if i not in _FRESH:
                _FRESH[i] = direct(
                    lib, q['kind'], q['loc'], q['H'], q.get('D', 2.),
                    q.get('r', .075), q.get('m', .25),
                    materials(lib, q, parts(lib, q['kind'])), LT,
                    **{k: v for k, v in q.items() if k in ('bc', 'nSegments')})
            ctx.check(list(g.g_lts) == [q['H']], 'after', seq, 'heights', list(g.g_lts))
            ctx.close(g.g_lts[q['H']], _FRESH[i], 'request %d within %s' % (i, seq))
            ctx.close(g.r_b_values[q['H']], q.get('r', .075), 'radius in %s' % seq)
        ctx.evaluation('history', seq)


def do_ghe(case, ctx, lib):
    """The family an exchanger computes for sizing."""
    kind, loc = case['bhe'], FIELDS[case['field']]
    n = len(loc)
    for lo, hi in ((60., 135.), (30.5, 200.)):
        b = lib.borehole(100., D=0.41234567, r_b=0.0801234567)
        B = lib.dt.utilities.borehole_spacing(b, loc)
        g0 = lib.gfunction(B=B, heights=(100.,), locations=loc)
        ghe = lib.ghe(kind, V=0.3, nbh=n, g=g0, B=B, borehole=b,
                      sim=lib.sim(1, 2, 35., 5., hi, lo))
        ghe.compute_g_functions()
        x = ghe.bhe
        p = dict(fluid=x.fluid, pipe=x.pipe, grout=x.grout, soil=x.soil)
        Hs = sorted(ghe.GFunction.g_lts)
        ctx.check(len(Hs) >= 2 and Hs[0] == lo and Hs[-1] == hi, 'heights', Hs,
                  'for', lo, hi)
        judge(ctx, ghe.GFunction, lib, kind, loc, Hs, [0.0801234567] * len(Hs),
              [0.41234567] * len(Hs), 0.3 / 1000. * x.fluid.rho, p, lib.log_time(), B,
              '%s field of %d, sizing:' % (kind, n))
        ctx.evaluation('ghe', kind, n, lo)


ONE = [dict(), dict(end_length_ratio=0.05), dict(nSegments=6),
       dict(end_length_ratio=0.11, nSegments=5),
       dict(nSegments=5, solver='similarities')]


def do_one(case, ctx, lib):
    """One g-function, with the options the families do not pass on; inclined
    boreholes."""
    loc, bc, kw = FIELDS[case['field']], case['bc'], ONE[case['i']]
    p = parts(lib, 'single')
    H, D, r, m = 87.5, 3.25, 0.082, 0.31
    alpha = p['soil'].k / p['soil'].rhoCp
    t = np.array([math.exp(x) * H * H / (9. * alpha) for x in LT])
    for inclined in ((0., 0.), (0.15, 0.7), (0.05, -2.)):
        if inclined[0] and 'solver' not in kw:
            continue
        b = lib.gt.boreholes.Borehole(H, D, r, 1., 2., *inclined)
        before = [float(v) for v in vars(b).values()]
        g = lib.dt.gfunction.calculate_g_function(
            m, lib.CLS['single'], t, loc, b, p['fluid'], p['pipe'], p['grout'],
            p['soil'], boundary=bc, **kw)
        want = direct(lib, 'single', loc, H, D, r, m, p, LT, bc=bc,
                      tilt=inclined[0], orientation=inclined[1], **kw)
        ctx.close(list(map(float, g.gFunc)), want, '%s %s inclined %s:' % (
            bc, kw, inclined))
        ctx.check([float(v) for v in vars(b).values()] == before,
                  'the borehole was altered')
        ctx.evaluation('one', case, inclined)


def do_database(case, ctx, lib):
    f = lib.dt.gfunction.GFunction.configure_database_file_for_usage
    curves = {8.: [1., 2.], 24.: [1.5, 2.5], 100.5: [2., 3.25], 384.: [2., 4.]}
    for n in range(1, 5):
        for hs in itertools.permutations(curves, n):
            for D in (None, 2., 4.25):
                for B in (5., 4.5):
                    keys = ['%s_%s_%s' % (B, h, 0.075 + i / 1000.) +
                            ('' if D is None else '_%s' % (D + i))
                            for i, h in enumerate(hs)]
                    data = dict(g={k: curves[h] for k, h in zip(keys, hs)},
                                logtime=[-1., 0.], bore_locations=[[0., 0.]])
                    before = copy.deepcopy(data)
                    d = f(data)
                    ctx.check(data == before, 'the database was altered', keys)
                    g = lib.dt.gfunction.GFunction(**d)
                    ctx.check(g.B == B, 'spacing of', keys, 'is', g.B)
                    ctx.check(g.g_lts == {h: curves[h] for h in hs}, 'curves of',
                              keys, g.g_lts)
                    ctx.check(list(g.g_lts) == sorted(hs), 'heights of', keys,
                              'not in order')
                    ctx.close([g.r_b_values[h] for h in hs],
                              [.075 + i / 1000. for i in range(n)], 'radii of %s'
                              % keys)
                    ctx.close([g.D_values[h] for h in hs],
                              [2. if D is None else D + i for i in range(n)],
                              'depths of %s' % keys)
                    ctx.check(g.log_time == [-1., 0.] and
                              g.bore_locations == [[0., 0.]], 'times, locations')
                    ctx.evaluation('database', keys)
