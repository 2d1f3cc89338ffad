"""C21: exports, reports and saved objects."""
import itertools
import json
import math
import os
import re
import shutil
import tempfile
from types import SimpleNamespace

from checks.c14 import interpolate

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('every exchanger type x height x number of boreholes x start month is '
        'simulated, exported, read back and reported; every nested value up to '
        'the bound is written as JSON and read back; every kind of object is '
        'saved and read back.  Objects with more than one value count as '
        'non-trivial')
BOUNDS = {
    'quick': '3 types x 8 heights (5 to 384 m) x 4 fields (to 130 boreholes); 6 JSON leaves, depth 3; '
             '9 kinds of objects x 3; 4 names of exported files',
    'thorough': '3 types x 20 heights x 7 fields; 9 JSON leaves; 9 kinds x 3'}
ASSUMPTIONS = ['numbers of the report are compared to the digits it prints']
FLOOR = 200
HS = [5., 12., 21., 45.0123456, 100., 137.25, 249.99999, 384.]
HT = HS + [8., 30., 60., 75., 90., 110., 123.4567, 150., 175., 200., 300., 350.]
FIELDS = [[(0., 0.)], [(0., 0.), (5., 0.), (0., 6.5), (5., 6.5)],
          [(4.123456 * i, 7.5 * j) for i in range(26) for j in range(5)],
          [(0., 0.), (7.25, 0.), (1e-3, 8.)], [(3., 4.), (3., 9.)],
          [(5. * i, 0.) for i in range(12)],
          [(4.45 * i, 5.1 * j) for i in range(5) for j in range(4)]]
SIMS = [(1, 3, 35., 5., 400., 4.), (4, 7, 27.25, -2.5, 500.5, 3.75),
        (12, 13, 8.125, 7., 410., 2.)]
FAMILY = (4., 20., 60., 150., 400.)


def cases(tier, seed):
    q = tier == 'quick'
    for k in ('double', 'coaxial', 'single'):
        for h in (HS if q else HT):
            for f in range(4 if q else 7):
                yield dict(kind='design', bhe=k, H=h, field=f,
                           mat=(f + HT.index(h)) % 3)
    for i in range(6 if q else 9):
        yield dict(kind='json', leaf=i, n=6 if q else 9)
    for i in range(9):
        yield dict(kind='object', i=i)


def run_case(case, ctx, lib):
    d = tempfile.mkdtemp(prefix='c21_')
    old = os.getcwd()
    try:
        os.chdir(d)
        globals()['do_' + case['kind']](case, ctx, lib)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def curve(h, x):
    return 10. + x + math.log(h) + 0.02 * (x + 9.) ** 2 * h / 100.


def do_design(case, ctx, lib):
    kind, H = case['bhe'], case['H']
    loc = FIELDS[case['field']]
    n = len(loc)
    b = lib.borehole(100.)
    B = lib.dt.utilities.borehole_spacing(b, loc)
    g = lib.dt.gfunction.GFunction(
        B, {h: 0.06 for h in FAMILY}, {h: 2. for h in FAMILY},
        {h: [curve(h, x) for x in lib.log_time()] for h in FAMILY},
        lib.log_time(), loc)
    ghe = lib.ghe(kind, V=0.3, nbh=n, g=g, B=B, borehole=b,
                  sim=lib.sim(*SIMS[case['mat']]))
    ghe.bhe.b.H = H
    mx, mn = ghe.simulate()
    search = SimpleNamespace(ghe=ghe, selected_coordinates=loc)
    where = '%s, %s m, field of %d:' % (kind, H, n)
    name = ('out', 'a.b', 'sub dir/x y', 'ghedt_output')[(case['field'] + len(kind)) % 4]
    os.mkdir('sub dir')
    args = {} if name == 'ghedt_output' else dict(file_name=name)
    lib.dt.search_routines.oak_ridge_export(search, **args)
    written = [os.path.join(r, f) for r, _, fs in os.walk('.') for f in fs]
    ctx.check(written == ['./' + name + '.json'], where, 'files', written)
    d = lib.dt.utilities.js_load(name + '.json')
    export(ctx, lib, ghe, d, H, n, where)
    report(ctx, lib, ghe, repr(ghe), loc, H, B, mx, mn, where)
    ctx.evaluation(kind, H, n)
    ctx.sample(dict(case=case, pairs=len(d['g_function_pairs'])))


def pairs_ok(ctx, lib, ghe, pairs, H, where, tol, few):
    x = [p[0] for p in pairs]
    y = [p[1] for p in pairs]
    ctx.check(all(a < b for a, b in zip(x, x[1:])), where,
              'times do not increase strictly')
    lt = lib.log_time()
    # the long time step values at this height
    want = []
    for t in lt:
        ys = [curve(h, t) for h in FAMILY]
        v = ys[FAMILY.index(H)] if H in FAMILY else \
            interpolate(list(FAMILY), ys, 'cubic', H)
        want.append(v - math.log(ghe.bhe.b.r_b / 0.06))
    ctx.close(x[-27:], lt, where + ' long time steps', abs_=tol)
    ctx.close(y[-27:], want, where + ' long time step values', abs_=tol, rel=1e-8)
    f = ghe.grab_g_function(ghe.B_spacing / H)
    gx = [float(v) for v in f.x]
    ns = len(gx) - 27
    sx, sy = x[:-27], y[:-27]
    # short times: nodes of the combined response, spread over all of it
    idx = []
    for a, v in zip(sx, sy):
        i = min(range(ns), key=lambda j: abs(gx[j] - a))
        ctx.check(abs(gx[i] - a) <= tol, where, 'time', a, 'is no node')
        ctx.check(abs(float(f.y[i]) - v) <= tol, where, 'value', v, 'at', a,
                  'expected', float(f.y[i]))
        idx.append(i)
    ctx.check(len(idx) >= min(few, ns - 1), where, 'only', len(idx),
              'short time steps of', ns)
    if idx:
        step = max(1, ns // few)
        gaps = [b - a for a, b in zip(idx, idx[1:])]
        ctx.check(idx[0] <= 1 and ns - 1 - idx[-1] <= step and
                  all(g <= step for g in gaps), where,
                  'short time steps are not spread over the response', idx[:5])


def export(ctx, lib, ghe, d, H, n, where):
    e = ghe.bhe_eq
    ctx.close(d['borehole_length'], H, where + ' height exported', abs_=0.)
    ctx.check(d['number_of_boreholes'] == n, where, 'boreholes exported',
              d['number_of_boreholes'])
    u = d['single_u_tube']
    ctx.check(sorted(u) == sorted(['r_b', 'r_in', 'r_out', 's', 'pos', 'k_g', 'k_s',
                                   'k_p', 'm_flow_borehole']), where,
              'single U-tube entries', sorted(u))
    want = dict(r_b=e.b.r_b, r_in=e.pipe.r_in, r_out=e.pipe.r_out, s=e.pipe.s,
                m_flow_borehole=ghe.bhe.m_flow_borehole, k_g=e.grout.k,
                k_s=ghe.bhe.soil.k, k_p=e.pipe.k)
    for k, v in want.items():
        ctx.close(u[k], v, where + ' exported ' + k, rel=1e-12, abs_=0.)
    ctx.close(u['pos'], [list(map(float, p)) for p in e.pipe.pos],
              where + ' exported positions', abs_=1e-15)
    pairs_ok(ctx, lib, ghe, [(p['ln_tts'], p['g_value'])
                             for p in d['g_function_pairs']], H, where, 1e-9, 30)


def value(ctx, text, label, where, nth=0):
    r = [l.split('=', 1)[1] for l in text.splitlines()
         if '=' in l and re.fullmatch(label, l.split('=', 1)[0].strip())]
    ctx.check(len(r) > nth, where, 'the report has no line', label)
    m = re.match(r'\s*(-?[\d.]+(?:e-?\d+)?)', r[nth])
    ctx.check(m is not None, where, 'unreadable', r[nth])
    return float(m.group(1))


def near(ctx, a, b, where, what):
    ctx.check(abs(a - b) <= 0.51e-4 + 1e-9 * abs(b), where, what, 'reported as', a,
              'is', b)


def report(ctx, lib, ghe, text, loc, H, B, mx, mn, where):
    v = lambda label, nth=0: value(ctx, text, label, where, nth)
    near(ctx, v(r'Number of bor\w*'), len(loc), where, 'number of boreholes')
    near(ctx, v('Depth of the borehole'), H, where, 'height')
    near(ctx, v('Bore ?hole spacing'), B, where, 'spacing')
    near(ctx, v('Max HP entering temp'), mx, where, 'maximum temperature')
    near(ctx, v('Min HP entering temp'), mn, where, 'minimum temperature')
    s0, s1, smx, smn, sH, sh = SIMS[lib.mat]
    near(ctx, v('Excess fluid temperature'), max(mx - smx, smn - mn), where,
         'excess temperature')
    near(ctx, v('Start month'), s0, where, 'start month')
    near(ctx, v('End month'), s1, where, 'end month')
    near(ctx, v('Max EFT Allowable'), smx, where, 'max limit')
    near(ctx, v('Min EFT Allowable'), smn, where, 'min limit')
    near(ctx, v('Maximum height'), sH, where, 'max height')
    near(ctx, v('Minimum height'), sh, where, 'min height')
    b, e = ghe.bhe, ghe.bhe_eq
    for nth, x in ((0, b), (1, e)):
        w = where + (' equivalent' if nth else ' exchanger')
        near(ctx, v('Mass flow borehole', nth), x.m_flow_borehole, w, 'flow')
        near(ctx, v('Mass flow pipe', nth), x.m_flow_pipe, w, 'pipe flow')
        near(ctx, v('Effective borehole resistance', nth),
             x.compute_effective_borehole_resistance(), w, 'resistance')
        near(ctx, v('Undisturbed ground temperature', nth), b.soil.ugt, w, 'ground')
    u = [x for x in (b, e) if hasattr(x, 'h_f')]
    for nth, x in enumerate(u):
        w = where + ' U-tube'
        f = x.fluid
        near(ctx, v('Convection coefficient', nth), x.h_f, w, 'film coefficient')
        near(ctx, v('Pipe resistance', nth), x.R_p, w, 'pipe resistance')
        near(ctx, v('Fluid resistance', nth), x.R_f, w, 'film resistance')
        near(ctx, v('Reynolds number', nth),
             4. * x.m_flow_pipe / math.pi / 2. / x.pipe.r_in / f.mu, w, 'Reynolds')
    if u[0] is not b:
        f = b.fluid
        for label, a in (('Inner pipe resistance', 'R_p_in'),
                         ('Outer pipe resistance', 'R_p_out'),
                         ('Grout resistance', 'R_grout'),
                         ('Inner annulus convection coef', 'h_fluid_a_in'),
                         ('Outer annulus convection coef', 'h_fluid_a_out'),
                         ('Inner annulus resistance', 'R_f_a_in'),
                         ('Outer annulus resistance', 'R_f_a_out'),
                         ('Inner Convection coefficient', 'h_fluid_in'),
                         ('Fluid-to-fluid resistance', 'R_ff'),
                         ('Fluid-to-pipe resistance', 'R_fp')):
            near(ctx, v(label), getattr(b, a), where, label)
        near(ctx, v('Reynolds annulus'), 2. * b.m_flow_borehole / math.pi /
             (b.r_in_out + b.r_out_in) / f.mu, where, 'annulus Reynolds')
        near(ctx, v('Reynolds inner'), 2. * b.m_flow_borehole / math.pi /
             b.r_in_in / f.mu, where, 'inner Reynolds')
    # tables
    lines = text.splitlines()
    i = next(k for k, l in enumerate(lines) if l.startswith('x(m)'))
    j = next(k for k, l in enumerate(lines) if l.startswith('ln(t/ts)'))
    xy = [tuple(map(float, l.split('\t'))) for l in lines[i + 1:j - 1]]
    ctx.check(xy == [tuple(map(float, p)) for p in loc], where,
              'coordinates reported as', xy)
    tab = [tuple(map(float, l.split('\t'))) for l in lines[j + 1:] if '\t' in l]
    g = ghe.grab_g_function(ghe.B_spacing / H)
    # four digits; neighbouring short times may print alike
    ctx.check(len(tab) >= 27, where, 'g-function table has', len(tab), 'rows')
    x = [p[0] for p in tab]
    ctx.check(all(p <= q for p, q in zip(x, x[1:])), where,
              'g-function table is not in order')
    ctx.close(x[-27:], lib.log_time(), where + ' table times', abs_=1e-4)
    for a, y in tab[-27:]:
        near(ctx, y, float(g(min(max(a, g.x[0]), g.x[-1]))), where,
             'g(%s)' % a)
    lo = float(g.y[0]) - 1e-4
    for (a, y) in tab[:-27]:
        k = min(range(len(g.x)), key=lambda q: abs(float(g.x[q]) - a))
        # the slope between the printed digits of the time
        ctx.check(abs(float(g.y[k]) - y) <= 1e-3, where, 'g(%s)' % a,
                  'reported as', y, 'is', float(g.y[k]))


LEAVES = [1.5, 'a b', None, [1, 2.25], True, -3e-7, 10 ** 12, '', {}]


def do_json(case, ctx, lib):
    lv = LEAVES[:case['n']]
    a = LEAVES[case['leaf']]
    ut = lib.dt.utilities
    k = 0
    for b, c in itertools.product(lv, repeat=2):
        for d in ({'x': a, 'y': {'z': b}, 'w': [c, [a, b]]}, [a, {'k': b}, c], a):
            k += 1
            name = 'sub.name%d' % (k % 3)
            for kw in ({}, {'indent': 1}):
                ut.js_dump(name, d, **kw)
                got = ut.js_load(name + '.json')
                ctx.check(got == d and type(got) is type(d), 'JSON', d,
                          'reads back as', got)
                with open(name + '.json') as f:
                    ctx.check(json.load(f) == d, 'file differs', d)
            ctx.evaluation('json', d)
        os.remove(name + '.json')
    ut.create_if_not('new/dir')
    ctx.check(os.path.isdir('new/dir'), 'create_if_not made no directory')
    open('new/dir/f', 'w').close()
    ut.create_if_not('new/dir')
    ctx.check(os.listdir('new/dir') == ['f'], 'create_if_not emptied a directory')


def flat(x, depth=0):
    """Everything an object holds, down to numbers."""
    import numpy as np
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return x
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, dict):
        return {str(k): flat(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [flat(v, depth + 1) for v in x]
    if isinstance(x, type) or callable(x) and not hasattr(x, 'x'):
        return getattr(x, '__qualname__', str(type(x)))
    if depth > 12 or type(x).__module__.startswith('scp'):
        return str(type(x))
    return [str(type(x)), flat(vars(x), depth + 1)]


def do_object(case, ctx, lib):
    from mc import lands as LD
    ut = lib.dt.utilities
    i = case['i']
    for v in range(3):
        obj = [
            lambda: LD.design(lib, 'near-square', dict(length=10. + 5 * v, B=5.),
                              flow=['borehole', 'system'][v % 2]),
            lambda: LD.design(lib, 'bi-rectangle', dict(
                length=20. + v, width=15., B_min=4., B_max_x=8., B_max_y=6.)),
            lambda: LD.design(lib, 'rectangle', dict(
                length=20. + v, width=15., B_min=4., B_max_x=8.)),
            lambda: LD.design(lib, 'bi-zoned', dict(
                length=20. + v, width=15., B_min=3., B_max_x=5., B_max_y=5.)),
            lambda: lib.sim(1 + v, 24, 35., 5., 150., 60.),
            lambda: lib.dt.media.GeometricConstraints(
                length=5. * v, B=5., no_go=[[0, 1], [v, 2.5]]),
            lambda: lib.gfunction(heights=(60., 100. + v)),
            lambda: [lib.soil(1. + v), lib.pipe('coaxial'), lib.grout(2. + v)],
            lambda: {'a': [v, 2.5], 'b': {'c': None}}][i]()
        before = flat(obj)
        name = ['ghedt_input', 'x', 'deep.name'][v]
        if v == 0:
            ut.create_input_file(obj)
        else:
            ut.create_input_file(obj, file_name=name)
        ctx.check(os.listdir('.') == [name + '.obj'], 'files written:',
                  os.listdir('.'))
        ctx.check(flat(obj) == before, 'saving changes the object')
        got = ut.read_input_file(name + '.obj')
        ctx.check(flat(got) == before, 'an object of kind', i, 'reads back as',
                  repr(got))
        os.remove(name + '.obj')
        ctx.evaluation('object', i, v)
