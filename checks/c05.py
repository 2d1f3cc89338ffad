"""C05: designs found end to end, with real physics; uses of shared inputs."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np

from checks.c21 import flat
from mc import core
from mc import lands as LD
from mc import search as S
from mc.fixtures import loads_profile

PROPERTY = 'C05'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'real physics: 4 routines x 3 exchangers x 2 flow conventions with one '
             'load each (two for the near-square and rectangle routines); seam '
             'physics: every sequence of three of 7 uses of two designs that share '
             'their inputs, for 10 pairs of routines, and 22 lands from two '
             'candidates up, every requirement; real physics: a '
             'design and each of 16 that differ from it in one input, in both '
             'orders, against the second one alone in a new process',
    'thorough': 'three loads and three lands per routine, exchanger and flow '
                'convention; every sequence of four uses, 16 pairs of routines; '
                'real physics for every sequence of two uses and for every ordered '
                'pair of the 17 designs and exchanger'}
ASSUMPTIONS = ['for the sequences of uses the entering temperatures are answered by '
               'a fixed function of field, height and flow (GHE.simulate is the '
               'seam); the end to end designs use no seam']
FLOOR = 100
ROUTINES = ['near-square', 'rectangle', 'bi-rectangle', 'bi-zoned']
LANDS = {
    'near-square': [dict(length=15., B=5.), dict(length=12., B=6.),
                    dict(length=20., B=4.5)],
    'rectangle': [dict(length=18., width=10., B_min=4., B_max_x=6.5),
                  dict(length=9., width=16., B_min=4., B_max_x=6.),
                  dict(length=20., width=20., B_min=5., B_max_x=8.)],
    'bi-rectangle': [
        dict(length=15., width=11., B_min=4., B_max_x=6., B_max_y=6.),
        dict(length=11., width=16., B_min=4.5, B_max_x=6., B_max_y=7.),
        dict(length=18., width=12., B_min=4., B_max_x=7., B_max_y=5.)],
    'bi-zoned': [
        dict(length=18., width=12., B_min=4.5, B_max_x=7., B_max_y=6.5),
        dict(length=12., width=15., B_min=4., B_max_x=6., B_max_y=7.),
        dict(length=16., width=16., B_min=4., B_max_x=6., B_max_y=6.)]}
KINDS = ['coaxial', 'double', 'single']
FLOW = {'borehole': 0.3, 'system': 2.5}
USES = ['find A', 'find B', 'save, load and find A', 'new A from the inputs',
        'new B from the inputs', 'find A at system flow', 'size B']


def cases(tier, seed):
    q = tier == 'quick'
    # the expensive ones first
    for r in reversed(ROUTINES):
        for k in KINDS:
            for flow in ('borehole', 'system'):
                for land in range(1 if q else 3):
                    for load in range((2 if r in ROUTINES[:2] else 1) if q else 3):
                        yield dict(kind='real', routine=r, bhe=k, flow=flow,
                                   land=land, load=load,
                                   mat=(KINDS.index(k) + ROUTINES.index(r) + load
                                        + (flow == 'system')) % 3)
    pairs = list(itertools.product(range(4), repeat=2))
    if q:
        pairs = [p for p in pairs if p[0] <= p[1]]
    for a, b in pairs:
        for first in itertools.product(range(len(USES)), repeat=1 if q else 2):
            yield dict(kind='uses', pair=[a, b], first=list(first),
                       depth=3 if q else 4)
    if not q:
        for k in KINDS:
            for seq in itertools.product(range(len(USES)), repeat=2):
                yield dict(kind='realuses', bhe=k, seq=list(seq))
    for r in ROUTINES:
        for i in range(len(TINY[r])):
            for flow in ('borehole', 'system'):
                yield dict(kind='given', routine=r, land=i, flow=flow)
    n = range(len(VARIANTS))
    if q:
        todo = [(a, b) for a in n for b in n if (a == 0) != (b == 0)]
    else:
        todo = [(a, b) for a in n for b in n if a != b]
    for k in ['single'] if q else KINDS:
        for a, b in todo:
            yield dict(kind='differ', first=a, second=b, bhe=k)


CHUNKS_PER_WORKER = 1000


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


# ------------------------------------------------------------ real physics
SIM = dict(start=1, end=12, mn=2., H=120., h=50.)
# scale of the loads per routine: several boreholes, less than the largest field
SCALE = {'near-square': [32., 14., 40.], 'rectangle': [22., 32., 12.],
         'bi-rectangle': [30., 20., 36.], 'bi-zoned': [32., 20., 40.]}


def shared(lib, kind, load=1.):
    load *= (1., 0.5, 1.4)[lib.mat]
    ugt = lib.soil().ugt
    return dict(borehole=lib.borehole(100.), bhe_object=lib.CLS[kind],
                fluid=lib.fluid(), pipe=lib.pipe(kind), grout=lib.grout(),
                soil=lib.soil(), sim_params=lib.sim(**dict(
                    SIM, mx=35. + ugt - 18.3, mn=SIM['mn'] + ugt - 18.3)),
                loads=loads_profile(700. * load, 1100. * load))


def fresh_excess(lib, inp, coords, H, V, flow):
    """Excess temperature of a newly built exchanger of this field."""
    n = len(coords)
    per = V if flow == 'borehole' else V / n
    b = lib.borehole(H)
    B = lib.dt.utilities.borehole_spacing(b, coords)
    g = lib.dt.gfunction.compute_live_g_function(
        B, [H], [b.r_b], [b.D], per / 1000. * inp['fluid'].rho, inp['bhe_object'],
        lib.log_time(), coords, inp['fluid'], inp['pipe'], inp['grout'],
        inp['soil'])
    ghe = lib.dt.ground_heat_exchangers.GHE(
        per * n, B, inp['bhe_object'], inp['fluid'], b, inp['pipe'], inp['grout'],
        inp['soil'], g, inp['sim_params'], inp['loads'])
    hi, lo = ghe.simulate()
    sp = inp['sim_params']
    return max(hi - sp.max_EFT_allowable, sp.min_EFT_allowable - lo), ghe


def nested(d):
    return getattr(d, 'coordinates_domain_nested', None) or [d.coordinates_domain]


def do_real(case, ctx, lib):
    r, kind, flow = case['routine'], case['bhe'], case['flow']
    V = FLOW[flow]
    inp = shared(lib, kind, SCALE[r][case['load']])
    gc = lib.dt.media.GeometricConstraints(**LANDS[r][case['land']])
    before = flat([inp, gc])
    d = LD.design(lib, r, gc, V_flow=V, flow=flow, **inp)
    doms = copy.deepcopy(nested(d))
    state = flat(d)
    s = d.find_design()
    where = '%s:' % case
    ctx.check(flat([inp, gc]) == before, where, 'an input was altered')
    ctx.check(flat(d) == state, where, 'the design was altered')
    sel = [tuple(c) for c in s.selected_coordinates]
    H = float(s.ghe.bhe.b.H)
    n = len(sel)
    ctx.check(50. <= H <= 120., where, 'height', H)
    ctx.check([tuple(c) for c in s.ghe.GFunction.bore_locations] == sel, where,
              'exchanger and field differ')
    ctx.step()
    pure = copy.deepcopy(inp)
    # find the field in the candidate lists
    at = [(i, j) for i, dom in enumerate(doms) for j, f in enumerate(dom)
          if [tuple(c) for c in f] == sel]
    ctx.check(at, where, 'the field is no candidate')
    e, ghe = fresh_excess(lib, pure, sel, H, V, flow)
    sized = r == 'bi-zoned'
    # the sizing interpolates between three g-functions
    ctx.check(e <= (0.05 if sized else 1e-6), where, 'field of', n, 'at', H,
              'exceeds the limit by', e)
    if sized:
        ctx.check(e >= -0.05 or H <= 50. + 1e-6, where, 'field of', n, 'at', H,
                  'is not sized: excess', e)
        ctx.close([max(s.ghe.HPEFT), min(s.ghe.HPEFT)],
                  [max(ghe.HPEFT), min(ghe.HPEFT)], where + ' temperatures',
                  abs_=0.05)
    else:
        ctx.check(H == 120., where, 'height', H)
        hi, lo = s.ghe.simulate()
        ctx.close([hi, lo], [max(ghe.HPEFT), min(ghe.HPEFT)],
                  where + ' temperatures of the exchanger handed back', rel=1e-7)
    # the next smaller candidate of its list
    prev = [doms[i][j - 1] for i, j in at if j > 0]
    if prev:
        e2 = min(fresh_excess(lib, pure, f, 120., V, flow)[0] for f in prev[:1])
        ctx.check(e2 > 0., where, 'the next smaller field of', len(prev[0]),
                  'suffices: excess', e2)
        ctx.count('bounded_below')
    ctx.count('size_%d' % n)
    ctx.state(r, kind, flow, n, round(H, 3), round(e, 6))
    ctx.trace()
    ctx.sample(dict(case=case, field=n, height=H, excess=e,
                    largest=len(doms[-1][-1])))


# ------------------------------------------------------- uses, seam physics
def response(kind):
    def f(key, H, ghe):
        x, y = zip(*key)
        m = float(ghe.bhe.m_flow_borehole)
        return 100. * (900. / (len(key) * H) - 1.) - 0.3 * m \
            - 0.01 * (max(x) + max(y)) + 2. * float(ghe.bhe.grout.k) \
            + 1e-3 * float(ghe.hourly_extraction_ground_loads[0])
    return f


def result(s):
    g = s.ghe
    return dict(field=[tuple(map(float, c)) for c in s.selected_coordinates],
                key=getattr(s, 'selection_key', None), H=float(g.bhe.b.H),
                eft=[float(x) for x in getattr(g, 'HPEFT', None)
                     if x is not None] if getattr(g, 'HPEFT', None) is not None
                else None,
                nbh=g.nbh, V=float(g.V_flow_system), m=float(g.bhe.m_flow_borehole),
                B=float(g.B_spacing), curves=sorted(g.GFunction.g_lts),
                g=[list(map(float, v)) for _, v in sorted(g.GFunction.g_lts.items())],
                Rb=float(g.bhe.compute_effective_borehole_resistance()))


def play(lib, use, ds, inp, gcs, routines, V):
    """One use; returns a description of the result."""
    if use == 'find A':
        return result(ds[0].find_design())
    if use == 'find B':
        return result(ds[1].find_design())
    if use == 'save, load and find A':
        lib.dt.utilities.create_input_file(ds[0], file_name='a')
        d = lib.dt.utilities.read_input_file('a.obj')
        os.remove('a.obj')
        return result(d.find_design())
    if use.startswith('new'):
        k = 0 if use[4] == 'A' else 1
        return result(LD.design(lib, routines[k], gcs[k], V_flow=V, **inp)
                      .find_design())
    if use == 'find A at system flow':
        return result(LD.design(lib, routines[0], gcs[0], V_flow=V * 5, flow='system',
                                **inp).find_design())
    s = ds[1].find_design()
    s.ghe.compute_g_functions()
    s.ghe.size()
    return result(s)


def same(ctx, got, want, where, rel):
    for k in want:
        if k in ('field', 'nbh', 'key', 'curves'):
            ctx.check(got[k] == want[k], where, k, 'is', str(got[k])[:200],
                      'on its own', str(want[k])[:200])
        elif want[k] is None or got[k] is None:
            ctx.check(want[k] is got[k], where, k, 'is', got[k], 'on its own', want[k])
        elif k == 'g':
            for a, b in zip(got[k], want[k]):
                ctx.close(a, b, where + ' g-function', rel=rel)
        else:
            ctx.close(got[k], want[k], '%s %s' % (where, k), rel=rel)


_OWN = {}


def sequences(ctx, lib, seqs, kind, routines, V, make, tag, rel):
    tmp = tempfile.mkdtemp(prefix='c05_')
    old = os.getcwd()
    os.chdir(tmp)
    try:
        def setup():
            inp = make()
            gcs = [lib.dt.media.GeometricConstraints(**LANDS[r][i])
                   for i, r in enumerate(routines)]
            ds = [LD.design(lib, r, g, V_flow=V, **inp)
                  for r, g in zip(routines, gcs)]
            return inp, gcs, ds

        for seq in seqs:
            inp, gcs, ds = setup()
            before = flat([inp, gcs, ds])
            for n, i in enumerate(seq):
                key = (tag, tuple(routines), i)
                if key not in _OWN:
                    a, b, c = setup()
                    _OWN[key] = play(lib, USES[i], c, a, b, routines, V)
                got = play(lib, USES[i], ds, inp, gcs, routines, V)
                where = '%s %s after %s:' % (routines, USES[i],
                                             [USES[j] for j in seq[:n]])
                same(ctx, got, _OWN[key], where, rel)
                ctx.check(flat([inp, gcs, ds]) == before, where,
                          'an input or a design was altered')
                ctx.step()
                ctx.state(tag, routines, i, got['field'], got['H'])
            ctx.trace()
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def do_uses(case, ctx, lib):
    routines = [ROUTINES[i] for i in case['pair']]
    n = len(USES)
    seqs = [tuple(case['first']) + t for t in itertools.product(
        range(n), repeat=case['depth'] - len(case['first']))]

    def make():
        i = shared(lib, 'single')
        i['loads'] = [1., -1.] * 12
        i['sim_params'] = lib.sim(1, 24, 2035., -1995., 150., 60.)
        return i
    with S.seam(S.World(lib, response('single'))):
        sequences(ctx, lib, seqs, 'single', routines, 0.3, make, 'seam', 1e-9)


def do_realuses(case, ctx, lib):
    def make():
        return shared(lib, case['bhe'], 18.)
    sequences(ctx, lib, [tuple(case['seq'])], case['bhe'],
              ['near-square', 'rectangle'], FLOW['borehole'], make,
              'real ' + case['bhe'], 1e-7)


# ------------------------- every land, from the smallest lists, seam physics
TINY = {
    'near-square': [dict(length=x, B=5.) for x in (0., 3., 5., 10., 21., 47.)],
    'rectangle': [dict(length=a, width=b, B_min=c, B_max_x=d) for a, b, c, d in
                  ((5., 5., 5., 5.), (5., 2., 5., 5.), (5., 5., 4., 6.),
                   (10., 5., 5., 5.), (6., 20., 4., 6.), (30., 24., 4., 6.))],
    'bi-rectangle': [
        dict(length=a, width=b, B_min=c, B_max_x=d, B_max_y=e) for a, b, c, d, e in
        ((5., 5., 5., 5., 5.), (5., 5., 4., 6., 5.), (10., 5., 5., 5., 5.),
         (5., 10., 5., 6., 7.), (15., 11., 4., 6., 6.), (20., 30., 4., 6., 5.))],
    'bi-zoned': [
        dict(length=a, width=b, B_min=c, B_max_x=d, B_max_y=e) for a, b, c, d, e in
        ((10., 10., 5., 5., 5.), (12., 10., 5., 6., 5.), (10., 14., 4., 5., 5.),
         (18., 12., 4.5, 7., 6.5))]}


def do_given(case, ctx, lib):
    """Whatever is required, and however few the candidates are, nothing that
    was given changes, and looking twice finds the same."""
    r, flow = case['routine'], case['flow']
    gc = dict(TINY[r][case['land']])
    counts = sorted({len(f) for dom in nested(LD.design(
        lib, r, lib.dt.media.GeometricConstraints(**gc))) for f in dom})
    step = max(1, len(counts) // 12)
    for low in (False, True):
        for T in sorted({counts[0] - 0.5, counts[-1] + 0.5} |
                        {n + 0.5 for n in counts[::step]}):
            inp = S.inputs(lib, flow=flow)
            con = lib.dt.media.GeometricConstraints(**gc)
            args = dict(inp)
            d = LD.design(lib, r, con, loads=args.pop(
                'hourly_extraction_ground_loads'), **args)
            before = flat([dict(inp), con]), flat(d)
            hi = inp['sim_params'].max_Height

            def excess(key, H, ghe):
                return 10. * (T * (hi / H if low else 1.) / len(key) - 1.) + \
                    (hi - H) / hi * 1e-3
            found = []
            with S.seam(S.World(lib, excess)):
                for _ in range(2):
                    try:
                        found.append(result(d.find_design()))
                    except ValueError as ex:
                        found.append(str(ex))
                    where = '%s requiring %s:' % (case, T)
                    inp.unchanged(ctx)
                    ctx.check((flat([dict(inp), con]), flat(d)) == before, where,
                              'something given was altered')
                    ctx.step()
            ctx.check(found[0] == found[1], where, 'found again', str(found[1])[:200],
                      'at first', str(found[0])[:200])
            ctx.state('given', r, case['land'], flow, T, low)
            ctx.trace()


# ------------------------------------------- designs that differ in one input
VARIANTS = ['none', 'soil.k', 'soil.rhoCp', 'soil.ugt', 'grout.k', 'pipe.k',
            'fluid', 'r_b', 'D', 'loads', 'limits', 'start', 'years', 'heights',
            'V', 'land', 'bhe']


def variant(lib, kind, name):
    """The near-square design with one input changed."""
    inp = shared(lib, kind, 14.)
    V = 0.3
    gc = dict(LANDS['near-square'][0])
    sp = dict(SIM, mx=35.)
    if name == 'soil.k':
        inp['soil'].k = 2.6
    elif name == 'soil.rhoCp':
        inp['soil'].rhoCp *= 1.25
    elif name == 'soil.ugt':
        inp['soil'].ugt = 16.
    elif name == 'grout.k':
        inp['grout'].k = 0.6
    elif name == 'pipe.k':
        inp['pipe'].k = 0.3 if kind != 'coaxial' else [0.3, 0.25]
    elif name == 'fluid':
        inp['fluid'] = lib.fluid('MPG', 20.)
    elif name == 'r_b':
        inp['borehole'] = lib.borehole(100., r_b=0.0851234)
    elif name == 'D':
        inp['borehole'] = lib.borehole(100., D=0.5)
    elif name == 'loads':
        inp['loads'] = inp['loads'][2000:] + inp['loads'][:2000]
    elif name == 'limits':
        sp['mx'] = 33.
    elif name == 'start':
        sp['start'] = 4
        sp['end'] = 15
    elif name == 'years':
        sp['end'] = 18
    elif name == 'heights':
        sp['H'] = 110.
    elif name == 'V':
        V = 0.22
    elif name == 'land':
        gc['B'] = 4.5
    elif name == 'bhe':
        k = {'single': 'double', 'double': 'coaxial', 'coaxial': 'single'}[kind]
        inp['bhe_object'], inp['pipe'] = lib.CLS[k], lib.pipe(k)
    inp['sim_params'] = lib.sim(**sp)
    return LD.design(lib, 'near-square', lib.dt.media.GeometricConstraints(**gc),
                     V_flow=V, **inp)


def do_differ(case, ctx, lib):
    a, b, k = VARIANTS[case['first']], VARIANTS[case['second']], case['bhe']

    def alone():
        return result(variant(lib, k, b).find_design())

    def after():
        first, second = variant(lib, k, a), variant(lib, k, b)
        first.find_design()
        return result(second.find_design())
    want = core.isolated(alone)
    got = core.isolated(after)
    where = '%s: a design with another %s:' % (case, a if b == 'none' else b)
    same(ctx, got, want, where, 1e-9)
    ctx.step(2)
    ctx.trace()
    ctx.state('differ', case, want['field'], want['H'])
