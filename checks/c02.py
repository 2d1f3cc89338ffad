"""C02: nested search (bi-rectangle, polygon constrained domains)."""
import itertools

from mc import search as S
from mc.core import Violation, explore

PROPERTY = 'C02'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'abstract nested domains: every vector of inner sizes 1..4 over '
             '1..4 domains with every required size; real nested domains of '
             '12 lands with every required borehole count; 3 limit sides; '
             'adversarial environment: every answer sequence over 2 and 3 '
             'values for nested domains of 1..4 lists',
    'thorough': 'inner sizes 1..5 over 1..5 domains; 40 lands; adversarial '
                'answers over 3 values for up to 4 lists of up to 5 fields'}
ASSUMPTIONS = [
    'the entering fluid temperatures are answered by the explored environment; '
    'a field needs a total number of boreholes which the environment chooses '
    '(or, adversarial, answers every question freely, the same one alike)']
FLOOR = 500


def lands(tier):
    sizes = [(10, 10), (20, 12), (12, 20), (30, 10), (25, 25), (15, 40)]
    sp = [(4., 8., 8.), (5., 10., 7.)]
    if tier == 'thorough':
        sizes += [(40, 40), (60, 20), (18, 33), (33, 18), (11, 50), (50, 11)]
        sp += [(3., 6., 9.), (4.45, 10., 12.)]
    return [(l, w, *b) for l, w in sizes for b in sp]


def cases(tier, seed):
    m, k = (4, 4) if tier == 'quick' else (5, 5)
    for outer in range(1, k + 1):
        for sizes in itertools.product(range(1, m + 1), repeat=outer):
            yield dict(kind='abstract', sizes=list(sizes))
    for land in lands(tier):
        for side in ('hot', 'cold', 'mixed'):
            yield dict(kind='land', land=list(land), side=side)
    q = tier == 'quick'
    todo = [(z, 3) for n in (1, 2) for z in itertools.product(
        (1, 2, 3) if q else (1, 2, 3, 4, 5), repeat=n)]
    todo += [(z, 2 if q else 3) for n in (3, 4) for z in itertools.product(
        (2, 3) if n == 3 or not q else (3,), repeat=n)]
    todo += [((5, 6, 7), 2), ((9, 4, 5), 2)]
    for z, a in todo:
        for side in ('hot', 'cold'):
            for f in itertools.product(range(a), repeat=2):
                yield dict(kind='adversary', sizes=list(z), arity=a, side=side,
                           first=list(f))


def nest(sizes):
    """lists of growing fields, each larger than the one before"""
    nested, top = [], 1
    for j, m in enumerate(sizes):
        nested.append([S.line(1 if i == 0 and (m > 1 or j == 0) else top + i,
                              x0=1000. * j) for i in range(m)])
        top = len(nested[-1][-1]) + 1
    return nested


VALUES = [3., -1., -4.]


def adversary(case, ctx, lib):
    """Whatever is answered, the field returned was not seen to exceed."""
    a = case['arity']
    nested = nest(case['sizes'])
    index = {S.key_of(f): (j, i) for j, d in enumerate(nested)
             for i, f in enumerate(d)}

    def run(ch):
        inp = S.inputs(lib)
        hi, lo = inp['sim_params'].max_Height, inp['sim_params'].min_Height
        asked = {}

        def answer(key, H, ghe):
            q = (index[key], H)
            if q not in asked:
                asked[q] = VALUES[ch.choose(a)] - 1e-3 * (q[0][0] * 10 + q[0][1])
                ctx.state(case['sizes'], sorted(asked.items()))
            return asked[q]
        w = S.World(lib, answer, case['side'])
        s = refused = None
        try:
            with S.seam(w):
                s = lib.dt.search_routines.Bisection2D(nested, **inp)
        except ValueError as ex:
            refused = str(ex)
        ctx.step(len(w.log))
        ctx.trace()
        where = '[answers %s]' % sorted(asked.items())
        ends = asked.get(((0, 0), hi)), asked.get(
            ((len(nested) - 1, len(nested[-1]) - 1), hi))
        if None not in ends and min(ends) > 0:
            ctx.check(refused is not None, where, 'nothing fits, but a field '
                      'was returned')
            return
        if refused is not None:
            ctx.check('above' in refused or 'below' in refused, where,
                      'refused:', refused)
            return
        k = S.key_of(s.selected_coordinates)
        ctx.check(k in index, where, 'the selected field is no candidate')
        ctx.check(asked.get((index[k], hi), 0.) <= 0, where, 'the field',
                  index[k], 'exceeds the limits by', asked.get((index[k], hi)))
        try:
            S.check_final(ctx, lib, s, nested[index[k][0]][index[k][1]], hi, inp)
        except Violation as v:
            raise Violation(where + ' ' + str(v))
    explore(run, first=case['first'])


def run_case(case, ctx, lib):
    if case['kind'] == 'adversary':
        return adversary(case, ctx, lib)
    if case['kind'] == 'abstract':
        # domain j holds fields of 1, then growing counts; the largest field
        # of each domain is larger than that of the domain before
        nested = []
        top = 1
        for j, m in enumerate(case['sizes']):
            counts = [1] + [top + i for i in range(1, m)] if m > 1 else [top]
            top = counts[-1] + (1 if m > 1 else 1)
            # the row offset tells apart equally sized fields of two domains
            nested.append([S.line(c, x0=1000. * j) for c in counts])
        sides = ['hot', 'cold', 'mixed']
    else:
        l, w, bmin, bx, by = case['land']
        nested = lib.dt.domains.bi_rectangle_nested(l, w, bmin, bx, by)
        ctx.check(len(nested) > 0, 'no domain for', case['land'])
        sides = [case['side']]
    lasts = [len(d[-1]) for d in nested]
    need = sorted({n for d in nested for f in d for n in (len(f), len(f) + 1)})
    for side in sides:
        for T in need:
            for low in (True, False):
                one(case, ctx, lib, nested, T, side, low)
    ctx.sample(dict(case=case, lasts=lasts, required=need[:20]))


def one(case, ctx, lib, nested, T, side, low):
    inp = S.inputs(lib)
    hi, lo = inp['sim_params'].max_Height, inp['sim_params'].min_Height

    def excess(n, H):
        # T boreholes of height hi are exactly one half borehole too many
        e = 10. * ((T - 0.5) / n * (1. if not low else hi / H) - 1.)
        return e + (hi - H) / hi * 1e-3

    w = S.World(lib, lambda key, H, ghe: excess(len(key), H), side)
    where = '[T=%d %s low=%s]' % (T, side, low)

    def fits(f):
        return excess(len(f), hi) <= 0

    # what a designer expects
    expect = None
    first = nested[0][0]
    word = None
    outer = [first] + [d[-1] for d in nested]
    if not fits(outer[-1]):
        word = 'above'
    elif fits(first) and excess(len(first), lo) <= 0:
        word = 'below'
    elif fits(first):
        expect = (0, 0)
    else:
        j = next(k for k, d in enumerate(nested) if fits(d[-1]))
        d = nested[j]
        if fits(d[0]) and excess(len(d[0]), lo) <= 0:
            word = 'below'
        else:
            i = next(k for k, f in enumerate(d) if fits(f))
            expect = (j, i)
    s = refused = None
    try:
        with S.seam(w):
            s = lib.dt.search_routines.Bisection2D(nested, **inp)
    except ValueError as ex:
        refused = str(ex)
    ctx.step(len(w.log))
    ctx.trace()
    for k, H, e, m in w.log:
        ctx.state(case.get('sizes') or case.get('land'), T, k, H, e > 0)
    if expect is None:
        ctx.check(refused is not None, where, 'no field can be selected but',
                  None if s is None else len(s.selected_coordinates),
                  'boreholes were returned')
        ctx.check(word in refused, where, 'refusal blames the wrong end:',
                  refused)
        return
    ctx.check(refused is None, where, 'refused although', expect,
              'is the answer:', refused or '')
    try:
        S.check_final(ctx, lib, s, nested[expect[0]][expect[1]], hi, inp)
        ctx.check(S.key_of(nested[expect[0]][s.selection_key]) ==
                  S.key_of(s.selected_coordinates),
                  'selection_key does not point at the selected field')
    except Violation as v:
        raise Violation(where + ' ' + str(v))
