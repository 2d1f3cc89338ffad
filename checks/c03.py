"""C03: zoned search: least total drilling over successive domains."""
import itertools

from mc import search as S
from mc.core import Violation, explore

PROPERTY = 'C03'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'required drilling per zoned domain: every assignment of 3 values '
             'to 1..4 domains plus all permutations of 5 values over 5 and of '
             'the last 4 of 9 domains, every required size; real zoned domains '
             'of 6 lands; 3 height ranges; equal total drilling over 2..5 domains; '
             'fields of 295..320 boreholes of up to 400 m; '
             'adversarial environment: every sequence of answers (temperatures '
             'and heights) over 2 values for 1..3 domains of up to 3 fields, '
             'and over 2 heights for 9 domains',
    'thorough': '4 values over 1..5 domains, permutations of 6, 20 lands'}
ASSUMPTIONS = [
    'the entering fluid temperatures are answered by the explored environment: '
    'each field needs a total drilling length which the environment chooses; '
    'search, sizing (Brent) and GHE construction are the real code']
FLOOR = 500
HEIGHTS = {'wide': (150., 60.), 'narrow': (110., 100.), 'tall': (300., 20.),
           'deep': (400., 100.)}


def lands(tier):
    sizes = [(20, 15), (15, 20), (24, 24)]
    sp = [(3., 5., 5.), (4., 8., 6.)]
    if tier == 'thorough':
        sizes += [(30, 18), (18, 30), (36, 20), (25, 40)]
        sp += [(3., 6., 8.)]
    return [(l, w, *b) for l, w in sizes for b in sp]


def cases(tier, seed):
    q = tier == 'quick'
    vals = [1.0, 0.93, 1.08] + ([0.86] if tier == 'thorough' else [])
    for outer in range(1, 5 if tier == 'quick' else 6):
        for f in itertools.product(vals, repeat=outer):
            for h in HEIGHTS:
                yield dict(kind='abstract', factors=list(f), heights=h)
    perm = [1.0, 0.95, 0.9, 1.05, 1.1] + ([1.15] if tier == 'thorough' else [])
    for f in itertools.permutations(perm):
        yield dict(kind='abstract', factors=list(f), heights='wide')
    # long monotone improvement with every order of the last ones
    for f in itertools.permutations([0.8, 0.79, 0.78, 0.77]):
        yield dict(kind='abstract', heights='wide',
                   factors=[0.98, 0.95, 0.92, 0.88, 0.84] + list(f))
    # large fields: hundreds of kilometres to drill
    for n in range(1, 5):
        for f in itertools.product(vals[:2] if q else vals, repeat=n):
            yield dict(kind='abstract', factors=list(f), heights='deep',
                       base=300 if q else 900)
    # exactly equal total drilling
    for outer in range(2, 6 if tier == 'quick' else 7):
        for f in itertools.product([1.0, 0.9, 1.1] if outer < 5 else [1.0, 0.9],
                                   repeat=outer):
            yield dict(kind='ties', factors=list(f), heights='wide')
    todo = [(z, 2) for n in (1, 2, 3) for z in itertools.product(
        (1, 2, 3) if n < 3 or not q else (2, 3), repeat=n)]
    if not q:
        todo += [(z, 3) for n in (1, 2) for z in itertools.product(
            (1, 2, 3), repeat=n)]
    for z, a in todo:
        for f in itertools.product(range(a), repeat=4):
            yield dict(kind='adversary', sizes=list(z), arity=a, first=list(f))
    # long walks: the smallest of two fields never fits, the heights are free
    for n in (8, 9) if q else (8, 9, 12):
        for f in itertools.product(range(2), repeat=2):
            yield dict(kind='walk', n=n, arity=2 if q else 3, first=list(f))
    for land in lands(tier):
        for h in HEIGHTS:
            yield dict(kind='land', land=list(land), heights=h)


VALUES = [-1., 3., -4.]


def adversary(case, ctx, lib):
    """The environment answers temperatures and sizing freely (the same
    question alike); the walk and its result follow from the answers."""
    walk = case['kind'] == 'walk'
    sizes = [2] * case['n'] if walk else case['sizes']
    nested, top = [], 1
    for j, m in enumerate(sizes):
        nested.append([S.line(1 if i == 0 and (m > 1 or j == 0) else top + i,
                              x0=1000. * j) for i in range(m)])
        top = len(nested[-1][-1]) + 1
    index = {S.key_of(f): (j, i) for j, d in enumerate(nested)
             for i, f in enumerate(d)}
    mx, mn = 150., 60.
    heights = [mn, mx, 100.]

    def run(ch):
        inp = S.inputs(lib, mxH=mx, mnH=mn)
        asked, sized, order = {}, {}, []

        def answer(key, H, ghe):
            q = (index[key], H)
            if H not in (mn, mx) and key in sized:
                return 0.
            if q not in asked:
                if walk:
                    e = 3. if q[0][1] == 0 else -1.
                else:
                    e = VALUES[ch.choose(case['arity'])]
                asked[q] = e - 1e-3 * (q[0][0] * 10 + q[0][1])
                ctx.state(sizes, sorted(asked.items()))
            return asked[q]

        def sizer(key, ghe):
            if key not in sized:
                if walk:
                    # the total drilling falls, stays or grows
                    t = {0: -20., 1: 20., 2: 0.}[ch.choose(case['arity'])]
                    last = sized[order[-1]] * len(order[-1]) if order else 300.
                    sized[key] = (last + t) / len(key)
                else:
                    sized[key] = heights[ch.choose(case['arity'])]
                ctx.state(sizes, sorted(asked.items()), sorted(sized.items()))
            order.append(key)
            return sized[key]
        w = S.World(lib, answer)
        s = refused = None
        try:
            with S.seam(w, sizer=sizer):
                s = lib.dt.search_routines.BisectionZD(nested, **inp)
        except ValueError as ex:
            refused = str(ex)
        ctx.step(len(w.log))
        ctx.trace()
        where = '[answers %s heights %s]' % (
            sorted(asked.items()), [(index[k], sized[k]) for k in order])
        ends = asked.get(((0, 0), mx)), asked.get(
            ((len(nested) - 1, len(nested[-1]) - 1), mx))
        if None not in ends and min(ends) > 0:
            ctx.check(refused is not None, where, 'nothing fits, but a field '
                      'was returned')
            return
        if refused is not None:
            ctx.check('above' in refused or 'below' in refused, where,
                      'refused:', refused)
            ctx.check(not order, where, 'refused although a field was sized:',
                      refused)
            return
        k = S.key_of(s.selected_coordinates)
        ctx.check(k in sized, where, 'the selected field was never sized')
        ctx.check(asked.get((index[k], mx), 0.) <= 0, where, 'the field',
                  index[k], 'exceeds the limits by', asked.get((index[k], mx)))
        # successive lists, until the drilling increases, at most seven
        seen = [q for n, q in enumerate(order) if q not in order[:n]]
        lists = [index[q][0] for q in seen]
        ctx.check(lists == list(range(lists[0], lists[0] + len(lists))), where,
                  'lists sized:', lists)
        d = [len(q) * sized[q] for q in seen]
        ctx.check(len(d) <= 7, where, 'more than seven lists sized')
        ctx.check(all(b <= a for a, b in zip(d[:-2], d[1:-1])), where,
                  'went on after the drilling increased:', d)
        if walk:
            ctx.check(len(d) == min(7, len(nested) - lists[0]) or
                      (len(d) > 1 and d[-1] > d[-2]), where,
                      'stopped early at', d)
        ctx.check(len(k) * sized[k] <= min(d) * (1 + 1e-9), where,
                  'total drilling', len(k) * sized[k], 'although', d)
        try:
            S.check_final(ctx, lib, s, nested[index[k][0]][index[k][1]],
                          sized[k], inp)
        except Violation as v:
            raise Violation(where + ' ' + str(v))
    explore(run, first=case['first'])


def run_case(case, ctx, lib):
    if case['kind'] in ('adversary', 'walk'):
        return adversary(case, ctx, lib)
    if case['kind'] == 'abstract':
        nested = []
        base = case.get('base', 6)
        for j, f in enumerate(case['factors']):
            lo = base - 5 if j == 0 else base + 5 * j - 2
            counts = list(range(lo, base + 5 * j + 4, 1 if j else 3))
            nested.append([S.line(c, x0=1000. * j) for c in counts])
        factors = case['factors']
    elif case['kind'] == 'ties':
        # the same numbers of boreholes in every list
        factors = case['factors']
        nested = [[S.line(c, x0=1000. * j) for c in range(1, 13 + 3 * j)]
                  for j in range(len(factors))]
    else:
        l, w, bmin, bx, by = case['land']
        nested = lib.dt.domains.bi_rectangle_zoned_nested(l, w, bmin, bx, by)
        factors = None
    counts = sorted({len(f) for d in nested for f in d})
    step = 1 if case['kind'] == 'abstract' else 3 if case['kind'] == 'ties' \
        else max(1, len(counts) // 8)
    for T in counts[::step] + [counts[-1] + 1]:
        one(case, ctx, lib, nested, factors, T)
    ctx.sample(dict(case=case, required=counts[::step][:20]))


def one(case, ctx, lib, nested, factors, T):
    mx, mn = HEIGHTS[case['heights']]
    inp = S.inputs(lib, mxH=mx, mnH=mn)
    dom = {}
    for j, d in enumerate(nested):
        for f in d:
            dom.setdefault(S.key_of(f), j)

    def required(key):
        """Total drilling this field needs (m)."""
        n = len(key)
        if factors is not None:
            return (T - 0.5) * mx * 0.97 * factors[dom[key]]
        # zoned fields: interior boreholes interfere a little
        return (T - 0.5) * mx * 0.97 * (1. + 0.002 * n)

    def excess(key, H):
        return 10. * (required(key) / (len(key) * H) - 1.)

    ties = case['kind'] == 'ties'

    def sizer(key, ghe):
        return min(max(required(key) / len(key), mn), mx)
    w = S.World(lib, lambda key, H, ghe: excess(key, H))
    where = '[T=%d]' % T

    # the model of the routine's contract
    def smallest(d):
        """index of the smallest field that fits at full height; None when
        even the largest does not, 'low' when the first fits at any height"""
        if excess(S.key_of(d[0]), mx) <= 0:
            return 0
        for i, f in enumerate(d):
            if excess(S.key_of(f), mx) <= 0:
                return i
        return None

    outer = [nested[0][0]] + [d[-1] for d in nested]
    ex = [excess(S.key_of(f), mx) for f in outer]
    refusal = expect = None
    if ex[0] <= 0 and excess(S.key_of(outer[0]), mn) <= 0:
        refusal = 'below'
    elif ex[0] > 0 and ex[-1] > 0:
        refusal = 'above'
    monotone = all(a > b for a, b in zip(ex, ex[1:]))
    unimodal_sign = sum(1 for a, b in zip(ex, ex[1:]) if (a > 0) != (b > 0)) <= 1
    if refusal is None and not (unimodal_sign and
                                all(_sign_monotone(excess, d, mx) for d in nested)):
        ctx.count('skipped_non_monotone')
        return
    s = refused = None
    try:
        with S.seam(w, sizer=sizer if ties else None):
            s = lib.dt.search_routines.BisectionZD(nested, **inp)
    except ValueError as e:
        refused = str(e)
    ctx.step(len(w.log))
    ctx.trace()
    for k, H, e, m in w.log:
        ctx.state(case.get('factors') or case.get('land'), T, k,
                  round(H, 3), e > 0)
    if refusal:
        ctx.check(refused is not None and refusal in refused, where,
                  'a refusal (%s) was expected, got' % refusal, refused)
        return
    ctx.check(refused is None, where, 'refused:', refused or '')

    # walk the successive domains
    j0 = 0 if ex[0] <= 0 else next(k for k, e in enumerate(ex) if e <= 0)
    if j0 > 0:
        # the field closest to its limits is preferred; with unimodal sign
        # this is the first domain whose largest field fits
        fit = [k for k in range(1, len(ex)) if ex[k] <= 0]
        j0 = (fit[0] if monotone else None)
        if j0 is None:
            ctx.count('outer_not_monotone')
            start = None
        else:
            start = j0 - 1
    else:
        start = 0
    drilled = {}
    order = []
    if start is not None:
        old = float('inf')
        for j in range(start, min(len(nested), start + 7)):
            d = nested[j]
            i = smallest(d)
            if i is None:
                break
            if i == 0 and excess(S.key_of(d[0]), mn) <= 0 and j > start:
                break
            n = len(d[i])
            H = min(max(required(S.key_of(d[i])) / n, mn), mx)
            drilled[j] = (float(n) * H, i, H)
            order.append(j)
            # (an equal one, up to solver noise, may also end the walk)
            if float(n) * H > old if ties else n * H >= old * (1 - 1e-6):
                break
            old = float(n) * H
    got = (len(s.selected_coordinates), s.ghe.bhe.b.H)
    key = S.key_of(s.selected_coordinates)
    ctx.check(any(key == S.key_of(f) for d in nested for f in d), where,
              'the selected field is not a candidate')
    need = required(key) / len(key)
    H = min(max(need, mn), mx)
    try:
        ctx.check(need <= mx * (1 + 1e-6), 'the selected field does not meet '
                  'its limits: needs', need, 'm of', mx)
        S.check_ghe(ctx, lib, s.ghe, s.selected_coordinates, H, inp, relH=1e-4)
        g = sorted(s.ghe.GFunction.g_lts)
        ctx.check(g[0] == mn and g[-1] == mx, 'the GHE returned was sized with '
                  'g-functions for heights', g, 'only')
        if drilled:
            best = min(v[0] for v in drilled.values())
            ctx.check(got[0] * got[1] <= best * (1 + 1e-4), 'total drilling',
                      got[0] * got[1], 'although', best, 'm is enough in', drilled)
    except Violation as v:
        raise Violation(where + ' ' + str(v))
    # the height the user reads is the one the reported temperatures are for
    e = s.ghe.cost(max(s.ghe.HPEFT), min(s.ghe.HPEFT))
    ctx.check(abs(e - excess(key, s.ghe.bhe.b.H)) < 1e-3, where,
              'reported temperatures belong to another height')


def _sign_monotone(excess, d, mx):
    e = [excess(tuple(map(tuple, f)), mx) for f in d]
    return all(b <= a for a, b in zip(e, e[1:]))
