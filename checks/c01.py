"""C01: one dimensional search (near-square, rectangle)."""
from mc import search as S
from mc.core import Violation, explore

PROPERTY = 'C01'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'response curves: every threshold position of domains of 1..24 '
             'fields plus 40, 65, 257, 1500; 5 shapes, 3 limit sides, both '
             'signs at minimum height; adversarial environment: every answer '
             'sequence over {hot, acceptable, more acceptable} for 2..6 and '
             '{hot, acceptable} for 9, 17 fields',
    'thorough': 'as quick with domains up to 64 and 130, 300, 3000; adversarial '
                'answers over 4 values for 2..9 fields and 2 values up to 65'}
ASSUMPTIONS = [
    'the heat pump entering fluid temperatures are answered by the explored '
    'environment (GHE.simulate is the seam); search, GHE construction, cost '
    'and flow bookkeeping are the real code']
FLOOR = 500

SHAPES = {
    'linear': lambda i, t: t - 0.5 - i,
    'steep': lambda i, t: (t - 0.5 - i) * 37.,
    'flat': lambda i, t: (t - 0.5 - i) * 1e-7,
    'hyper': lambda i, t: 60. * ((t + 0.5) / (i + 1.) - 1.),
    'exact': lambda i, t: float(t - i),     # excess exactly 0 at the answer
}


def cases(tier, seed):
    ns = list(range(1, 25)) + [40, 65, 257, 1500]
    if tier == 'thorough':
        ns = list(range(1, 65)) + [130, 300, 3000]
    for n in ns:
        for shape in SHAPES:
            for side in ('hot', 'cold', 'mixed'):
                if n > 24 and shape != 'linear' and side != 'hot' \
                        and tier != 'thorough':
                    continue
                for low in (True, False):
                    yield dict(kind='curve', n=n, shape=shape, side=side,
                               low=low)
    # fields of hundreds to thousands of boreholes
    for n in (2, 5, 8) if tier == 'quick' else (2, 3, 5, 8, 13):
        for each in (97, 400) if tier == 'quick' else (50, 97, 400, 1250, 2499):
            for low in (True, False):
                yield dict(kind='curve', n=n, shape='linear', side='hot',
                           low=low, each=each)
    depth = [(n, 3) for n in (2, 3, 4, 5, 6)] + [(9, 2), (17, 2)]
    if tier == 'thorough':
        depth = [(n, 4) for n in (2, 3, 4, 5)] + \
                [(n, 3) for n in (6, 7, 8, 9)] + [(17, 2), (33, 2), (65, 2)]
    for n, a in depth:
        for side in ('hot', 'cold'):
            for f in range(a):
                for f2 in range(a):
                    yield dict(kind='adversary', n=n, arity=a, side=side,
                               first=[f, f2])


def run_search(lib, domain, world, inp, **kw):
    with S.seam(world):
        return lib.dt.search_routines.Bisection1D(domain, **inp, **kw)


def run_case(case, ctx, lib):
    if case['kind'] == 'curve':
        curve(case, ctx, lib)
    else:
        adversary(case, ctx, lib)


def curve(case, ctx, lib):
    n = case['n']
    # fields grow by one borehole; very long domains use single boreholes at
    # distinct places so that the field is still identified
    each = case.get('each', 1)
    domain = [S.line((i + 1) * each) if n <= 70 else [(float(i), 0.)]
              for i in range(n)]
    if each == 97:
        domain[-1] = S.line(2501)
    index = {S.key_of(f): i for i, f in enumerate(domain)}
    shape = SHAPES[case['shape']]
    thresholds = range(n + 1) if n <= 70 else \
        sorted({0, 1, 2, 3, n // 3, n // 2, n // 2 + 1, n - 3, n - 2, n - 1, n})
    method = 'hybrid' if case['low'] else 'hourly'
    for t in thresholds:
        inp = S.inputs(lib)
        hi, lo = inp['sim_params'].max_Height, inp['sim_params'].min_Height

        def answer(key, H, ghe):
            e = shape(index[key], t)
            # shorter boreholes are worse
            worse = (hi - H) / (hi - lo)
            if case['low'] and index[key] == 0:
                return e + worse * (abs(e) + 1.)      # does not fit when short
            return e + worse * 1e-3 * min(abs(e), 1.)
        w = S.World(lib, answer, case['side'])
        e0 = [answer(S.key_of(f), hi, None) for f in (domain[0], domain[-1])]
        e0low = answer(S.key_of(domain[0]), lo, None)
        if e0[1] > 0:
            expect = 'none'        # nothing is large enough
        elif e0low <= 0 and e0[0] <= 0:
            expect = 'small'       # even the smallest is oversized
        else:
            expect = 0 if e0[0] <= 0 else t
        refused = None
        s = None
        try:
            s = run_search(lib, domain, w, inp, method=method)
        except ValueError as ex:
            refused = str(ex)
        ctx.step(len(w.log))
        ctx.check(all(m == method for _, _, _, m in w.log), 'simulated with',
                  sorted({m for _, _, _, m in w.log}), 'instead of', method)
        for k, H, e, m in w.log:
            ctx.state('q', n, t, case['shape'], index[k], H, e > 0)
        where = '[n=%d t=%d %s %s low=%s]' % (n, t, case['shape'],
                                              case['side'], case['low'])
        if expect in ('none', 'small'):
            ctx.check(refused is not None, where,
                      'no field can be selected (%s) but' % expect,
                      None if s is None else s.selection_key, 'was returned')
            word = 'above' if expect == 'none' else 'below'
            ctx.check(word in refused, where, 'refusal blames the wrong end:',
                      refused)
        else:
            ctx.check(refused is None, where, 'refused although field',
                      expect, 'is the answer:', refused or '')
            try:
                ctx.check(s.selection_key == expect, 'selected index',
                          s.selection_key, 'expected', expect)
                S.check_final(ctx, lib, s, domain[expect], hi, inp)
            except Violation as v:
                raise Violation(where + ' ' + str(v))
        ctx.trace()
    ctx.sample(dict(case=case, thresholds=n + 1))


VALUES = [3., -1., -4., 7.]
VALUES2 = [2., -1.]


def adversary(case, ctx, lib):
    """The environment answers every distinct (field, height) question freely;
    the whole tree of answers is explored."""
    n, a = case['n'], case['arity']
    domain = [S.line(i + 1) for i in range(n)]
    index = {S.key_of(f): i for i, f in enumerate(domain)}
    vals = VALUES2 if a == 2 else VALUES[:a]

    def run(ch):
        inp = S.inputs(lib)
        hi, lo = inp['sim_params'].max_Height, inp['sim_params'].min_Height
        asked = {}

        def answer(key, H, ghe):
            q = (index[key], H)
            if q not in asked:
                # a tiny slope keeps distinct fields distinguishable
                asked[q] = vals[ch.choose(a)] - 1e-3 * q[0]
                ctx.state('a', n, sorted(asked.items()))
            return asked[q]
        w = S.World(lib, answer, case['side'])
        s = refused = None
        try:
            s = run_search(lib, domain, w, inp)
        except ValueError as ex:
            refused = str(ex)
        ctx.step(len(w.log))
        ctx.trace()
        low, top, last = asked.get((0, lo)), asked.get((0, hi)), \
            asked.get((n - 1, hi))
        where = '[answers %s]' % sorted(asked.items())
        if n > 1 and low is not None and top is not None and last is not None:
            # the conclusions that need no assumption about the response
            if top > 0 and last > 0:
                if low > 0:
                    ctx.check(refused is not None, where, 'nothing fits at '
                              'either end but a field was returned')
                return
            if top <= 0 and last <= 0 and low <= 0:
                ctx.check(refused is not None, where, 'loads too small, but a '
                          'field was returned')
                return
        ctx.check(refused is None, where, 'refused:', refused or '')
        i = s.selection_key
        try:
            S.check_final(ctx, lib, s, domain[i], hi, inp)
        except Violation as v:
            raise Violation(where + ' ' + str(v))
        if (i, hi) in asked:
            ctx.check(asked[(i, hi)] <= 0, where, 'the selected field', i,
                      'exceeds the limits by', asked[(i, hi)])
            # and no smaller field seen to fit sits just below it
            if top > 0 and last <= 0:
                ctx.check(any(asked.get((j, hi), -1.) > 0 for j in range(i)),
                          where, 'no smaller field was ruled out')
    explore(run, first=case['first'])
