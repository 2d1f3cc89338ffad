"""C19: histories of operations on a ground heat exchanger."""
import copy
import itertools

import numpy as np

PROPERTY = 'C19'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every sequence of three of 8 operations for the single U-tube, of '
             'two for the double U-tube and the coaxial exchanger, real physics',
    'thorough': 'every sequence of four for the single U-tube, of three for the '
                'others'}
ASSUMPTIONS = [
    'the last operation of a sequence is tried on a deep copy of the exchanger '
    'the others left behind',
    'setting a height takes effect with the next simulation or sizing: reports '
    'and response functions asked for in between are not judged']
FLOOR = 100
LETTERS = ['simulate 61', 'simulate 128', 'hourly 90', 'set 50', 'size',
           'g-functions', 'report', 'response']
LO, HI = 60., 135.


def cases(tier, seed):
    q = tier == 'quick'
    n = len(LETTERS)
    # the expensive exchangers first
    for k, d in (('double', 2 if q else 3), ('coaxial', 2 if q else 3),
                 ('single', 3 if q else 4)):
        for first in itertools.product(range(n), repeat=d - 1):
            yield dict(bhe=k, first=list(first),
                       mat=dict(single=0, double=1, coaxial=2)[k])


CHUNKS_PER_WORKER = 40
_NEW = {}


def new(lib, kind, family=None):
    """Built at 100 m, on the synthetic or the given g-functions; limits such
    that sizing ends inside the range."""
    if kind not in _NEW:
        mx = 1e3
        for _ in range(2):
            sim = lib.sim(3, 4, mx, -1e3, HI, LO)
            loads = lib_loads()
            g = lib.gfunction(B=5., heights=(60., 100., 135.),
                              locations=[(0., 0.), (5., 0.)])
            ghe = lib.ghe(kind, V=0.25, nbh=2, H=100., g=g, sim=sim, loads=loads)
            if mx == 1e3:
                t = copy.deepcopy(ghe)
                t.bhe.b.H = 97.3
                mx = t.simulate()[0]
        _NEW[kind] = ghe
    ghe = copy.deepcopy(_NEW[kind])
    if family is not None:
        ghe.GFunction = copy.deepcopy(family)
    return ghe


def lib_loads():
    from mc.fixtures import loads_profile
    return loads_profile(2600., 3300.)[4380:] + loads_profile(2600., 3300.)[:4380]


def family(g):
    return (g.B, tuple(g.r_b_values.items()), tuple(g.D_values.items()),
            tuple((h, tuple(v)) for h, v in g.g_lts.items()), tuple(g.log_time),
            tuple(map(tuple, g.bore_locations)))


def play(ghe, letter):
    op, _, x = letter.partition(' ')
    if op == 'simulate':
        ghe.bhe.b.H = float(x)
        return dict(result=ghe.simulate(), **after(ghe))
    if op == 'hourly':
        ghe.bhe.b.H = float(x)
        return dict(result=ghe.simulate(method='hourly'), **after(ghe))
    if op == 'set':
        ghe.bhe.b.H = float(x)
        return None
    if op == 'size':
        ghe.size()
        return after(ghe)
    if op == 'g-functions':
        ghe.compute_g_functions()
        g = ghe.GFunction
        return dict(B=g.B, heights=sorted(g.g_lts),
                    g=[list(g.g_lts[h]) for h in sorted(g.g_lts)],
                    r=[g.r_b_values[h] for h in sorted(g.g_lts)],
                    D=[g.D_values[h] for h in sorted(g.g_lts)],
                    where=[list(map(float, p)) for p in g.bore_locations])
    if op == 'report':
        return dict(report=[l for l in repr(ghe).splitlines() if ' at 0x' not in l])
    f = ghe.grab_g_function(ghe.B_spacing / ghe.bhe.b.H)
    return dict(x=np.array(f.x), y=np.array(f.y))


def after(ghe):
    e = ghe.bhe_eq
    return dict(H=float(ghe.bhe.b.H), HPEFT=np.array(ghe.HPEFT, dtype=float),
                dTb=np.array(ghe.dTb, dtype=float),
                R=[float(ghe.bhe.compute_effective_borehole_resistance()),
                   float(e.compute_effective_borehole_resistance())],
                eq=[e.b.H, e.pipe.r_in, e.pipe.r_out, e.pipe.k, e.grout.k],
                sts=np.array(ghe.radial_numerical.g),
                ts=float(ghe.radial_numerical.t_s))


def held(ghe):
    """The state, as far as anyone can see it (the equivalent exchanger is
    brought up to date by reading)."""
    d = dict(H=float(ghe.bhe.b.H), HPEFT=list(map(float, ghe.HPEFT)),
             dTb=list(map(float, ghe.dTb)), family=hash(family(ghe.GFunction)),
             R=float(ghe.bhe.compute_effective_borehole_resistance()))
    return d


def fixed(ghe):
    """What no operation may change."""
    h = ghe.hybrid_load
    b = ghe.bhe
    return [list(map(float, h.load)), list(map(float, h.hour)),
            list(ghe.hourly_extraction_ground_loads), ghe.nbh, ghe.V_flow_system,
            ghe.B_spacing, b.m_flow_borehole, b.grout.k, b.grout.rhoCp, b.soil.k,
            b.soil.rhoCp, b.soil.ugt, b.pipe.k, b.pipe.r_in, b.pipe.r_out, b.b.r_b,
            b.b.D, b.fluid.rho, b.fluid.cp, ghe.sim_params.max_EFT_allowable,
            ghe.sim_params.min_EFT_allowable, ghe.sim_params.max_Height,
            ghe.sim_params.min_Height, ghe.sim_params.start_month,
            ghe.sim_params.end_month]


_REF = {}


def reference(lib, kind, g, done, letter):
    """What the operation gives on a new exchanger; `done`: the simulation that
    a report or response speaks of."""
    needs = done if letter in ('report', 'response') else None
    key = (kind, hash(family(g)), hash(family(needs[1])) if needs else None,
           needs[0] if needs else None, letter)
    if key not in _REF:
        ghe = new(lib, kind, needs[1] if needs else g)
        if needs:
            play(ghe, needs[0])
            ghe.GFunction = copy.deepcopy(g)
        _REF[key] = play(ghe, letter)
    return _REF[key]


def compare(ctx, got, want, where, tol):
    for k in want:
        if k == 'report':
            ctx.check(got[k] == want[k], where, 'the report differs from that of a '
                      'new exchanger:',
                      [p for p in zip(got[k], want[k]) if p[0] != p[1]][:3],
                      len(got[k]), len(want[k]))
        else:
            for a, b in zip(got[k], want[k]) if k == 'g' else [(got[k], want[k])]:
                ctx.close(a, b, '%s %s differs from a new exchanger' % (where, k),
                          rel=tol, abs_=tol)


def run_case(case, ctx, lib):
    kind = case['bhe']
    ghe = new(lib, kind)
    const = fixed(ghe)
    done, dirty, seq = None, False, []

    def one(ghe, letter, done, dirty):
        g = ghe.GFunction
        judged = letter[:3] != 'set' and not (
            dirty and letter in ('report', 'response'))
        want = reference(lib, kind, copy.deepcopy(g), done, letter) \
            if judged else None
        reads = letter in ('report', 'response')
        before = held(ghe) if reads else None
        try:
            got = play(ghe, letter)
        except ValueError:
            if judged:
                raise              # 50 m is outside the g-functions
        ctx.step()
        where = '%s after %s:' % (kind, seq)
        if judged:
            compare(ctx, got, want, where,
                    1e-5 if 'size' in seq or letter == 'size' else 1e-8)
        if reads:
            now = held(ghe)
            for k in before:
                ctx.check(np.array_equal(np.array(now[k]), np.array(before[k])),
                          where, 'reading changed', k)
        ctx.check(fixed(ghe) == const, where, 'an input of the exchanger changed')
        ctx.state(kind, ghe.bhe.b.H, hash(family(ghe.GFunction)),
                  done and done[0], letter)
        if letter.split()[0] in ('simulate', 'hourly', 'size'):
            return (letter, copy.deepcopy(g)), False
        return done, dirty or letter[:3] == 'set'

    for i in case['first']:
        seq.append(LETTERS[i])
        done, dirty = one(ghe, LETTERS[i], done, dirty)
    for letter in LETTERS:
        seq.append(letter)
        one(copy.deepcopy(ghe), letter, done, dirty)
        ctx.trace()
        seq.pop()
    ctx.sample(case)
