"""C18: exchanger resistances after updates."""
import itertools
import math

import numpy as np

PROPERTY = 'C18'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every sequence of up to three of 11 operations for six exchangers '
             '(single, double and triple, parallel and series, coaxial); a lattice of 12 '
             'flows x 3 pipe conductivities x 3 grouts x 2 fluids x 2 heights x 3 sets of materials and geometry each',
    'thorough': 'every sequence of up to four operations; 40 flows'}
ASSUMPTIONS = [
    'an update of a material or of the height is made as the code itself makes '
    'it: the value is set and update_thermal_resistance() called',
    'film coefficients of the library are trusted at a given flow']
FLOOR = 500
KINDS = ['single', 'parallel', 'series', 'coaxial', 'parallel 3', 'series 3']
# three equal U-tubes in parallel make the eigenvalue problem of the library
# degenerate: its effective resistance is noise at low flows, and not compared
NOISY = 'parallel 3'
TUBES = {'single': 1, 'parallel': 2, 'series': 2, 'parallel 3': 3, 'series 3': 3}
LETTERS = ['m 0.1', 'm 0.5', 'fluid', 'water', 'H 61', 'k_p', 'k_g', 'k_s',
           'ask m 0.3', 'ask', 'repr']


def cases(tier, seed):
    q = tier == 'quick'
    for k in KINDS:
        for a in range(len(LETTERS)):
            if TUBES.get(k, 1) > 1 and not q:
                for b in range(len(LETTERS)):
                    yield dict(kind='history', bhe=k, first=[a, b], depth=4,
                               mat=(a + b) % 3)
            else:
                yield dict(kind='history', bhe=k, first=[a], depth=3 if q else 4,
                           mat=a % 3)
        for kp in range(3):
            for kg in range(3):
                for fl in range(2):
                    for mat in range(3):
                        yield dict(kind='lattice', bhe=k, kp=kp, kg=kg, fluid=fl,
                                   n=12 if q else 40, mat=mat)


def run_case(case, ctx, lib):
    globals()['do_' + case['kind']](case, ctx, lib)


INIT = dict(m=0.2, fluid=('MEG', 0.), H=100., k_p=0.4, k_g=1.0, k_s=2.0)


def build(lib, kind, c):
    P = lib.plat.media.Pipe
    b = lib.borehole(c['H'])
    g, s, f = lib.grout(c['k_g']), lib.soil(c['k_s']), lib.fluid(*c['fluid'])
    if kind == 'coaxial':
        pipe = lib.pipe('coaxial')
        pipe.k = [c['k_p'], c['k_p'] + 0.1]
        return lib.BHX.CoaxialPipe(c['m'], f, b, pipe, g, s)
    pipe = lib.pipe('single' if kind == 'single' else 'double')
    if TUBES[kind] > 2:
        gap = max(pipe.s, 2. * pipe.r_out + 0.002)     # room for three
        pipe = P(P.place_pipes(gap, pipe.r_out, TUBES[kind]), pipe.r_in,
                 pipe.r_out, gap, pipe.eps, pipe.k, pipe.rhoCp)
    pipe.k = c['k_p']
    if kind == 'single':
        return lib.BHX.SingleUTube(c['m'], f, b, pipe, g, s)
    return lib.BHX.MultipleUTube(c['m'], f, b, pipe, g, s,
                                 config=kind.split()[0])


NAMES = {'coaxial': ['R_p_in', 'R_p_out', 'R_grout', 'h_fluid_a_in',
                     'h_fluid_a_out', 'R_f_a_in', 'R_f_a_out', 'h_fluid_in',
                     'R_f_in', 'R_ff', 'R_fp']}


def observe(b, kind):
    out = [b.m_flow_borehole, b.m_flow_pipe]
    out += [getattr(b, n) for n in NAMES.get(kind, ['h_f', 'R_p', 'R_f', 'R_fp'])]
    out.append(b.compute_effective_borehole_resistance())
    return [float(v) for v in out]


def play(lib, b, kind, c, letter):
    """Returns what the operation returns (None: nothing to compare)."""
    op, _, x = letter.partition(' ')
    if op == 'm':
        c['m'] = float(x)
        return b.update_thermal_resistance(m_flow_borehole=c['m'])
    if op in ('fluid', 'water'):
        c['fluid'] = ('MPG', 30.) if op == 'fluid' else ('Water', 0.)
        return b.update_thermal_resistance(fluid=lib.fluid(*c['fluid']))
    if op == 'H':
        c['H'] = b.b.H = 61. if c['H'] != 61. else 180.
        return b.update_thermal_resistance()
    if op == 'k_p':
        c['k_p'] = 0.9
        b.pipe.k = [0.9, 1.0] if kind == 'coaxial' else 0.9
        return b.update_thermal_resistance()
    if op == 'k_g':
        c['k_g'] = b.k_g = b.grout.k = 1.9
        return b.update_thermal_resistance()
    if op == 'k_s':
        c['k_s'] = b.k_s = b.soil.k = 3.1
        return b.update_thermal_resistance()
    if op == 'ask' and x:
        c['m'] = 0.3
        return b.compute_effective_borehole_resistance(m_flow_borehole=0.3)
    if op == 'ask':
        return b.compute_effective_borehole_resistance()
    return repr(b)


_REF = {}


def reference(lib, kind, c):
    key = (kind, lib.mat) + tuple(sorted(c.items()))
    if key not in _REF:
        b = build(lib, kind, c)
        _REF[key] = (observe(b, kind), repr(build(lib, kind, c)))
    return _REF[key]


def do_history(case, ctx, lib):
    kind = case['bhe']
    noisy = kind == NOISY
    for rest in itertools.product(LETTERS, repeat=case['depth'] - len(case['first'])):
        seq = [LETTERS[i] for i in case['first']] + list(rest)
        c = dict(INIT)
        b = build(lib, kind, c)
        for n, letter in enumerate(seq):
            ret = play(lib, b, kind, c, letter)
            ctx.step()
            ctx.state(kind, lib.mat, c)
            want, text = reference(lib, kind, c)
            where = '%s after %s:' % (kind, seq[:n + 1])
            if isinstance(ret, str):
                drop = (' at 0x',) + noisy * ('Effective',)
                strip, other = [[l for l in t.splitlines()
                                 if not any(d in l for d in drop)]
                                for t in (ret, text)]
                ctx.check(strip == other, where, 'the report differs from that of'
                          ' a new exchanger:', [p for p in zip(strip, other)
                                                if p[0] != p[1]][:3])
            else:
                noisy or ctx.close(ret, want[-1], where + ' resistance returned')
            got = observe(b, kind)
            ctx.close(got[:-1], want[:-1], where + ' differs from a new exchanger')
            noisy or ctx.close(got[-1], want[-1], where + ' effective resistance '
                               'differs from that of a new exchanger')
        ctx.trace()


def library(lib, kind, c, p, f, want):
    """The resistance of the borefield library's own exchanger."""
    gt = lib.gt
    b = lib.borehole(c['H'])
    if kind == 'coaxial':
        x = gt.pipes.Coaxial(
            (0., 0.), np.array([p.r_in[0], p.r_out[0]]),
            np.array([p.r_in[1], p.r_out[1]]), b, c['k_s'], c['k_g'], want[-2],
            want[-1], J=2)
    else:
        s, ro = p.s, p.r_out
        r = s / 2. + ro
        n = 2 * TUBES[kind]
        # legs of a U-tube are opposite each other
        at = [math.pi + k * 2. * math.pi / n for k in range(n)]
        pos = [(r * math.cos(a), r * math.sin(a)) for a in at]
        if kind == 'single':
            x = gt.pipes.SingleUTube(pos, p.r_in, ro, b, c['k_s'], c['k_g'],
                                     want[-1])
        else:
            x = gt.pipes.MultipleUTube(pos, p.r_in, ro, b, c['k_s'], c['k_g'],
                                       want[-1], n // 2,
                                       config=kind.split()[0])
    return float(x.effective_borehole_thermal_resistance(c['m'], f.cp))


def do_lattice(case, ctx, lib):
    kind = case['bhe']
    gt = lib.gt
    last = None
    for i in range(case['n']):
        c = dict(INIT, m=0.02 * 1.45 ** (i * 11. / (case['n'] - 1.)),
                 k_p=[0.4, 0.2, 1.1][case['kp']], k_g=[1., 0.5, 2.][case['kg']],
                 fluid=[('MEG', 0.), ('MPG', 30.)][case['fluid']])
        for H in (100., 250.):
            c['H'] = H
            b = build(lib, kind, c)
            where = '%s %s:' % (kind, c)
            f, p = b.fluid, b.pipe
            ctx.state(kind, lib.mat, c)
            ctx.step()
            mp = c['m']
            if kind.startswith('parallel'):
                mp /= TUBES[kind]
            ctx.close(b.m_flow_pipe, mp, where + ' flow per pipe')
            Rb = float(b.compute_effective_borehole_resistance())
            Ru = float(b.update_thermal_resistance())
            kind == NOISY or ctx.close(
                Rb, Ru, where + ' resistance after an update without change')
            circ = gt.pipes.convective_heat_transfer_coefficient_circular_pipe
            tp = 2. * math.pi
            if kind == 'coaxial':
                (a, bb), (cc, d) = p.r_in, p.r_out
                hi = circ(c['m'], a, f.mu, f.rho, f.k, f.cp, p.eps)
                h1, h2 = gt.pipes. \
                    convective_heat_transfer_coefficient_concentric_annulus(
                        c['m'], bb, cc, f.mu, f.rho, f.k, f.cp, p.eps)
                want = [math.log(bb / a) / tp / p.k[0],
                        math.log(d / cc) / tp / p.k[1],
                        math.log(b.b.r_b / d) / tp / c['k_g'], h1, h2,
                        1. / (h1 * tp * bb), 1. / (h2 * tp * cc), hi,
                        1. / (hi * tp * a)]
                want += [want[8] + want[0] + want[5], want[1] + want[6]]
                film = [want[5], want[6], want[8]]
                path = want[-1]
            else:
                h = circ(mp, p.r_in, f.mu, f.rho, f.k, f.cp, p.eps)
                want = [h, math.log(p.r_out / p.r_in) / tp / c['k_p'],
                        1. / (h * tp * p.r_in)]
                want.append(want[1] + want[2])
                film = [want[2]]
                path = want[-1] / (2. * TUBES[kind])
            if kind == 'single':
                for m in (c['m'], 0.37):
                    ctx.close(float(b.compute_convection_coefficient(m)),
                              circ(m, p.r_in, f.mu, f.rho, f.k, f.cp, p.eps),
                              where + ' film coefficient at %s' % m)
            ctx.close(observe(b, kind)[:-1], [c['m'], mp] + want,
                      where + ' resistances')
            if H == 100.:
                if last is not None:
                    ctx.check(all(x <= y * (1 + 1e-9) for x, y in zip(film, last)),
                              where, 'film resistance grows with the flow', last,
                              film)
                last = film
            if kind == NOISY:
                continue
            ctx.close(Rb, library(lib, kind, c, p, f, want), where + ' effective '
                      'resistance', rel=1e-5 if '3' in kind else 1e-9)
            ctx.check(Rb > path, where, 'effective resistance', Rb,
                      'is not above that of film and pipe', path)
        ctx.trace()
    ctx.sample(case)
