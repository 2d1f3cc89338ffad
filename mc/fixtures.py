"""Typical inputs (the ones of the repository's own tests and README) and the
seams through which the environment of the code under test is controlled."""
import contextlib
import math
import sys

import numpy as np
import pygfunction as gt
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat

BHX = plat.borehole_heat_exchangers


# Grounds and materials.  0: the usual ones.  A case chooses with its key 'mat'.
MATS = [
    dict(soil=(2.0, 2343.493e3, 18.3), grout=(1.0, 3901e3),
         u=(21.6 / 2000., 26.67 / 2000., 32.3 / 1000., 1.0e-6, 0.4, 1542e3),
         coax=([44.2 / 2000., 50. / 2000.], [97.4 / 2000., 110. / 2000.],
               [0.4, 0.4]), fluid=('MEG', 0.), bore=(2., 0.075)),
    dict(soil=(1.10234567, 1.7012345678e6, 8.23456789),
         grout=(0.750123456, 2.6012345678e6),
         u=(0.0137012345, 0.0167023456, 0.0240123456, 1.30123e-5, 0.330123456,
            1.9012345678e6),
         coax=([0.0162012345, 0.0190123456], [0.0388123456, 0.0445123456],
               [0.350123456, 0.480123456]),
         fluid=('MPG', 25.), bore=(1.23456789, 0.0701234567)),
    dict(soil=(3.20234567, 2.9012345678e6, -1.43456789),
         grout=(1.60234567, 3.3012345678e6),
         u=(0.0092012345, 0.0113012345, 0.0510123456, 2.0123e-6, 0.550123456,
            2.1012345678e6),
         coax=([0.0225012345, 0.0262012345], [0.0461012345, 0.0521012345],
               [0.220123456, 0.70123456]),
         fluid=('MEA', 20.), bore=(4.01234567, 0.0632345678))]


def make_pipe(kind, mat=0):
    r_in, r_out, s, eps, k, rc = MATS[mat]['u']
    P = plat.media.Pipe
    if kind in ('single', 'double'):
        return P(P.place_pipes(s, r_out, 1 + (kind == 'double')), r_in, r_out, s,
                 eps, k, rc)
    inner, outer, k = MATS[mat]['coax']
    return P((0, 0), list(inner), list(outer), 0, eps, list(k), rc)


CLS = {'single': BHX.SingleUTube, 'double': BHX.MultipleUTube,
       'coaxial': BHX.CoaxialPipe}


class Fixtures:
    dt = dt
    plat = plat
    gt = gt
    BHX = BHX
    CLS = CLS

    mat = 0

    def pipe(self, kind='single'):
        return make_pipe(kind, self.mat)

    def soil(self, k=None, rhoCp=None, ugt=None):
        given = (k, rhoCp, ugt)
        return plat.media.Soil(*[u if v is None else v for v, u in
                                 zip(given, MATS[self.mat]['soil'])])

    def grout(self, k=None, rhoCp=None):
        given = (k, rhoCp)
        return plat.media.Grout(*[u if v is None else v for v, u in
                                  zip(given, MATS[self.mat]['grout'])])

    def fluid(self, name=None, pct=0.):
        return gt.media.Fluid(*((name, pct) if name else
                                MATS[self.mat]['fluid']))

    def borehole(self, H=100., D=None, r_b=None, x=0., y=0.):
        d, r = MATS[self.mat]['bore']
        return gt.boreholes.Borehole(H, d if D is None else D,
                                     r if r_b is None else r_b, x, y)

    def bhe(self, kind='single', m=0.2, H=100., r_b=None, **kw):
        return CLS[kind](m, kw.get('fluid') or self.fluid(),
                         kw.get('borehole') or self.borehole(H, r_b=r_b),
                         kw.get('pipe') or self.pipe(kind),
                         kw.get('grout') or self.grout(),
                         kw.get('soil') or self.soil())

    def sim(self, start=1, end=24, mx=35., mn=5., H=150., h=60.):
        return plat.media.SimulationParameters(start, end, mx, mn, H, h)

    def log_time(self):
        return dt.utilities.Eskilson_log_times()

    def gfunction(self, B=5., heights=(100.,), r_b=0.075, D=2.,
                  locations=((0., 0.),), curve=None, log_time=None):
        """A synthetic g-function family (no borefield computation)."""
        lt = self.log_time() if log_time is None else list(log_time)
        curve = curve or synthetic_curve
        return dt.gfunction.GFunction(
            B, {h: r_b for h in heights}, {h: D for h in heights},
            {h: [curve(h, x, len(locations)) for x in lt] for h in heights},
            lt, [tuple(c) for c in locations])

    def ghe(self, kind='single', V=0.2, nbh=1, H=100., g=None, sim=None,
            loads=None, borehole=None, soil=None, B=5., **kw):
        loc = [(5. * i, 0.) for i in range(nbh)]
        g = g or self.gfunction(B=B, heights=(H,), locations=loc)
        return dt.ground_heat_exchangers.GHE(
            V * nbh, B, CLS[kind], kw.get('fluid') or self.fluid(),
            borehole or self.borehole(H), self.pipe(kind), self.grout(),
            soil or self.soil(), g, sim or self.sim(),
            loads if loads is not None else loads_profile())


def synthetic_curve(h, x, n=1):
    """Smooth, increasing in time, height and field size: shaped like a long
    time step g-function."""
    return (3.0 + 4.0 * (1. + math.tanh((x + 1.) / 3.)) * (1. + 0.15 * (n - 1))
            + math.log(h / 100.) + 0.3 * (x + 8.5) * (x < 0)
            + 0.3 * 8.5 * (x >= 0))


def loads_profile(heat=1500., cool=2500.):
    """A smooth year (W, extraction positive) with distinct daily peaks."""
    out = []
    for i in range(8760):
        s = math.cos(2 * math.pi * (i - 400.) / 8760.)
        d = 0.5 + 0.5 * math.cos(2 * math.pi * ((i % 24) - 15) / 24.)
        h = heat * max(s, 0.) * (0.4 + 0.6 * (1 - d))
        c = cool * max(-s, 0.) * (0.3 + 0.7 * d)
        out.append(h - c)
    return out


# --------------------------------------------------------------------------
# seams
# --------------------------------------------------------------------------
@contextlib.contextmanager
def replaced(pairs):
    """pairs: (object found anywhere in ghedt's modules, replacement) or
    (class, attribute, replacement)."""
    undo = []
    try:
        for p in pairs:
            if len(p) == 3:
                owner, name, new = p
                had = name in vars(owner)
                undo.append((owner, name, vars(owner).get(name), had))
                setattr(owner, name, new)
            else:
                old, new = p
                for mname, m in list(sys.modules.items()):
                    if m is None or not (mname == 'ghedt' or
                                         mname.startswith('ghedt.')):
                        continue
                    for k, v in list(vars(m).items()):
                        if v is old:
                            undo.append((m, k, v, True))
                            setattr(m, k, new)
        yield
    finally:
        for owner, name, old, had in reversed(undo):
            if had:
                setattr(owner, name, old)
            else:
                delattr(owner, name)
