"""Yearly load profiles, the calendar, and hybrid loads built by the real code."""
import numpy as np

DAYS = {False: [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31],
        True: [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]}


def leap(year):
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


def days(year=2019):
    return DAYS[leap(year)]


def month_slices(year=2019):
    out, h = [], 0
    for d in days(year):
        out.append((h, h + 24 * d))
        h += 24 * d
    return out


def start_hour(month):
    """hours from the beginning of year one to the beginning of month 1, 2, ...
    13 is January of the second year (common years)"""
    y, m = divmod(month - 1, 12)
    return y * 8760 + 24 * sum(DAYS[False][:m])


_CACHE = {}


def exchanger(lib, kind='single'):
    """A real exchanger with its short time step response, one per process."""
    key = (kind, lib.mat)
    if key not in _CACHE:
        bhe = lib.bhe(kind)
        eq = lib.plat.equivalance.compute_equivalent(bhe)
        r = lib.plat.radial_numerical_borehole.RadialNumericalBH(eq)
        r.calc_sts_g_functions(eq)
        _CACHE[key] = (eq, r)
    return _CACHE[key]


def hybrid(lib, rejection, extraction, start=1, end=24, year=2019, kind='single'):
    eq, r = exchanger(lib, kind)
    return lib.plat.ground_loads.HybridLoad(
        rejection, extraction, eq, r, lib.sim(start, end), year=year)


def loads(lib, hourly, year=2019, kind='single'):
    eq, r = exchanger(lib, kind)
    return lib.plat.ground_loads.Loads(
        hourly, r.g_sts, r.t_s, 2. * np.pi * eq.soil.k,
        eq.compute_effective_borehole_resistance(), year=year)
