"""Rectangular lands: the lattice and the exact (rational) arithmetic of what
fits on them."""
import math
from fractions import Fraction as F

from .fixtures import loads_profile  # noqa: F401

LARGE = [('120', '80', '5', '8', '8'), ('31', '200', '4', '7.5', '5'),
         ('150', '22', '3', '4', '11'), ('100', '100', '6', '9', '7'),
         ('85.5', '90', '4.5', '6', '5'), ('12', '400', '5', '6', '6.5'),
         ('1000', '9', '7', '7.5', '9'), ('70', '64', '3', '3.5', '4'),
         ('250', '180', '6', '6.5', '7'), ('64', '70', '2.5', '3.1', '2.75'),
         ('330', '35', '5', '10', '6')]
_YEAR = [1., -1.] * 12


def lattice(tier):
    """(length, width, B_min, B_max_x, B_max_y)"""
    if tier == 'quick':
        Ls = ['6', '10', '13.5', '14.7', '18.9', '20', '24', '29', '36', '41.3']
        Ws = ['2', '6', '9.7', '14.7', '15', '20', '24', '29', '36']
        sp = [('3', '5', '5'), ('4', '8', '6'), ('4.5', '6', '10'),
              ('5', '5', '5'), ('3', '12', '7'), ('4', '30', '30'),
              ('2.1', '6', '9')]
    else:
        Ls = ['5', '6', '8.4', '10', '13.5', '14.7', '17', '18.9', '20', '24',
              '29', '32.5', '36', '41.3', '50', '58.8']
        Ws = Ls + ['2', '9.7', '15', '30']
        sp = [('3', '5', '5'), ('4', '8', '6'), ('4.5', '6', '10'),
              ('5', '5', '5'), ('3', '12', '7'), ('4', '30', '30'),
              ('2.1', '6', '9'), ('2.4', '3.6', '3'), ('6', '6.1', '9'),
              ('3', '3', '9'), ('3', '9', '3')]
    for L in Ls:
        for W in Ws:
            for b in sp:
                yield (L, W) + b
    # large lands, hundreds of boreholes and more
    for land in LARGE:
        yield land
    # sides that are just short of, or just beyond, a whole number of spacings
    for b in sp:
        lo, bx, by = (F(v) for v in b)
        for d in ('0.00001', '0.01', '0.04', '0.2'):
            for sg in (-1, 1):
                near = [float((n + sg * F(d)) * v) for v, ns in
                        ((lo, (4, 7)), (bx, (2, 3)), (by, (2, 3))) for n in ns]
                for x in near if tier != 'quick' else near[::2]:
                    for other in ('20', '24') if tier == 'quick' else \
                            ('13.5', '20', '24', '36'):
                        yield (repr(x), other) + b
                        yield (other, repr(x)) + b


class Land:
    def __init__(self, land):
        self.L, self.W, self.bmin, self.bx, self.by = (F(x) for x in land)
        self.swap = self.L < self.W
        if not self.swap:
            self.l1, self.l2, self.b1, self.b2 = self.L, self.W, self.bx, self.by
        else:
            self.l1, self.l2, self.b1, self.b2 = self.W, self.L, self.by, self.bx
        # admissible numbers of rows per side
        self.n1 = list(range(math.ceil(self.l1 / self.b1) + 1,
                             math.floor(self.l1 / self.bmin) + 2))
        self.n2 = list(range(math.ceil(self.l2 / self.b2) + 1,
                             math.floor(self.l2 / self.bmin) + 2))
        # the rectangle routine knows one maximum spacing, for the long side
        self.r1 = list(range(math.ceil(self.l1 / self.bx) + 1,
                             math.floor(self.l1 / self.bmin) + 2))

    def floats(self):
        return [float(x) for x in (self.L, self.W, self.bmin, self.bx, self.by)]

    def feasible(self, routine):
        if routine == 'rectangle':
            return bool(self.r1)
        if routine == 'bi-rectangle':
            return bool(self.n1) and bool(self.n2)
        return bool(self.n1) and bool(self.n2) and \
            min(self.n1[0], self.n2[0]) >= 3

    def grid(self, field):
        """(index along the long side, index along the short side)"""
        return field

    def place(self, pts):
        """points given as (long side, short side) -> (x, y) floats"""
        return [(float(b), float(a)) if self.swap else (float(a), float(b))
                for a, b in pts]


def design(lib, routine, gc, **kw):
    """A Design on this land; nothing physical happens when it is built."""
    inp = dict(V_flow=0.2, borehole=lib.borehole(), bhe_object=lib.CLS['single'],
               fluid=lib.fluid(), pipe=lib.pipe(), grout=lib.grout(),
               soil=lib.soil(), sim_params=lib.sim())
    inp.update(kw)
    return lib.dt.design.Design(
        inp['V_flow'], inp['borehole'], inp['bhe_object'], inp['fluid'],
        inp['pipe'], inp['grout'], inp['soil'], inp['sim_params'],
        lib.dt.media.GeometricConstraints(**gc)
        if isinstance(gc, dict) else gc,
        inp.get('loads', _YEAR), method=inp.get('method', 'hybrid'),
        routine=routine, flow=inp.get('flow', 'borehole'))


def domains(lib, routine, land):
    """nested list of candidate fields of the design of this land"""
    L, W, bmin, bx, by = land.floats()
    gc = dict(length=L, width=W, B_min=bmin, B_max_x=bx)
    if routine != 'rectangle':
        gc['B_max_y'] = by
    d = design(lib, routine, gc)
    if routine == 'rectangle':
        return [d.coordinates_domain]
    return d.coordinates_domain_nested


def same_points(a, b, tol=1e-6):
    """The same multiset of points to within tol (points of one field are
    metres apart)."""
    if len(a) != len(b):
        return False
    cell = {}
    for x, y in a:
        x, y = float(x), float(y)
        cell.setdefault((math.floor(x * 8), math.floor(y * 8)), []).append((x, y))
    for x, y in b:
        x, y = float(x), float(y)
        i, j = math.floor(x * 8), math.floor(y * 8)
        hit = None
        # the point may lie just across the edge of its cell
        for ci in {i, math.floor((x - tol) * 8), math.floor((x + tol) * 8)}:
            for cj in {j, math.floor((y - tol) * 8), math.floor((y + tol) * 8)}:
                for p in cell.get((ci, cj), ()):
                    if abs(p[0] - x) <= tol and abs(p[1] - y) <= tol:
                        hit = (ci, cj), p
        if hit is None:
            return False
        cell[hit[0]].remove(hit[1])
    return True


class Names:
    """Names points; points within tol get the same name."""

    def __init__(self, tol=1e-4):
        self.tol, self.cell, self.n = tol, {}, 0

    def __call__(self, p):
        x, y, t = float(p[0]), float(p[1]), self.tol
        for ci in {math.floor((x + d) * 8) for d in (-t, 0, t)}:
            for cj in {math.floor((y + d) * 8) for d in (-t, 0, t)}:
                for q, k in self.cell.get((ci, cj), ()):
                    if abs(q[0] - x) <= t and abs(q[1] - y) <= t:
                        return k
        self.n += 1
        self.cell.setdefault((math.floor(x * 8), math.floor(y * 8)),
                             []).append(((x, y), self.n))
        return self.n

    def field(self, f):
        return tuple(sorted(map(self, f)))
