"""What is claimed, by which technique, at which level."""
MC = 'model_checking'
EX = 'exploration'
ENV = ('The real search / sizing code runs; its thermal environment is explored '
       'exhaustively within the stated bounds. Trusts the seam (GHE.simulate '
       'answered by the explorer) and the reference model in the check.')
ENUM = ('Bounded: the lattice stated in the evidence is covered completely, nothing '
        'outside it.  Trusts the reference model in the check.')
CLAIMS = {
    'C01': ('stateless model checking of the real search: exhaustive environment answers and response curves', MC, ENV),
    'C02': ('stateless model checking of the real nested search over exhaustive domains and responses', MC, ENV),
    'C03': ('stateless model checking of the real zoned search and sizing against a reference walk', MC, ENV),
    'C04': ('stateless model checking of the real sizing over exhaustive response curves', MC, ENV),
    'C05': ('stateless model checking of sequences of designs that share inputs, and of complete designs with real physics re-judged by a newly built exchanger', MC,
            'Bounded: real designs on small lands, one load each; sequences of uses on the real code with the entering temperatures answered by a fixed function. Trusts GHE.simulate for the re-judgement (C13 checks it).'),
    'C06': ('exhaustive enumeration of a lattice of lands x spacing limits x routines; every candidate generated by the real code is judged', EX, ENUM),
    'C07': ('exhaustive enumeration of lands; the candidate lists are compared with a reference transition system of row counts in exact arithmetic', EX, ENUM),
    'C08': ('exhaustive enumeration of row counts, spacings and origins for every shape against the set of grid points of the shape', EX, ENUM),
    'C09': ('exhaustive enumeration of lattice polygons x points x contour options, and of polygonal lands, against a rational point in polygon oracle', EX, ENUM),
    'C10': ('exhaustive enumeration of short hourly sequences, of every hour of every month as peak and of every set of empty months', EX, ENUM),
    'C11': ('exhaustive enumeration of peak days, durations, simulation periods and load patterns; every step of the generated series is judged', EX, ENUM),
    'C12': ('exhaustive enumeration of two day load shapes at the edges of every month against an independent superposition', EX, ENUM),
    'C13': ('stateless model checking: every load history up to the depth is simulated by the real code and compared with a reference superposition', MC, ENUM),
    'C14': ('exhaustive enumeration of request histories on interpolation families; every answer is compared with an independent interpolation', MC, ENUM),
    'C15': ('exhaustive enumeration of the relative positions of the two series and of heights against an exact merge', EX, ENUM),
    'C16': ('exhaustive enumeration of exchangers and of recomputation histories; every time step is compared with an independent solution of the same radial balance', MC,
            ENUM + ' The reference uses the discretisation of the code (cells per layer, time step).'),
    'C17': ('exhaustive enumeration of a lattice of geometries, flows and materials; volumes, flow and resistance recomputed independently', EX, ENUM),
    'C18': ('explicit exploration of every sequence of updates on the real exchangers, compared with newly built ones', MC, ENUM),
    'C19': ('explicit exploration of every sequence of operations on the real ground heat exchanger, compared with newly built ones', MC, ENUM),
    'C20': ('stateless model checking of every search; flow is audited at every field visited', MC, ENV),
    'C21': ('exhaustive enumeration of exchangers, heights, fields, objects and nested values written and read back', EX, ENUM),
    'C22': ('exhaustive enumeration of subsets of constraints, routines and options with valid and invalid values', EX, ENUM),
    'C23': ('exhaustive enumeration of fields, exchangers, options, orders and request histories against direct computations', EX,
            ENUM + ' Trusts pygfunction.'),
    'C24': ('exhaustive enumeration of argument lattices against exact arithmetic', EX, ENUM),
    'C25': ('exhaustive enumeration of peak days and durations; the rebuilt profile is judged hour by hour', EX, ENUM),
    'C26': ('exhaustive enumeration of fields, lands, families, load patterns and options; the artists of every figure are compared with the data, results with and without messages', EX,
            ENUM + ' Trusts matplotlib to draw what its artists hold.'),
}
NOT = {}
