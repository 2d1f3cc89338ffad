"""Regenerates properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAT = 'ghedt/peak_load_analysis_tool/'
SR, GHE, DOM, COO, GF, FR, UT, DES, MED = (
    'ghedt/' + f for f in (
        'search_routines.py', 'ground_heat_exchangers.py', 'domains.py',
        'coordinates.py', 'gfunction.py', 'feature_recognition.py',
        'utilities.py', 'design.py', 'media.py'))
GL, BHX, EQ, RN, PM = (PLAT + f for f in (
    'ground_loads.py', 'borehole_heat_exchangers.py', 'equivalance.py',
    'radial_numerical_borehole.py', 'media.py'))

# id, title, statement, over, quantifier text, why tests cannot, files,
# [(mechanism, where)], observe_at
P = []


def prop(*a):
    P.append(a)


prop('C01', 'The one dimensional search returns the smallest sufficient field',
     'For a list of candidate fields of growing size whose temperature excess at maximum height decreases along the list, the near-square / rectangle search returns the first field whose heat pump entering temperatures stay within both the maximum and the minimum limit at the maximum allowed height, and hands back a ground heat exchanger that describes exactly that field at maximum height with the requested flow. '
     'It refuses (ValueError naming the right end) when even the largest field is insufficient or when the smallest one is sufficient at minimum height; an excess of exactly zero is sufficient. '
     'Whatever the temperatures are, it never returns a field that it saw exceed a limit at maximum height.',
     ['inputs', 'histories'], 'all candidate lists, all positions of the answer in the list, all temperature responses (including both limit sides)',
     'The tests run one near-square search on one load file; which candidates are probed, and in which order, depends on the signs of all the temperatures met on the way.',
     [SR, GHE], [('integer bisection over the candidate list', SR + ' Bisection1D.search'), ('cost() reduces both limits to one excess', GHE + ' BaseGHE.cost')],
     ['search.selection_key', 'search.selected_coordinates', 'search.ghe'])
prop('C02', 'The nested search picks the first sufficient domain, then its smallest field',
     'Given nested candidate lists, the bi-rectangle search first finds the first list whose largest field stays within the temperature limits at maximum height and then returns the smallest sufficient field of that list, with the ground heat exchanger handed back describing that field at maximum height. '
     'It refuses with a ValueError when no list contains a sufficient field or the smallest field of the list is sufficient at minimum height.',
     ['inputs', 'histories'], 'all nested candidate lists and all required sizes, both limit sides',
     'No test runs the nested search.',
     [SR], [('outer search over the largest fields, then inner search', SR + ' Bisection2D.__init__')],
     ['search.selected_coordinates', 'search.ghe'])
prop('C03', 'The zoned search returns the least total drilling it finds, sized',
     'Starting at the first zoned candidate list whose largest field is sufficient, the bi-zoned search sizes the smallest sufficient field of each successive list until the total drilling (boreholes times height) increases (at most seven lists), and returns the one with the least total drilling. '
     'The ground heat exchanger handed back describes that field, its height lies within the allowed range and is the one at which the temperature limit is just met (or the minimum height), and the temperatures it holds belong to that height.',
     ['inputs', 'histories'], 'all assignments of required drilling to the candidate lists, all height ranges',
     'No test runs the zoned search; it depends on the whole history of searches and sizings.',
     [SR, GHE], [('search_successive walks the lists', SR + ' BisectionZD.search_successive'), ('size() after three g-functions', GHE + ' GHE.size')],
     ['search.selected_coordinates', 'search.ghe.bhe.b.H', 'search.ghe.HPEFT'])
prop('C04', 'Sizing returns the height at which the temperature limit is just met',
     'Sizing a ground heat exchanger sets the borehole height to the one within [minimum, maximum] height at which the entering temperatures just reach a limit, to the minimum height when that already suffices and to the maximum height when even that does not, warning in the last two cases and only then. '
     'The temperatures kept afterwards are those of the returned height, obtained with the requested simulation method, whatever height was set before.',
     ['inputs', 'histories'], 'all response curves crossing the limit below, inside or above the height range, all starting heights, both simulation methods',
     'The tests size three exchangers with one load file, each with the root inside the range.',
     [GHE, EQ], [('bracketing and Brent root search', EQ + ' solve_root'), ('objective sets the height and simulates', GHE + ' GHE.size')],
     ['ghe.bhe.b.H', 'ghe.HPEFT', 'warnings'])
prop('C05', 'A design found end to end satisfies its constraints and is reproducible',
     'For every routine, borehole heat exchanger type and flow convention, the design returned keeps the simulated heat pump entering temperatures of a freshly built ground heat exchanger of the same field within the limits at the height returned, while the next smaller candidate does not. '
     'Running the same design again, running other designs from the same inputs in between, or saving and reloading the design input gives the same result, and the inputs (borehole, loads, candidate fields, parameters) are left as they were.',
     ['histories', 'configurations'], 'routine x borehole heat exchanger x flow convention x load scale; every sequence of up to three uses of two designs sharing their inputs',
     'One test runs one design once, and asserts the number of boreholes only.',
     [DES, SR, GHE], [('dispatch to the search classes', DES + ' Design.find_design'), ('the search copies the borehole it varies', SR + ' Bisection1D.__init__'), ('pickle round trip', UT + ' create_input_file')],
     ['search.selected_coordinates', 'search.ghe', 'design attributes'])
prop('C06', 'Candidate fields fit the land and respect the spacing limits',
     'Every candidate field produced for a rectangular land by the rectangle, bi-rectangle and bi-zoned generators is non-empty, has no duplicate boreholes, lies within the land [0, length] x [0, width], and keeps boreholes at least the minimum spacing apart. '
     'Row spacing is uniform per axis and at most the maximum spacing allowed along that axis (along the long side for the rectangle generator; along the perimeter for zoned fields), also when the land is wider than long.',
     ['inputs'], 'all lands (longer than wide and wider than long) and all minimum / maximum spacings',
     'The tests never look at the coordinates of these candidates; the constraints must hold for every land and spacing.',
     [DOM, COO], [('row counts from spacing limits', DOM + ' rectangular, bi_rectangular, bi_rectangle_nested, bi_rectangle_zoned_nested'), ('transposition for lands wider than long', COO + ' transpose_coordinates')],
     ['design.coordinates_domain', 'design.coordinates_domain_nested'])
prop('C07', 'Candidate lists start small, grow and reach the densest allowed field',
     'The near-square list is 1x1, 1x2, 2x2, 2x3, ... N x (N+1) with N the number of boreholes that fits the length. The rectangle list starts with lines of one borehole, two, ... up to the fewest rows along the long side, adds rows across at the largest spacing, and then has the coarsest admissible field for each further row count across the short side. '
     'Bi-rectangle has one list per admissible row count of the short side, in increasing order, each going through lines, rows and every admissible row count along the long side. Bi-zoned steps the row counts of the two sides alternately from coarsest to densest; its first list passes line, L, U and closed perimeter one borehole at a time, and the zoned fields of each list start at the perimeter with one interior borehole and add interior rows until the full grid. '
     'Fields grow strictly within every list, and the largest field of every bi-rectangle and bi-zoned list spans the land.',
     ['inputs'], 'all lands and spacings (as C06) and all near-square lengths',
     'The search is only right if its candidates are ordered and complete; the tests never inspect a list.',
     [DOM, UT], [('nested loops over the admissible row counts', DOM)],
     ['design.coordinates_domain', 'design.coordinates_domain_nested'])
prop('C08', 'Shape generators produce exactly the boreholes of their shape',
     'For all row counts and spacings, the rectangle, open rectangle, U, lopsided U, C, L and zoned rectangle generators return exactly the grid points that make up that shape, each once, and transposing swaps x and y of every borehole in order. '
     'A zoned rectangle is the open perimeter plus an evenly spaced interior grid, and interior counts that do not fit are refused.',
     ['inputs'], 'all row counts up to the bound, anisotropic spacings, origins',
     'No test calls the shape generators other than through one near-square list.',
     [COO], [('explicit loops over rows', COO)], ['returned coordinates'])
prop('C09', 'Polygon constraints keep exactly the legal boreholes',
     'Cutting a field by a property boundary keeps exactly the boreholes inside or on it, cutting by a no-go zone removes exactly those inside or on it (per the requested treatment of the contour), in order and to within 0.1 mm; absent zones cut nothing. '
     'The polygonal candidate lists therefore contain only non-empty fields with every borehole inside the property and outside the building, exactly the legal boreholes of the corresponding rectangular candidates, sorted by number of boreholes without losing or duplicating a field.',
     ['inputs'], 'all polygons and no-go zones on a lattice, all contour options, all lands',
     'No test exercises the polygon filter.',
     [FR, DOM], [('point in polygon on scaled integer coordinates', FR + ' remove_cutout'), ('filter and reorder', DOM + ' polygonal_land_constraint, reorder_domain')],
     ['returned coordinates'])
prop('C10', 'Hourly loads are split and summarised by month without loss',
     'Splitting hourly ground loads gives non-negative rejection and extraction series in kW of which at most one is non-zero each hour and whose difference is the original load. '
     'Per calendar month, the totals, averages and peaks are those of the hours of that month, and the peak day is the day (1 to 31) of the first hour at which the peak occurs (0 for a month without load); the wrong number of hours is refused.',
     ['inputs'], 'every hour of the year as the place of the peak, ties, all signs, leap and common years',
     'The tests use one load file whose peaks never fall on the first hour of a day.',
     [GL], [('split by sign', GL + ' HybridLoad.split_heat_and_cool'), ('month slicing', GL + ' Loads.split_load_by_month')],
     ['Loads.monthly_total', 'Loads.monthly_peak', 'Loads.monthly_average', 'Loads.monthly_peak_day', 'peak analysis table'])
prop('C11', 'The hybrid time series conserves monthly energy and places the peaks',
     'The hybrid load series is a step function whose times strictly increase, which begins at the start of the starting month and ends at the end of the ending month, and whose integral over every month equals the net (rejection minus extraction) monthly load. '
     'In the first and last twelve months each non-zero monthly peak appears at its full level for its duration, around the middle of its day (moved only as far as needed to stay inside the month and apart from the other peak), unless both peaks fall on the same day; other months are constant.',
     ['inputs', 'configurations'], 'all starting and ending months, all pairs of peak days, all peak durations',
     'The tests pin the first hundred times of one profile starting in January.',
     [GL], [('month loop with retained peaks', GL + ' HybridLoad.process_monthly_loads'), ('peak_hour_range', GL + ' Loads.peak_hour_range')],
     ['HybridLoad.hour', 'HybridLoad.load', 'HybridLoad.sfload'])
prop('C12', 'Peak durations reproduce the two day thermal response',
     'For each month with load, the two day window contains the monthly peak hour, and the peak duration is the time a constant (peak minus average) load needs to produce the largest temperature change that the scaled two day load produces, both computed by superposition with the short time step response of the exchanger; it lies between 0 and 48 hours. '
     'The two day responses are kept by month. A month without load gets a negligible duration and no response, and the computation never fails for a valid load profile.',
     ['inputs'], 'all peak positions, lengths and levels, neighbouring month loads, constant and tiny loads',
     'The tests pin the durations of one office load file.',
     [GL], [('two day superposition and inverse interpolation', GL + ' Loads.perform_current_month_simulation')],
     ['Loads.monthly_peak_duration', 'Loads.monthly_two_day_hourly_peak'])
prop('C13', 'Fluid temperatures are the superposition of the load steps',
     'For any series of loads the simulated borehole wall temperature change is the sum over load steps of step size per unit length times the response function at the elapsed time, and the heat pump entering temperature adds the ground temperature, the load times borehole resistance and half the fluid temperature change; the reported maximum and minimum are those of the series. '
     'Hence no load gives the undisturbed ground temperature, later loads never change earlier temperatures, and the result is linear in the loads; the hourly method uses the given hourly loads, repeated yearly, from the starting month on for the requested months.',
     ['inputs', 'histories'], 'all short load histories over a small alphabet of levels and step lengths, both methods, number of boreholes, start and end months',
     'The tests compare one simulated maximum and minimum per exchanger type.',
     [GHE], [('temporal superposition', GHE + ' BaseGHE._simulate_detailed'), ('load series preparation', GHE + ' GHE.simulate')],
     ['ghe.HPEFT', 'ghe.dTb', 'simulate() result'])
prop('C14', 'g-function interpolation is exact at its nodes and history free',
     'Interpolating a family of g-functions in borehole height returns the stored curve, radius and depth at a stored height, the requested kind of interpolation (automatically reduced when there are too few curves) between heights and an extrapolation with a warning outside, and a single curve serves only its own height. '
     'The answer depends only on the family and the request, not on earlier requests; radius correction subtracts ln(new radius / old radius) and coordinates scale with spacing.',
     ['inputs', 'histories'], 'families of 1 to 6 heights, all kinds, all sequences of up to three requests',
     'The tests use the interpolation at one height and never twice with different settings.',
     [GF], [('cached interpolation table', GF + ' GFunction.g_function_interpolation')],
     ['g_function_interpolation()', 'borehole_radius_correction()', 'correct_coordinates()'])
prop('C15', 'Short and long time responses merge into one increasing time axis',
     'The combined response function has strictly increasing time, contains every long time step point unchanged, contains exactly the short time step points before the first long time step point, and interpolates linearly between neighbouring points. '
     'The response used by the exchanger is this combination for its own height, spacing and borehole radius.',
     ['inputs'], 'all relative positions of the two series including touching, equal, disjoint and contained ones; heights and radii',
     'The tests only meet one overlap pattern.',
     [GHE], [('combine_sts_lts', GHE + ' BaseGHE.combine_sts_lts'), ('grab_g_function', GHE + ' BaseGHE.grab_g_function')],
     ['combined g-function x and y'])
prop('C16', 'The short time step response solves the radial heat balance',
     'The short time step g-function is the response of the layered radial model (fluid, film, pipe, grout, soil) to a constant unit heat rate: every time step conserves energy, the fluid temperature never decreases, times are uniform and reach at least 49 hours and, to within one time step, ln(t/ts) = -8.6, and the late slope is that of a line source. '
     'Recomputing for the same or another borehole depends only on that borehole, not on what was computed before.',
     ['inputs', 'histories'], 'lattice of borehole geometries, materials, flow rates and heights; all sequences of up to three recomputations',
     'The tests only see it through three temperatures.',
     [RN], [('implicit finite volume solution', RN + ' RadialNumericalBH.calc_sts_g_functions')],
     ['radial_numerical.lntts', 'radial_numerical.g', 'radial_numerical.g_sts'])
prop('C17', 'The equivalent single U-tube preserves flow, volumes and resistance',
     'The equivalent single U-tube of a multiple (double, triple, ...) U-tube or coaxial exchanger has the same borehole mass flow, fluid volume, pipe wall volume, soil and height, its pipes fit in its borehole without overlap, and its effective borehole resistance equals that of the original whenever a grout conductivity within [0.01, 7] W/m.K allows it (otherwise the nearest bound is used). '
     'The resistance of the film and pipe wall of its tubes equals that of the original wherever a pipe conductivity between 1/100 and 10 times the original one allows it. '
     'Deriving it does not change the original, and a single U-tube is its own equivalent.',
     ['inputs', 'configurations'], 'lattice of flows, heights, geometries and materials for both types',
     'The tests check two geometries.',
     [EQ], [('volume preserving geometry, root searches for pipe and grout conductivity', EQ)],
     ['equivalent exchanger attributes', 'effective resistances'])
prop('C18', 'Exchanger resistances depend only on the current inputs',
     'After any sequence of updates (a new flow rate, fluid, height or conductivity followed by update_thermal_resistance(), queries, reports) an exchanger reports the same film, pipe and effective borehole resistances, and the same mass flow per pipe, as a newly built exchanger with the same current inputs; U-tubes in parallel share the flow evenly, in series each keeps all of it. '
     'Higher flow never increases the film resistance and the effective resistance exceeds that of the pipe and film paths alone.',
     ['histories', 'inputs'], 'every sequence of updates up to the bound for each exchanger type',
     'The tests build each exchanger once.',
     [BHX], [('update_thermal_resistance recomputes everything', BHX)],
     ['R_f', 'R_p', 'h_f', 'm_flow_pipe', 'update_thermal_resistance()'])
prop('C19', 'Ground heat exchanger results do not depend on what was done before',
     'For any sequence of operations on a ground heat exchanger (set height, simulate by either method, size, recompute g-functions, print the report, read the response function) each operation gives the result that it gives on a freshly built exchanger of the same construction (same flow, field, materials, loads, limits and g-functions) on which nothing else was done. A height that is set takes effect with the next simulation or sizing.',
     ['histories'], 'every sequence of up to three (thorough: four) operations for each exchanger type',
     'The tests run one fixed sequence per exchanger.',
     [GHE, GF, RN, EQ], [('simulate() rederives equivalent exchanger, short time response and combination', GHE + ' GHE.simulate')],
     ['simulate()', 'ghe.HPEFT', 'ghe.bhe.b.H', 'repr'])
prop('C20', 'Flow is accounted per borehole or per system as requested',
     'With the borehole convention every candidate field is evaluated with the given volumetric flow in each borehole; with the system convention the given flow is divided by the number of boreholes of that field. '
     'The g-function, the exchanger, the reported system flow and the mass flow all agree for every field evaluated during a search and for the one returned, and any other convention is refused.',
     ['histories', 'configurations'], 'every field met by the searches, all routines, flows, fluids and exchanger types',
     'The tests use the borehole convention only.',
     [SR, GHE], [('retrieve_flow', SR + ' Bisection1D.retrieve_flow'), ('V_flow_system / number of boreholes', GHE + ' BaseGHE.__init__')],
     ['search.ghe.V_flow_system', 'search.ghe.bhe.m_flow_borehole', 'g-function inputs'])
prop('C21', 'Exports and reports state the values of the design',
     'The exported file of a design holds the final height, number of boreholes, the equivalent single U-tube parameters and g-function pairs taken from the combined response at that height (times strictly increasing, all 27 long time step points included), and reading it back gives those values for every height and exchanger type. '
     'The text report states number of boreholes, depth, spacing, temperatures and coordinates of the exchanger it describes; saved objects and JSON files read back equal.',
     ['inputs', 'configurations'], 'exchanger types x heights (shallow to deep) x field sizes',
     'No test exports or reads back a design.',
     [SR, GHE, UT], [('oak_ridge_export', SR + ' oak_ridge_export'), ('__repr__', GHE + ' GHE.__repr__')],
     ['exported JSON', 'repr(ghe)'])
prop('C22', 'Invalid requests are refused, valid ones accepted',
     'A design request is accepted exactly when its routine is one of near-square, rectangle, bi-rectangle, bi-zoned and all geometric constraints that routine needs are given; a search refuses an unknown flow convention and a simulation an unknown method. '
     'Unknown units, exchanger configurations, exchanger types, segment options, boundary conditions and inconsistent near-square bounds are refused as well, before anything is computed from them.',
     ['configurations'], 'every subset of constraints for every routine; every option with valid and invalid values',
     'No test passes an invalid request.',
     [DES, MED, SR, GHE, GL, BHX, GF], [('check_inputs', MED + ' GeometricConstraints.check_inputs')],
     ['exceptions'])
prop('C23', 'Live g-functions equal direct borefield computations',
     'The g-function computed for a field equals the one computed directly with the borefield library for the same boreholes (height, depth, radius, positions), flow, materials, time values exp(ln(t/ts)) times H^2/(9 alpha), segments, solver and boundary condition, for each requested height and stored under that height with its radius, depth, spacing and locations. '
     'It increases with time, does not depend on the order of heights nor (beyond the grouping of similar boreholes by the solver) of boreholes, and is unaffected by earlier computations.',
     ['inputs', 'configurations'], 'small fields x exchanger types x heights x boundary conditions x segment options, in any order',
     'The tests check one field at three heights through temperatures.',
     [GF], [('calculate_g_function, compute_live_g_function, configure_database_file_for_usage', GF)],
     ['GFunction.g_lts', 'GFunction.B', 'r_b_values', 'D_values'])
prop('C24', 'Geometry, pipe placement and calendar helpers are exact',
     'Number of boreholes, side length and spacing along a length are inverse to each other for every count and spacing; the polygon area, rectangle perimeter and borehole spacing helpers give the exact values; the sign and bracket helpers agree with their definition for all signs including zero. '
     'Pipes are placed evenly on a circle such that opposite pipes are the shank spacing apart and consecutive ones form a leg pair; calendar helpers give the days and the first and last hour of every month of every (365 day) year; the 27 logarithmic times are the published ones; Reynolds numbers, percentage errors, bounded root search and reordering of fields follow their definitions.',
     ['inputs'], 'lattices of counts, spacings, polygons, shank spacings, radii, pipe counts, months, flows and value lists',
     'The tests use one value of some of them.',
     [UT, PM, GL, BHX, EQ, DOM], [('closed formulas', UT), ('place_pipes', PM + ' Pipe.place_pipes')],
     ['returned values'])
prop('C25', 'Synthetic and rebuilt hourly profiles match their description',
     'The hourly profile rebuilt from a hybrid load has the length of the year, the monthly average level outside the peak, and in each month the peak level for the rounded peak duration on (around noon of) the day on which the peak occurs, inside the month. '
     'The synthetic doubling profile has, in the requested units, monthly averages and peaks of i and 2i (extraction) and 13-i and twice that (rejection) with the documented durations and days.',
     ['inputs'], 'all pairs of peak days, durations from 0 to 48 hours, units',
     'No test rebuilds an hourly profile.',
     [GL], [('synthetic_load_function', GL), ('hourly_load_representation', GL + ' HybridLoad.hourly_load_representation')],
     ['returned hourly profiles'])
prop('C26', 'Figures and progress messages show the data and change nothing',
     'The figures of a field, of a land with its no-go zone and of a g-function family show exactly the data they are given: one marker per borehole at its position, closed outlines, one curve per stored height named spacing/height. '
     'The picture of the hourly ground loads shows extraction upwards and rejection downwards in kW at the hour of the year they occur, each under its own name, and the picture of the two day responses shows those of the month and of the loads asked for, with a mark at the peak duration; candidate lists are saved as one picture per field in the order of the list. '
     'Minor ticks of a symmetric logarithmic axis divide every major interval into equal parts. Drawing leaves the data as they were, and asking for progress messages (disp) changes no candidate list and no design; nothing is printed unasked but the notes on selecting with the hourly method and on lists of more than 2500 boreholes.',
     ['inputs', 'configurations'], 'fields, lands, families, load patterns, months, thresholds; every generator and search with and without messages',
     'No test draws a figure or asks for messages.',
     [GF, COO, DOM, UT, GL, SR], [('visualize_* functions', GF + ', ' + COO + ', ' + DOM + ', ' + GL), ('MinorSymLogLocator', UT), ('disp arguments', DOM + ', ' + SR + ', ' + DES)],
     ['matplotlib artists of the returned figures', 'saved files', 'stdout'])

# property -> (technique, level, note); absent = not claimed yet
PY = '/opt/venv/bin/python run.py '


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for (i, title, st, over, qt, why, files, mech, obs) in P:
            assert len(title) <= 80, (i, len(title))
            d = dict(id=i, title=title, statement=st,
                     quantifier=dict(over=over, text=qt), why_tests_cant=why,
                     anchors=dict(files=files,
                                  mechanism=[dict(name=a, where=b) for a, b in mech],
                                  observe_at=obs, hook_needed=None))
            f.write(json.dumps(d) + '\n')
    from tools import claims
    checks, na = [], []
    for p in P:
        c = claims.CLAIMS.get(p[0])
        if c is None:
            na.append(dict(property=p[0], reason=claims.NOT.get(
                p[0], 'no check built yet')))
            continue
        tech, level, note = c
        checks.append(dict(
            property=p[0], quick_cmd=PY + p[0],
            thorough_cmd='VERIF_TIER=thorough ' + PY + p[0],
            evidence_file='evidence/%s.json' % p[0],
            technique=tech, level=level, level_note=note))
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python tools/setup.py',
             checks=checks, not_applicable=na,
             notes='No hooks in /repo: the code is driven through its public '
                   'interface and run time seams (see DESIGN.md).')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    import sys
    sys.path.insert(0, HERE)
    main()
