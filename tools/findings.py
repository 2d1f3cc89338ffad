"""Writes known_findings.json: the repaired defects (suppress nothing) and the
recorded ones."""
import json
import subprocess
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (subject prefix, property, what failed)
 ('parallel U-tubes share', 'C18', 'every multiple U-tube in parallel was given half of the flow per pipe, also three or more U-tubes'),
 ('zoned search: compare the first', 'C03', 'the zoned search stopped at its first list whenever that needed more than 99 999 m of drilling, although the next ones needed less'),
 ('U_shape builds', 'C08', 'U_shape() built an L: the second leg of the U repeated the first one'),
 ('transpose the first zoned', 'C06', 'zoned_rectangle_domain: the first field of a transposed land was not transposed'),
 ('bi-zoned domain uses', 'C06', 'bi_rectangle_zoned_nested used the swapped land sides for its rows, fields left the land'),
 ('bi_rectangular row count', 'C06', 'bi_rectangular: rounding error added a row, spacing below the minimum'),
 ('reorder_domain keeps', 'C09', 'reorder_domain lost fields with equal numbers of boreholes'),
 ('remove_cutout accepts', 'C09', 'remove_cutout(boundary=None) raised'),
 ('a boundary between', 'C09', 'remove_cutout truncated the scaled boundary: boreholes on an edge at e.g. 1.13 m were cut off'),
 ('fields emptied', 'C09', 'a field emptied by the building stayed in the domain'),
 ('combine_sts_lts handles', 'C15', 'combine_sts_lts raised IndexError for series that touch'),
 ('a peak in the first hour', 'C10', 'a monthly peak in the first hour of a day was attributed to the day before'),
 ('a month whose peaks', 'C11', 'a month with both peaks on one day lost energy'),
 ('peak duration of small', 'C12', 'peak duration interpolation left its range for small loads'),
 ('a month without load', 'C12', 'a month without load got a peak duration'),
 ('hourly representation places', 'C25', 'hourly_load_representation placed the peak on the wrong day'),
 ('synthetic rejection average', 'C25', 'synthetic_load_function mixed units in the rejection average'),
 ('long peaks stay', 'C11', 'long peaks crossed month ends / each other: hours not increasing'),
 ('synthetic peaks longer', 'C25', 'synthetic peaks longer than a day left their month'),
 ('hybrid simulation time starts', 'C13', 'hybrid time axis began at month 0 whatever the start month'),
 ('hourly simulation covers', 'C13', 'hourly simulation ignored start and end month'),
 ('a single g-function', 'C14', 'a single g-function was used below its own height'),
 ('the interpolation table', 'C14', 'interpolation kind/extrapolation of an earlier request was reused'),
 ('a height just below', 'C14', 'a height within tolerance below the lowest curve raised'),
 ('updating the borehole flow', 'C18', 'm_flow_pipe was stale after a flow update'),
 ('a resistance asked for', 'C18', 'compute_effective_borehole_resistance(m_flow) combined the new flow with the film coefficient of the old one'),
 ('U-tube report prints', 'C18', 'U-tube report used the annulus Reynolds number'),
 ('shallow boreholes can', 'C21', 'report/export raised for shallow boreholes (step 0)'),
 ('size() ends', 'C04', 'size() left another height than the minimum when that is enough'),
 ('row counts of candidate', 'C07', 'rectangle list of a 36 m x 36 m land lost its 8x8 field, densest rows lost when B_min divides the land'),
 ('sign of zero', 'C24', 'sign(0) divided by zero'),
 ('solve_root accepts', 'C17', 'solve_root rejected a root on a bound'),
 ('number_of_boreholes', 'C24', 'number_of_boreholes lost one when the spacing divides the length'),
 ('check_inputs only', 'C22', 'check_inputs applied the bi-rectangle rules to every routine'),
 ('a search does not change', 'C05', 'a search changed the height of the borehole it was given'),
 ('nested search stays', 'C02', 'Bisection2D failed / went on with selection index 0'),
 ('an excess of exactly', 'C01', 'an excess temperature of exactly zero was not accepted'),
 ('do not return the smallest', 'C01', 'the smallest field was returned although it exceeds the limit at maximum height, when it is acceptable at minimum height only (very low flow: single U-tube, 0.004 L/s, 100..400 m)'),
 ('bi-zoned search no longer', 'C03', 'BisectionZD failed when every field of the first domain is enough'),
 ('the figure of the hourly loads', 'C26', 'visualize_hourly_heat_extraction() raised AttributeError and showed extraction as rejection'),
 ('the figure of the two day', 'C26', 'visualize_fluid_simulation_results() named rejection extraction and the other way round'),
 ('the two day responses are kept', 'C12', 'two day responses of the months after a month without load were stored under the month before')
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                         capture_output=True, text=True).stdout.splitlines()
    fixed = []
    used = set()
    for l in log:
        h, s = l.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        for pre, p, what in MAP:
            if s[5:].startswith(pre):
                fixed.append('fixed: property=%s %s %s' % (p, h, what))
                used.add(pre)
                break
        else:
            print('no entry for', l)
    for m in MAP:
        if m[0] not in used:
            print('unused', m)
    p = os.path.join(HERE, 'known_findings.json')
    old = {}
    if os.path.exists(p):
        old = json.load(open(p))
    json.dump(dict(findings=old.get('findings', []), fixed=fixed), open(p, 'w'),
              indent=1)


if __name__ == '__main__':
    main()
