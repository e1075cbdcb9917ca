B = {
'sr_row': 'one row (<=, >=, =, range) over 2 columns (integer or continuous, 9 bound pairs incl. infinite), entries from 5 values, rhs symbolic in [-12,12] step 1/4, feasible point symbolic in [-4,5]^2',
'sr_rows': '2 rows over 3 columns, entries {-3,0,2}, rhs symbolic [-6,6] step 1/2, one column continuous or unbounded, one possibly fixed (symbolic value)',
'sr_dec': '2 integer columns in [0,40], decimal entries k/10^d for d=1..3, rhs symbolic -300..300 over 10^d',
'sr_skip': '3 rows, the first one skipped for one of 5 reasons, the next two must be rounded independently; point symbolic',
'sr_mag': '2 columns, entries from 22 values between 1e-13 and 1e15 (stored zeros included), rhs symbolic in [-20,20] or [-1e10,1e10]',
'mir2_row': 'as mir_row', 'mir2_vb': 'as mir_vb', 'mir2_agg': 'as mir_agg', 'mir2_int': 'as mir_int', 'mir2_re': 'as mir_re', 'mir2_sym': 'as mir_sym', 'mir2_crit': 'as mir_crit',
'fc_node': '1 flow row (<=, >=, =, 3 right hand sides) over 3 flows (third in- or outflow), capacities 2/3/5 as variable or plain upper bounds, 4 values of the binaries, flows symbolic step 1/2',
'fc_bin': '1 row over 2 continuous, 1 scaled continuous column and 2 binaries, coefficients -3/2/4, upper bounds 1/3/infinite, fixed column, optional variable upper bound; relaxation values symbolic (2 columns) or from tables',
'fc_lift': '4 flows with variable upper bounds from 4 capacities, 1 or 2 outflows, <= or =, 2 right hand sides, 3 values per binary, flows at 0 or capacity',
'fc_hist': '2 flows, 2 flow rows; cut limit 0..2 or none, tree information, copies, repeated calls, matrices with and without gaps',
'rc_row': '1 row of every sense, 2 columns taken as continuous (3 coefficients, lower bounds 0/-1/1, upper bounds 0/2/infinite, one of them integer or not) and 2 capacity columns (equal or different coefficients, one possibly negative), 4 right hand sides, symbolic values step 1/4',
'rc_rows': '3 rows over 5 columns, every sense, 2 tolerances, preprocessing -1..1, matrices with and without gaps',
'rc_hist': '2 rows over 4 columns; repeated call, copy, assignment, tightened bound, other problem after refreshPrep',
'oh_tri': '3 rows over 3 binaries (4 value patterns) and a fourth column (fixed or not, integer or not, 4 entries), 5 senses and 7 senses of the last row, right hand sides net of the column or not',
'oh_val': 'triangle of 3 packing, covering or equality rows, symbolic values step 1/8',
'oh_five': 'odd cycle of 5 rows over 6 binaries, packing or covering, chord and lifted column optional, values 1/4 or 1/2',
'oh_row': '1 or 2 rows over 4 binaries with values 1/4, 1/2, 3/4, every 0/1 pattern and sense',
'oh_lim': '4 rows over 5 binaries (3 values each of three), reduced costs symbolic signs, minimum violation 2 values, maximum entries 2..5, row list absent/created/short/long, matrix with and without gaps',
'cl_tri': 'triangle of rows plus a column of any kind (4 entries, 2 lower bounds, width 0..2), 4 row kinds; values symbolic step 1/8; all clique options',
'cl_graph': '5 binaries, 6 rows, 64 conflict graphs, two symbolic values step 1/8, packing flag, gaps',
'cl_list': '4 binaries, 4 rows, tree information (inTree, pass, formulation_rows 0..4, option 4), minimum violation, original-rows flag, clone',
'cl_empty': '3 rows over 4 binaries, every 0/1 pattern of 3x3, values symbolic step 1/4',
'cl_star': '7 binaries at 1/2: a hub (with or without a twin) in conflict with five others, every conflict graph on those five (2^10), row and star method, every node rule, both thresholds',
'ad_one': 'one set of 3 of 4 columns in any order, lower bounds -1..1, widths 0..3; solution symbolic',
'ad_two': 'two overlapping sets over 4 columns, lower bounds -1..0, widths 0..2; solution symbolic',
'ad_none': 'no sets, three constructors, upper bounds symbolic',
'ad_wide': 'two sets of two columns, 45 domains incl. infinite and too wide for the tables; solution symbolic; memory',
'ad_three': 'three overlapping sets over 5 columns, lower bounds -1..0, widths 0..2; solution symbolic',
'st_cuts': '3 cuts added in 4 ways, right-hand sides symbolic [-2,3] step 1/4, point symbolic [0,2]^2 step 1/8, 4 required violations, copies',
'st_imp': '4 columns, 2 implications (any source, value, target, side), bounds of the target from 9 pairs, point symbolic step 1/4, a source optionally fixed later',
'st_save': '3 columns, saved solution, objective and bounds symbolic, three kinds of copy',
'st_file': 'file with 0..3 cuts of 0..3 entries, all values symbolic, complete or truncated at 8 places',
'st_many': '12 stored cuts, point symbolic',
'im_store': '4 columns, 3 implications (all sources, values, targets, sides), four kinds of copy, packed or not',
'im_fix': '5 columns, 2 implications, bounds of 3 columns changed, fixColumns with and without a column; point symbolic',
'im_cuts': '5 columns, 2 implications, bounds of 3 columns changed, relaxation values symbolic step 1/4; point symbolic',
'im_ext': '5 columns, one row, 3 caller-given cliques of 2-3 entries of any sign and type, one implication; point symbolic',
'im_many': '260 implications over 20 columns, 3 orders, copies in between',
'im_clq': '5 columns, 2 rows with entries -1..1, clique model from rows and implications; point symbolic',
'mir_row': 'one row, 2 integer and 1 continuous column, entries, bounds (incl. infinite, negative) and rhs from tables, all senses; 12 relaxation points; feasible point symbolic',
'mir_vb': '3 rows, 2 integer and 2 continuous columns, variable upper/lower bounds in any direction; 12 relaxation points; feasible point symbolic',
'mir_agg': '3 rows over 2 integer and 3 continuous columns, up to 3 rows aggregated; 8 relaxation points; feasible point symbolic',
'mir_int': '2 integer rows over 3 columns, fractional upper bounds, fixed column; 4 relaxation points; feasible point symbolic',
'mir_sym': 'one row, 2 integer and 1 continuous column, entries from tables; relaxation and feasible points symbolic',
'mir_crit': '3 rows, variable bound, aggregation, criteria 1..3, rows taken with either sign; 8 relaxation points; feasible point symbolic',
'mir_re': 'second call, copy, assignment, changed or smaller problem, preprocessing -1..1, 9 relaxation points; feasible point symbolic',
'zh_tri': '3 rows, 3 integer columns, entries {1,-1,3}, rhs -1..3, all senses; points symbolic (relaxation step 1/2); dense and sparse separation graph; memory',
'zh_weak': '2 rows with 3-4 odd entries, bounds from tables; points symbolic',
'zh_gcd': '2 rows, 3 columns, entries {-2,0,1,3} (zeros stored or not), bounds infinite or fractional, a continuous column; points symbolic',
'zh_frac': '3 rows with fractional entries and right-hand sides, ranged row; points symbolic',
'zh_five': 'odd cycle of 5 rows over 6 columns, packing or covering, signs, weakened column; two relaxation values symbolic',
'zh_node': 'bounds changed between refresh and generation, global flag, row filters, tree information; one relaxation value and the feasible point symbolic',
'zh_copy': 'second call, clone, assignment, refresh with another problem and back; relaxation values symbolic step 1/2',
'zh_path': 'auxiliary graphs over 4 nodes, every arc set, every arc length symbolic 0..12, limit 10, 2 sources',
'rs_row': 'one row, one basic column, two nonbasic columns at either bound, entries/bounds/rhs from tables, all senses, both cut kinds; feasible point symbolic; memory',
'rs_two': '2 rows, 4 bases, nonbasic columns at either bound, tables; feasible point symbolic; memory',
'rs_tab': '4 rows, at most one basic slack, table limit 2 values; feasible point symbolic; memory',
'rs_wide': '64000 rows of which 4 are fractional at the start and end; table limit 2 values; feasible point symbolic',
'rs_eps': '4 columns with small entries dropped from the cut, bounds at either side; feasible point symbolic',
'rs_lim': '4 columns, support, fractionality, large-bound and relaxation limits; feasible point symbolic',
'pa_base': 'every setter of CglParam with symbolic values, order of two calls, copies, constructors',
'pa_rs': 'every setter of CglRedSplitParam with symbolic values, copies, constructors',
'pa_gmi': 'every setter of CglGMIParam with symbolic values, copies, constructors',
'pa_rs2': 'every setter of CglRedSplit2Param with symbolic values, lists, copies, constructors',
'lp_two': '2 columns (binary, general, continuous), 1 row and the bounds; any answer of the cut generating problem within [-4,4] step 1/4; all feasible points',
'lp_three': '3 columns, 2 rows and part of the bounds; any answer of the cut generating problem; all feasible points',
'lp_mem': '2 columns, 0..3 rows, up to two refused answers; memory',
'kc_row': 'one row of any sense over 4 binaries, entries {-3,0,1,2}, rhs 1..4, relaxation values symbolic step 1/4; feasible point symbolic',
'kc_kind': '4 binaries and a column of any kind (6 bound pairs, 3 entries); points symbolic',
'kc_vub': '3 rows, 4 binaries, 2 continuous columns with variable bounds from the other rows; points symbolic step 1/2',
'kc_lift': '7 binaries, 4 rows, 3 complementations, rhs 9..11, relaxation values symbolic step 1/2; feasible point symbolic',
'kc_tol': '7 binaries, decimal and small entries, relaxation points violating the row by up to 1e-7; points symbolic',
'kc_list': '3 rows over 5 binaries, row lists, size limit 3..5, tree information, copies; points symbolic',
'kc_clq': '3 rows over 4 columns, entries -1..1, clique creation, fixings; point symbolic',
'kc_vfix': '2 rows, fixed column -1..2 in the knapsack and/or the variable bound row, all senses; points symbolic step 1/2',
'kc_two': '4 binaries, 2 rows over the same columns (5 x 3 rows, both orders, both senses, right-hand sides 0 to 1 above), relaxation point symbolic step 1/2; feasible point symbolic',
'kc_long': '21 to 24 binaries, one row, 3 relaxation values symbolic step 1/4; feasible point symbolic',
'dr_sets': '3 rows over 5 binaries: every pair of sets, a third from 5, equality or <=; feasible point symbolic',
'dr_long': '3 rows over 6 binaries; feasible point symbolic',
'dr_kind': '3 rows over 4 columns: any kind, entry, bound and right-hand side from tables; feasible point symbolic',
'dr_out': '3 rows over 4 binaries, modes 1-3 and 8, copies, row deletion; feasible point symbolic',
}
def fill(PROPS):
    for pid, d in PROPS.items():
        for s in d['scenarios']:
            b = B.get(s['name'])
            if not b: b = {'C16': 'settings as in C13, small symbolic problem, four other problems before it (bounds changed, rows removed, columns and rows reversed and one more, more rows), tree informations, one or two calls before', 'C13': 'every setting symbolic in its documented range, 2-5 kinds of copy, three tree informations, small symbolic problem', 'C15': 'settings symbolic, small symbolic problem, cut collection empty or not, three tree informations', 'C19': 'every setting symbolic in its documented range'}[pid]
            s['bounds'] = b
