"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/meta.py` after editing."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def p(id, title, statement, over, text, why, files, mech, obs=None, na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs or ['OsiCuts filled by generateCuts'], 'hook_needed': None}})
    if na: NA.append({'property': id, 'reason': na})
T = 'The unit test of this generator checks a few fixed instances (often only counts of cuts); '
p('C02', 'Simple rounding cuts are valid', 'Every cut the simple rounding generator returns is satisfied by every point that satisfies the rows, the column bounds and the integrality requirements of the problem in the solver.',
  ['inputs'], 'every row (any sense, any coefficients including decimals, stored zeros, tiny and huge ones), every mix of integer and continuous columns with finite or infinite bounds, every integer-feasible point', T + 'validity is over all feasible points of all rows.',
  ['src/CglSimpleRounding/CglSimpleRounding.cpp', 'src/CglSimpleRounding/CglSimpleRounding.hpp'], [('deriveAnIntegerRow: continuous columns are replaced by their bounds', 'CglSimpleRounding.cpp'), ('power10ToMakeDoubleAnInt, gcdv, rounding of the scaled right-hand side', 'CglSimpleRounding.cpp')])
p('C03', 'Mixed integer rounding cuts are valid and violated', 'Every cut the mixed integer rounding generator returns is satisfied by every feasible point of the problem and is violated by the current relaxation solution; this holds for every aggregation limit, criterion, multiplication and preprocessing setting, and also after the problem was changed and the generator refreshed.',
  ['inputs', 'configurations', 'histories'], 'every mixed-integer problem within the bounds, every relaxation point inside the column bounds, every parameter setting, first and later calls', T + 'validity must hold for all feasible points and all relaxation solutions.',
  ['src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', 'src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp'], [('row classification and variable upper/lower bounds', 'mixIntRoundPreprocess, determineRowType'), ('aggregateRow, boundSubstitution, cMirSeparation, cMirInequality', 'CglMixedIntegerRounding.cpp')])
p('C04', 'Clique cuts are valid and violated', 'Every cut the clique generator returns is satisfied by every integer-feasible point of the problem and is violated by the current relaxation solution by at least the configured amount; cuts made in a search tree from local information are not marked globally valid, and the configuration of the generator is the same after the call as before.',
  ['inputs', 'configurations'], 'every set of rows, column kinds and bounds within the bounds, every relaxation point, every row/star option, next-node rule, threshold and tree information', T + 'validity is over all conflict graphs and all points.',
  ['src/CglClique/CglClique.cpp', 'src/CglClique/CglCliqueHelper.cpp', 'src/CglClique/CglClique.hpp'], [('selectFractionalBinaries, selectRowCliques, createSetPackingSubMatrix', 'CglCliqueHelper.cpp'), ('find_rcl, find_scl, enumerate_maximal_cliques, greedy_maximal_clique', 'CglClique.cpp')])
p('C05', 'Odd hole cuts are valid, violated and within limits', 'Every cut the odd hole generator returns is satisfied by every integer-feasible point of the problem, is violated by the current relaxation solution by the configured minimum and has no more entries than configured, whatever row list was given.',
  ['inputs', 'configurations'], 'every set of packing, covering, equality and range rows over binaries, fixed columns and other columns within the bounds, every relaxation point, every limit and row list', T + 'validity is over all rows, relaxation points and feasible points.',
  ['src/CglOddHole/CglOddHole.cpp', 'src/CglOddHole/CglOddHole.hpp'], [('row selection and sign handling', 'CglOddHole::generateCuts'), ('shortest odd cycle, lifting, limits', 'CglOddHole::generateCuts(rows,...)')])
p('C07', 'All-different propagation is sound', 'Bounds tightened or infeasibility reported by the all-different generator never exclude an assignment that is inside the column bounds and takes pairwise different values in every declared set; without declared sets nothing is produced.',
  ['inputs', 'histories'], 'every collection of sets within the bounds, every column bound box, every integer assignment, original, copied and cloned generators', 'There is no unit test of this generator; soundness is over all assignments and all boxes.',
  ['src/CglAllDifferent/CglAllDifferent.cpp', 'src/CglAllDifferent/CglAllDifferent.hpp'], [('set bookkeeping in constructor and copies', 'CglAllDifferent constructors'), ('bound propagation and infeasibility detection', 'CglAllDifferent::generateCuts')])
p('C11', 'Stored cuts come back exactly when violated', 'A store of cuts returns from a call exactly the stored cuts that the current solution violates by at least the required amount, unchanged, and never forgets, duplicates or alters what was saved (cuts, best solution, bounds, implications); cuts derived from stored implications keep every feasible point.',
  ['inputs', 'histories'], 'every sequence of stored row and column cuts, violation amounts, solutions, copies, assignments and saved files within the bounds', 'No unit test covers the store; the guarantee is over all histories of adds, copies and calls.',
  ['src/CglCommon/CglStored.cpp', 'src/CglCommon/CglStored.hpp'], [('addCut variants, saveStuff, copies', 'CglStored.cpp'), ('violation test', 'CglStored::generateCuts')])
p('C12', 'Recorded implications are kept and used soundly', 'A table of implications between 0-1 columns returns, after packing and sorting, exactly the implications recorded for valid columns, and the fixings, cuts, cliques and infeasibility derived from it exclude no point that satisfies every recorded implication.',
  ['inputs', 'histories'], 'every sequence of recorded implications within the bounds, every bound box and solution, every 0-1 assignment', 'No unit test covers it; soundness is over all implication sets and assignments.',
  ['src/CglCommon/CglTreeInfo.cpp', 'src/CglCommon/CglTreeInfo.hpp'], [('fixes, initializeFixing, convert', 'CglTreeProbingInfo'), ('fixColumns, generateCuts, analyze', 'CglTreeInfo.cpp')])
exec(open(HERE + '/tools/meta_more.py').read()) if os.path.exists(HERE + '/tools/meta_more.py') else None
sys.path.insert(0, HERE)
from scenarios import PROPS
NOTE = 'Bounded: holds for every value of the symbolic inputs on every explored path within the sizes and tables stated per scenario in the evidence file (which also says whether the path space was exhausted); nothing is claimed outside them. Trusts the engine (cross-checked by native replay of sampled paths and of every counterexample), z3, clang -O1 IR, and small executable models of CoinUtils/Osi containers.'
P.sort(key=lambda q: q['id'])
with open(HERE + '/properties.jsonl', 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
na = {x['property'] for x in NA}
checks = [{'property': q['id'], 'quick_cmd': f"python3 check.py {q['id']} --tier quick", 'thorough_cmd': f"python3 check.py {q['id']} --tier thorough", 'evidence_file': f"evidence/{q['id']}.json", 'technique': 'symbolic execution of the LLVM IR of the real sources, assertions decided by z3, counterexamples replayed natively', 'level': PROPS[q['id']]['level'], 'level_note': NOTE} for q in P if q['id'] in PROPS and q['id'] not in na]
miss = [q['id'] for q in P if q['id'] not in PROPS and q['id'] not in na]; assert not miss, miss
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': NA, 'notes': 'No hooks in /repo. See DESIGN.md.'}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(NA), 'not applicable')
