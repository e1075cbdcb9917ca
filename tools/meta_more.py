p('C06', 'Zero-half cuts are valid and violated', 'Every cut the zero-half generator returns is satisfied by every integer-feasible point of the problem it was refreshed with and by the current column bounds, has integer coefficients and right-hand side, and is violated by the current relaxation solution; cuts derived at a node of a search tree are not marked globally valid unless asked for and valid there, and a copy, clone or assigned generator returns the same cuts as the original.',
  ['inputs', 'configurations', 'histories'], 'every set of integer rows (any sense, ranges, stored zeros, common divisors, odd and even entries), every bound box of integer columns, every relaxation point, every flag setting, refreshes and copies within the bounds', T + 'validity is over all rows, bounds, relaxation points and feasible points.',
  ['src/CglZeroHalf/CglZeroHalf.cpp', 'src/CglZeroHalf/Cgl012cut.cpp', 'src/CglZeroHalf/Cgl012cut.hpp', 'src/CglZeroHalf/CglZeroHalf.hpp'], [('refreshSolver and copies', 'CglZeroHalf.cpp'), ('parity matrix, odd cycles, weakening, cut construction', 'Cgl012cut::sep_012_cut and helpers')])
p('C18', 'Shortest paths of the separation graph are shortest', 'The shortest path routine the zero-half separation relies on returns for every node the true shortest distance from the start node (up to the given length limit) and a predecessor on such a path.',
  ['inputs'], 'every directed graph with non-negative lengths within the bounds, every start node and length limit', 'There is no unit test of the routine; exactness is over all graphs.',
  ['src/CglZeroHalf/Cgl012cut.cpp', 'src/CglZeroHalf/Cgl012cut.hpp'], [('heap handling and relaxation', 'cglShortestPath')], ['cglShortestPath result array'])
p('C10', 'Reduce-and-split cuts are valid', 'Every cut the reduce-and-split generator derives from an optimal basis is satisfied by every point that satisfies the rows, bounds and integrality requirements (integer columns having integral bounds), up to the stated relaxation; this holds for both cut formulas, every nonbasic status, row sense and selection of tableau rows, the support and fractionality limits are respected, and memory outside the problem is never read.',
  ['inputs', 'configurations'], 'every basis, nonbasic status, row sense (with ranges and equalities), coefficient and bound within the bounds, every parameter setting, every feasible point', T + 'validity is over all bases and feasible points.',
  ['src/CglRedSplit/CglRedSplit.cpp', 'src/CglRedSplit/CglRedSplit.hpp'], [('selection of rows and columns of the tableau', 'CglRedSplit::generateCuts(OsiCuts&)'), ('reduction, cut formulas, shifting back, slack elimination, scaling', 'reduce_contNonBasicTab, generate_cgcut, generate_cgcut_2, unflip, eliminate_slacks, generate_packed_row')])
p('C14', 'Parameters hold what was set', 'A cut generator parameter takes every value of its documented range and ignores values outside it, setting one parameter changes no other, the matching getter returns it (under every alias), constructors store each argument in its parameter, and copies, clones and assigned objects have equal but independent parameters.',
  ['inputs', 'histories'], 'every parameter of the parameter classes (base, reduce-and-split 1 and 2, Gomory mixed integer) and of the generators themselves, every value within the bounds, every pair of settings and copies', 'No unit test touches most parameters; the guarantee is over all values and combinations.',
  ['src/CglCommon/CglParam.cpp', 'src/CglRedSplit/CglRedSplitParam.cpp', 'src/CglRedSplit2/CglRedSplit2Param.cpp', 'src/CglGMI/CglGMIParam.cpp'], [('range checks of setters', 'set* methods'), ('constructors, copies, assignment', 'parameter classes')], ['get* methods'])
p('C09', 'Lift-and-project cuts are valid', 'Every cut the lift-and-project generator returns for a problem in its documented form (every row >=, column bounds present as rows) is satisfied by every mixed 0-1 feasible point, whatever feasible solution the LP solver reports for the cut-generating problem and however the matrix is stored; the disjunction is always on a 0-1 column, no cut comes from a cut-generating problem that was not solved to optimality, and all memory taken is released.',
  ['inputs', 'fault schedules', 'configurations'], 'every small problem in that form, every relaxation point, both normalizations, every feasible (not only optimal) answer and every failure of the LP solver, every feasible point', T + 'validity is over all problems, all answers of the LP solver and all feasible points.',
  ['src/CglLiftAndProject/CglLiftAndProject.cpp', 'src/CglLiftAndProject/CglLiftAndProject.hpp'], [('construction of the cone problem', 'CglLiftAndProject::generateCuts'), ('choice of the disjunction, cut from the multipliers, strengthening', 'CglLiftAndProject::generateCuts')])
p('C01', 'Knapsack cover cuts are valid and violated', 'Every row cut the knapsack cover generator returns is satisfied by every feasible point of the problem and violated by the current relaxation solution, and infeasibility is only reported when there is no feasible point; this holds for rows of any sense with any signs, stored zeros, continuous, general integer and fixed columns, variable bounds taken from other rows, relaxation solutions that meet the rows only within LP tolerance, every row list and size limit, and copies behave like the original; fixings made by its clique search are implied by the rows, and all memory taken is released.',
  ['inputs', 'configurations', 'histories'], 'every row set and column kind within the bounds, every relaxation point that satisfies the rows, every setting of the generator and of the tree information, every feasible point', T + 'validity is over all rows, covers, liftings and feasible points.',
  ['src/CglKnapsackCover/CglKnapsackCover.cpp', 'src/CglKnapsackCover/CglKnapsackCover.hpp'], [('deriving a canonical knapsack, complementing, variable bounds', 'generateCuts, deriveAKnapsack'), ('covers', 'findGreedyCover, findPseudoJohnAndEllisCover, findJohnAndEllisCover, findExactMostViolatedMinCover, findLPMostViolatedMinCover'), ('lifting and uncomplementing', 'liftCoverCut, liftUpDownAndUncomplementAndAdd, exactSolveKnapsack'), ('clique search', 'createCliques')])
p('C08', 'Duplicate rows are removed soundly', 'Rows that the duplicate row generator (mode 8, on the problem it was refreshed with) marks as duplicate or dominated, or that outDuplicates deletes, are implied by the remaining rows together with the fixings it makes; every column it fixes is fixed in every integer-feasible point, infeasibility is reported only when there is no feasible point, exactly the marked rows are deleted, and nothing is done inside the tree or in the modes that are switched off.',
  ['inputs', 'configurations'], 'every set of clique rows within the bounds (any order, equalities and inequalities, equal sets, subsets, overlaps), other rows and columns mixed in, every 0-1 point', 'There is no unit test of this generator; soundness is over all row sets and all points.',
  ['src/CglDuplicateRow/CglDuplicateRow.cpp', 'src/CglDuplicateRow/CglDuplicateRow.hpp'], [('recognising clique rows', 'CglDuplicateRow::generateCuts8'), ('duplicates, subsets, fixing', 'outDupsEtc'), ('deleting rows', 'CglDuplicateRow::outDuplicates')])
p('C13', 'Generators can be configured, copied and released', 'For every cut generator that is built, a new object has the documented defaults, a setting is what was set last, values outside the documented range are refused; a copy, clone or assigned object (also assigned over a differently configured one, or to itself) has the same settings and generates the same cuts as the original, changing one never changes the other, generating does not change settings, and destroying the objects releases all memory.',
  ['inputs', 'histories'], 'every setting within the bounds of the fourteen generators (three of them compiled with a shim), every way of copying, changes to either object afterwards, every tree information', 'Unit tests copy default objects and never compare what copies generate.',
  ['src/CglCommon/CglCutGenerator.cpp', 'src/CglCommon/CglCutGenerator.hpp', 'src/CglZeroHalf/CglZeroHalf.cpp', 'src/CglOddHole/CglOddHole.cpp', 'src/CglClique/CglClique.cpp', 'src/CglRedSplit/CglRedSplit.cpp', 'src/CglKnapsackCover/CglKnapsackCover.cpp', 'src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', 'src/CglDuplicateRow/CglDuplicateRow.cpp', 'src/CglAllDifferent/CglAllDifferent.cpp', 'src/CglCommon/CglStored.cpp', 'src/CglLiftAndProject/CglLiftAndProject.cpp', 'src/CglSimpleRounding/CglSimpleRounding.cpp'], [('copy constructors, clone, operator=', 'every generator class'), ('common settings', 'CglCutGenerator')])
p('C15', 'Generating cuts only adds cuts', 'A call of generateCuts leaves the problem in the solver (bounds, rows, matrix, solution, integrality) and the settings of the generator as they were, keeps every cut already in the collection unchanged and in place, and gives the same new cuts when called again on the same problem, releasing all the memory it took for the call.',
  ['inputs', 'histories'], 'thirteen generators, every setting, collection and tree information within the bounds, repeated calls', 'Unit tests start from an empty collection, call once and do not look at the problem afterwards.',
  ['src/CglSimpleRounding/CglSimpleRounding.cpp', 'src/CglOddHole/CglOddHole.cpp', 'src/CglClique/CglClique.cpp', 'src/CglAllDifferent/CglAllDifferent.cpp', 'src/CglCommon/CglStored.cpp', 'src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', 'src/CglZeroHalf/CglZeroHalf.cpp', 'src/CglRedSplit/CglRedSplit.cpp', 'src/CglKnapsackCover/CglKnapsackCover.cpp', 'src/CglDuplicateRow/CglDuplicateRow.cpp'], [('generateCuts', 'every generator class')])
p('C19', 'Generated code reproduces the settings', 'The C++ code that a cut generator writes (generateCpp) includes its header, declares an object of its class under the returned name, and sets every setting that differs from the default to its current value; lines marked as redundant are only those for defaults.',
  ['inputs', 'configurations'], 'every setting within the bounds of the eleven generators that write code', 'No unit test compares the code written for changed settings.',
  ['src/CglSimpleRounding/CglSimpleRounding.cpp', 'src/CglClique/CglClique.cpp', 'src/CglAllDifferent/CglAllDifferent.cpp', 'src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', 'src/CglZeroHalf/CglZeroHalf.cpp', 'src/CglRedSplit/CglRedSplit.cpp', 'src/CglKnapsackCover/CglKnapsackCover.cpp', 'src/CglDuplicateRow/CglDuplicateRow.cpp', 'src/CglLiftAndProject/CglLiftAndProject.cpp'], [('generateCpp', 'every generator class')])
p('C20', 'Residual capacity cuts are valid and violated', 'Every cut the residual capacity generator returns is satisfied by every feasible point of the problem and is violated by the current relaxation solution; this holds for every row sense, every common integer coefficient, general and infinite upper bounds of the continuous columns, the preprocessing setting, repeated calls and copies.',
  ['inputs', 'configurations', 'histories'], 'every set of rows within the bounds (residual capacity rows and rows that only look like them), every relaxation point, every feasible point', 'The generator has no unit test; validity is over all rows, relaxation points and feasible points.',
  ['src/CglResidualCapacity/CglResidualCapacity.cpp', 'src/CglResidualCapacity/CglResidualCapacity.hpp'], [('recognising residual capacity rows', 'resCapPreprocess, determineRowType, treatAsLessThan'), ('separation and the cut', 'resCapSeparation')])
p('C21', 'Sparse mixed integer rounding cuts are valid and violated', 'Every cut the second (sparse) mixed integer rounding generator returns is satisfied by every feasible point of the problem and is violated by the current relaxation solution; this holds for every aggregation limit, criterion, multiplication and preprocessing setting, and also after the problem was changed and the generator refreshed.',
  ['inputs', 'configurations', 'histories'], 'every mixed-integer problem within the bounds, every relaxation point inside the column bounds, every parameter setting, first and later calls', 'The sources of this build do not compile its test; validity must hold for all feasible points and all relaxation solutions.',
  ['src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp', 'src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp'], [('row classification and variable upper/lower bounds', 'mixIntRoundPreprocess, determineRowType'), ('aggregateRow, boundSubstitution, cMirSeparation, cMirInequality', 'CglMixedIntegerRounding2.cpp')])
p('C22', 'Flow cover cuts are valid and violated', 'Every cut the flow cover generator returns is satisfied by every feasible point of the problem and is violated by the current relaxation solution; no more cuts are returned than configured, cuts are marked globally valid only at the root and when asked for, and copies or assigned generators generate the same cuts and own their memory.',
  ['inputs', 'configurations', 'histories'], 'every single node flow row within the bounds (either direction, inflows and outflows, variable or constant upper bounds written either way round, binaries in the row), every relaxation point, every feasible point, copies, limits and repeated calls', 'The sources of this build do not compile its test; validity is over all flow rows, covers, liftings and feasible points.',
  ['src/CglFlowCover/CglFlowCover.cpp', 'src/CglFlowCover/CglFlowCover.hpp'], [('variable bounds and row types', 'flowPreprocess, determineOneRowType'), ('cover selection, lifting, cut', 'generateOneFlowCut, liftPlus, liftMinus')])
p('C16', 'Generators carry nothing over between problems', 'A cut generator that has been used on one problem (of the same or another size, in the tree or not, once or more often) and is then pointed at another one by refreshSolver gives exactly the cuts, row marks and memory use that an equally configured generator gives which never saw the first problem.',
  ['inputs', 'histories'], 'thirteen generators, every setting, every small problem within the bounds, four other problems before it, every tree information', 'Unit tests make a new generator for every problem; the guarantee is over all settings and pairs of problems.',
  ['src/CglSimpleRounding/CglSimpleRounding.cpp', 'src/CglOddHole/CglOddHole.cpp', 'src/CglClique/CglClique.cpp', 'src/CglAllDifferent/CglAllDifferent.cpp', 'src/CglCommon/CglStored.cpp', 'src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', 'src/CglZeroHalf/CglZeroHalf.cpp', 'src/CglZeroHalf/Cgl012cut.cpp', 'src/CglRedSplit/CglRedSplit.cpp', 'src/CglKnapsackCover/CglKnapsackCover.cpp', 'src/CglDuplicateRow/CglDuplicateRow.cpp'], [('state kept between calls', 'generateCuts and refreshSolver of every generator class'), ('preprocessing done once', 'CglMixedIntegerRounding::generateCuts, CglZeroHalf::refreshSolver, CglDuplicateRow::refreshSolver')])
W = 'The current Osi/CoinUtils headers installed here do not compile it and no unit test of it runs; '
p('C23', 'Probing keeps every feasible point', 'Bounds tightened, implications recorded, row and column cuts made and infeasibility reported by the probing generator never exclude an integer-feasible point of the problem.',
  ['inputs', 'configurations'], 'every problem, every probing option, every look ahead limit and tree information', W + 'soundness is over all problems and feasible points.',
  ['src/CglProbing/CglProbing.cpp', 'src/CglProbing/CglProbing.hpp'], [('probe, probeSlacks, tighten, gutsOfGenerateCuts', 'CglProbing.cpp')],
  na='src/CglProbing does not compile against the installed CoinUtils/Osi (CliqueInfo types, conflict graph and Clp interfaces that these versions lack), so there is no code to execute symbolically; shims would have to invent the missing classes')
p('C24', 'Cuts from the conflict graph keep every feasible point', 'Cuts of the Bron-Kerbosch clique generator and the odd wheel generator, and the strengthened cliques, are satisfied by every integer-feasible point of the problem.',
  ['inputs', 'configurations'], 'every conflict graph, relaxation point and extension method', W + 'validity is over all conflict graphs.',
  ['src/CglBKClique/CglBKClique.cpp', 'src/CglOddWheel/CglOddWheel.cpp', 'src/CglCliqueStrengthening/CglCliqueStrengthening.cpp'], [('separation and extension of cliques and odd holes', 'generateCuts')],
  na='needs CoinConflictGraph, CoinStaticConflictGraph, CoinBronKerbosch and CoinOddWheelSeparator, of which neither headers nor library are installed; the deciding code is in those classes')
p('C25', 'Preprocessing keeps an optimal solution', 'A problem made by the preprocessor has an optimal solution with the same objective value as the original one, and post-processing turns it into a feasible optimal solution of the original problem.',
  ['inputs', 'histories'], 'every problem, option and sequence of presolve passes', W + 'equivalence is over all problems and solutions.',
  ['src/CglPreProcess/CglPreProcess.cpp'], [('preProcessNonDefault, modified, tightenPrimalBounds, postProcess', 'CglPreProcess.cpp')],
  na='does not compile against the installed headers, and it is built around full solves (OsiPresolve, Clp dual simplex, heuristics), whose floating-point pivoting is out of reach of a symbolic execution')
p('C28', 'Lift-and-project by simplex pivots gives valid cuts', 'Cuts of the lift-and-project generator that pivots in the simplex tableau are satisfied by every integer-feasible point, and the solver passed in is unchanged.',
  ['inputs', 'configurations'], 'every problem, basis, pivot rule and limit', W + 'validity is over all tableaus and feasible points.',
  ['src/CglLandP/CglLandP.cpp', 'src/CglLandP/CglLandPSimplex.cpp', 'src/CglLandP/CglLandPValidator.cpp'], [('optimize, createIntersectionCut, changeBasis', 'CglLandPSimplex.cpp')],
  na='works on the tableau and the factorization inside a solver (OsiClp pivoting interface); pivots divide symbolic values by symbolic values, and the solver is a library without source here, so the deciding part cannot be encoded')
