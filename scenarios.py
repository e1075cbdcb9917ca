PROPS = {}
def sc(name, harness, src, bounds, n, **k):
    d = {'name': name, 'harness': harness, 'src': src, 'bounds': bounds, 'defs': [f'-DSC={n}'] + k.pop('defs', [])}; d.update(k); return d
def prop(pid, scs, level='model_checking', assumptions=()):
    PROPS[pid] = {'level': level, 'scenarios': scs, 'assumptions': list(assumptions)}
SR = ['CglSimpleRounding', 'CglCommon']
prop('C02', [
  sc('sr_row', 'simpleround.cpp', SR, '', 1, time=60, reach=['cut generated']),
  sc('sr_rows', 'simpleround.cpp', SR, '', 2, time=60, reach=['cut generated', 'two cuts']),
  sc('sr_dec', 'simpleround.cpp', SR, '', 3, time=40, reach=['cut generated']),
  sc('sr_skip', 'simpleround.cpp', SR, '', 5, time=40, reach=['cut generated', 'two cuts']),
  sc('sr_mag', 'simpleround.cpp', SR, '', 4, time=40, reach=['cut generated']),
])
OH = ['CglOddHole', 'CglCommon']
prop('C05', [
  sc('oh_tri', 'oddhole.cpp', OH, '', 1, time=40, reach=['packing cut', 'covering cut']),
  sc('oh_val', 'oddhole.cpp', OH, '', 5, time=40, reach=['packing cut', 'covering cut']),
  sc('oh_five', 'oddhole.cpp', OH, '', 2, time=40, reach=['packing cut', 'covering cut']),
  sc('oh_row', 'oddhole.cpp', OH, '', 3, time=40),
  sc('oh_lim', 'oddhole.cpp', OH, '', 4, time=40, reach=['packing cut', 'covering cut']),
])
CL = ['CglClique', 'CglCommon']
prop('C04', [
  sc('cl_tri', 'clique.cpp', CL, '', 1, time=40, reach=['cut generated']),
  sc('cl_graph', 'clique.cpp', CL, '', 2, time=40, reach=['cut generated', 'clique of four']),
  sc('cl_list', 'clique.cpp', CL, '', 3, time=40, reach=['cut generated']),
  sc('cl_star', 'clique.cpp', CL, '', 5, time=60, reach=['cut generated', 'clique of four']),
  sc('cl_empty', 'clique.cpp', CL, '', 4, time=40, reach=['cut generated']),
])
AD = ['CglAllDifferent', 'CglCommon']
prop('C07', [
  sc('ad_one', 'alldiff.cpp', AD, '', 1, time=40, reach=['infeasible', 'tightened']),
  sc('ad_two', 'alldiff.cpp', AD, '', 2, time=40, reach=['infeasible', 'tightened']),
  sc('ad_none', 'alldiff.cpp', AD, '', 3, time=40, reach=['empty']),
  sc('ad_wide', 'alldiff.cpp', AD, '', 5, time=40, reach=['tightened']),
  sc('ad_three', 'alldiff.cpp', AD, '', 4, time=40, reach=['infeasible', 'tightened']),
])
ST = ['CglCommon']
prop('C11', [
  sc('st_cuts', 'stored.cpp', ST, '', 1, time=40, reach=['violated', 'not violated']),
  sc('st_imp', 'stored.cpp', ST, '', 2, time=40, reach=['cut generated']),
  sc('st_save', 'stored.cpp', ST, '', 3, time=20, reach=['solution']),
  sc('st_file', 'stored.cpp', ST, '', 5, time=20, reach=['read', 'truncated']),
  sc('st_many', 'stored.cpp', ST, '', 4, time=20, reach=['many']),
])
prop('C12', [
  sc('im_store', 'implic.cpp', ST, '', 1, time=40, reach=['stored']),
  sc('im_fix', 'implic.cpp', ST, '', 2, time=40, reach=['fixed', 'infeasible']),
  sc('im_cuts', 'implic.cpp', ST, '', 3, time=40, reach=['fixed', 'infeasible', 'cut generated']),
  sc('im_clq', 'implic.cpp', ST, '', 4, time=40, reach=['model', 'strengthened']),
  sc('im_ext', 'implic.cpp', ST, '', 5, time=30, reach=['model', 'long']),
  sc('im_many', 'implic.cpp', ST, '', 6, time=20, reach=['many']),
])
MI = ['CglMixedIntegerRounding', 'CglCommon']
prop('C03', [
  sc('mir_row', 'mir.cpp', MI, '', 1, time=40, reach=['cut generated']),
  sc('mir_vb', 'mir.cpp', MI, '', 2, time=70, reach=['cut generated']),
  sc('mir_agg', 'mir.cpp', MI, '', 3, time=100, reach=['cut generated']),
  sc('mir_int', 'mir.cpp', MI, '', 4, time=40, reach=['cut generated']),
  sc('mir_re', 'mir.cpp', MI, '', 5, time=40, reach=['cut generated']),
  sc('mir_sym', 'mir.cpp', MI, '', 6, time=40, reach=['cut generated']),
  sc('mir_crit', 'mir.cpp', MI, '', 7, time=40, reach=['cut generated']),
])
ZH = ['CglZeroHalf', 'CglCommon']
prop('C06', [
  sc('zh_tri', 'zerohalf.cpp', ZH, '', 1, time=40, reach=['cut generated']),
  sc('zh_weak', 'zerohalf.cpp', ZH, '', 7, time=40, reach=['cut generated']),
  sc('zh_gcd', 'zerohalf.cpp', ZH, '', 2, time=40, reach=['cut generated']),
  sc('zh_frac', 'zerohalf.cpp', ZH, '', 8, time=30, reach=['cut generated']),
  sc('zh_five', 'zerohalf.cpp', ZH, '', 3, time=40, reach=['cut generated']),
  sc('zh_node', 'zerohalf.cpp', ZH, '', 4, time=40, reach=['cut generated']),
  sc('zh_copy', 'zerohalf.cpp', ZH, '', 5, time=40, reach=['cut generated']),
])
prop('C18', [
  sc('zh_path', 'zerohalf.cpp', ZH, '', 6, time=60, reach=['reached']),
])
RS = ['CglRedSplit', 'CglCommon']
prop('C10', [
  sc('rs_row', 'redsplit.cpp', RS, '', 1, time=40, reach=['cut generated']),
  sc('rs_two', 'redsplit.cpp', RS, '', 2, time=40, reach=['cut generated']),
  sc('rs_tab', 'redsplit.cpp', RS, '', 3, time=40, reach=['cut generated']),
  sc('rs_wide', 'redsplit.cpp', RS, '', 5, time=60, reach=['cut generated']),
  sc('rs_eps', 'redsplit.cpp', RS, '', 6, time=30, reach=['cut generated', 'dropped']),
  sc('rs_lim', 'redsplit.cpp', RS, '', 4, time=40, reach=['cut generated']),
])
PA = ['CglRedSplit/CglRedSplitParam.cpp', 'CglGMI/CglGMIParam.cpp', 'CglRedSplit2/CglRedSplit2Param.cpp', 'CglCommon/CglParam.cpp']
prop('C14', [
  sc('pa_base', 'params.cpp', PA, '', 1, time=30, reach=['accepted', 'ignored', 'copied', 'constructed']),
  sc('pa_rs', 'params.cpp', PA, '', 2, time=40, reach=['accepted', 'ignored', 'copied', 'constructed']),
  sc('pa_gmi', 'params.cpp', PA, '', 3, time=40, reach=['accepted', 'ignored', 'copied', 'constructed']),
  sc('pa_rs2', 'params.cpp', PA, '', 4, time=60, reach=['accepted', 'ignored', 'copied', 'constructed']),
])
LP = ['CglLiftAndProject', 'CglCommon']
prop('C09', [
  sc('lp_two', 'liftproj.cpp', LP, '', 1, time=40, reach=['cut generated', 'two cuts', 'warm start', 'feasible']),
  sc('lp_three', 'liftproj.cpp', LP, '', 2, time=40, reach=['cut generated', 'feasible']),
  sc('lp_mem', 'liftproj.cpp', LP, '', 3, time=20, reach=['released']),
])
KC = ['CglKnapsackCover', 'CglCommon']
prop('C01', [
  sc('kc_row', 'knapsack.cpp', KC, '', 1, time=40, reach=['cut generated']),
  sc('kc_kind', 'knapsack.cpp', KC, '', 2, time=40, reach=['cut generated']),
  sc('kc_vub', 'knapsack.cpp', KC, '', 3, time=40, reach=['cut generated']),
  sc('kc_lift', 'knapsack.cpp', KC, '', 4, time=40, reach=['cut generated', 'lifted']),
  sc('kc_tol', 'knapsack.cpp', KC, '', 5, time=40, reach=['cut generated']),
  sc('kc_list', 'knapsack.cpp', KC, '', 6, time=40, reach=['cut generated']),
  sc('kc_clq', 'knapsack.cpp', KC, '', 7, time=40, reach=['clique', 'infeasible', 'fixed']),
  sc('kc_vfix', 'knapsack.cpp', KC, '', 9, time=60, reach=['cut generated']),
  sc('kc_two', 'knapsack.cpp', KC, '', 10, time=40, reach=['cut generated']),
  sc('kc_long', 'knapsack.cpp', KC, '', 8, time=40, reach=['cut generated']),
])
CLEAN = ['-DinsertIfNotDuplicateAndClean(c,...)=insertIfNotDuplicate(c)']  # the installed Osi has no such method
GENS = [(1, 'sr', SR), (2, 'oh', OH), (3, 'cl', CL), (4, 'ad', AD), (5, 'st', ST), (6, 'mir', MI), (7, 'zh', ZH), (8, 'rs', RS), (9, 'kc', KC), (10, 'dr', ['CglDuplicateRow', 'CglCommon']), (11, 'lp', LP), (12, 'rc', ['CglResidualCapacity', 'CglCommon']), (13, 'm2', ['CglMixedIntegerRounding2', 'CglCommon']), (14, 'fc', ['CglFlowCover', 'CglCommon'])]
def each(pre, n, reach, skip): return [sc(f'{pre}_{nm}', 'common.cpp', src, '', n, time=10 if g in (12, 14) else 25 if g == 13 else 20, reach=reach(g), defs=[f'-DGEN={g}'], srcdefs=CLEAN if g > 11 else []) for g, nm, src in GENS if g not in skip]
prop('C13', each('cp', 1, lambda g: ['released'] + (['cuts'] if g not in (10, 11) else []), ()))
prop('C15', each('ef', 2, lambda g: ['cuts'] if g != 10 else [], (11,)))
prop('C19', each('cpp', 3, lambda g: ['written'], (2, 5, 12)))
prop('C16', each('hi', 4, lambda g: ['cuts', 'cuts before'] if g != 10 else [], (11,)))
DR = ['CglDuplicateRow', 'CglCommon']
prop('C08', [
  sc('dr_sets', 'duprow.cpp', DR, '', 1, time=60, reach=['dropped', 'fixed']),
  sc('dr_long', 'duprow.cpp', DR, '', 2, time=40, reach=['dropped', 'fixed']),
  sc('dr_kind', 'duprow.cpp', DR, '', 3, time=70, reach=['dropped', 'fixed', 'infeasible']),
  sc('dr_out', 'duprow.cpp', DR, '', 4, time=40, reach=['deleted', 'fixed']),
])
RC = ['CglResidualCapacity', 'CglCommon']
prop('C20', [
  sc('rc_row', 'residcap.cpp', RC, '', 1, time=60, srcdefs=CLEAN, reach=['cut generated']),
  sc('rc_rows', 'residcap.cpp', RC, '', 2, time=40, srcdefs=CLEAN, reach=['cut generated', 'two cuts']),
  sc('rc_hist', 'residcap.cpp', RC, '', 3, time=40, srcdefs=CLEAN, reach=['cut generated']),
], assumptions=['insertIfNotDuplicateAndClean, missing in the installed Osi, is taken as insertIfNotDuplicate'])
M2 = ['CglMixedIntegerRounding2', 'CglCommon']
prop('C21', [sc('mir2_' + n, 'mir.cpp', M2, '', k, time=80, srcdefs=CLEAN, defs=['-DMIR2'], reach=['cut generated']) for k, n in enumerate(['row', 'vb', 'agg', 'int', 're', 'sym', 'crit'], 1)],
     assumptions=['insertIfNotDuplicateAndClean, missing in the installed Osi, is taken as insertIfNotDuplicate'])
FC = ['CglFlowCover', 'CglCommon']
prop('C22', [
  sc('fc_node', 'flowcover.cpp', FC, '', 1, time=60, srcdefs=CLEAN, reach=['cut generated']),
  sc('fc_bin', 'flowcover.cpp', FC, '', 2, time=60, srcdefs=CLEAN, reach=['cut generated']),
  sc('fc_lift', 'flowcover.cpp', FC, '', 3, time=60, srcdefs=CLEAN, reach=['cut generated']),
  sc('fc_hist', 'flowcover.cpp', FC, '', 4, time=40, srcdefs=CLEAN, reach=['cut generated']),
], assumptions=['insertIfNotDuplicateAndClean, missing in the installed Osi, is taken as insertIfNotDuplicate'])
import bounds
bounds.fill(PROPS)
