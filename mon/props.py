"""Which module decides which property, with which workload families and how many cases."""
TABLE = {}
META = {}


def prop(pid, module, families, rule, need, **kw):
    TABLE[pid] = module
    META[pid] = dict(families={k: (v[1], v[2]) for k, v in families.items()},
                     funcs={k: v[0] for k, v in families.items()}, rule=rule,
                     need={k: max(1, int(.35 * v)) for k, v in need.items()}, **kw)


# name: (function name in the module, quick cases, thorough cases)
prop('S01', 'p_reach', {'tight': ('s01_case', 1000, 6000), 'approx': ('s01_approx', 300, 2000), 'touch': ('s01_touch', 600, 4000),
                        'models': ('s01_models', 150, 1500)},
     'random hybrid automata with an error guard cut just inside an exactly computed reachable set; non-trivial = '
     'the error is reached by a real execution, distinct by visit structure and settings',
     {'unsafe_automata': 200, 'touching': 200})
prop('S02', 'p_reach', {'tight': ('s02_case', 1000, 6000), 'approx': ('s02_approx', 240, 1500), 'gap': ('s02_gap', 800, 4000),
                        'models': ('s02_models', 150, 1500)},
     'random hybrid automata with an error guard just outside every exactly computed reachable set of its mode',
     {'safe_automata': 200, 'gap_automata': 100, 'gap_reached_by_aggregation': 60})
prop('S04', 'p_reach', {'mix': ('exact_mix', 600, 6000), 'inputs': ('exact_inputs', 225, 2000),
                        'long': ('exact_long', 150, 1200), 'resets': ('exact_resets', 225, 2000),
                        'timed': ('exact_timed', 150, 1500), 'units': ('exact_units', 300, 3000),
                        'wide': ('exact_wide', 40, 800), 'models': ('exact_models', 150, 1500)},
     'random hybrid automata, exploration without aggregation, every computed set compared with the reference set by '
     'support values; distinct by visit structure (mode, start, length, path)', {'sets_compared': 2000, 'successors': 100, 'other_units': 60})
prop('S05', 'p_reach', {'mix': ('s05_mix', 450, 4000), 'resets': ('s05_resets', 225, 2000), 'inits': ('s05_inits', 225, 2000),
                        'models': ('s05_models', 100, 1000), 'whole': ('s05_whole', 60, 800)},
     'random hybrid automata explored with box / Arnoldi / hull aggregation; non-trivial = at least one aggregated set seen',
     {'aggregated_sets_observed': 300})
prop('S06', 'p_reach', {'mix': ('s06_mix', 300, 4000), 'safe': ('s06_safe', 200, 2500), 'deep': ('s06_deep', 100, 1500),
                        'join': ('s06_join', 200, 2500), 'hops': ('s06_hops', 150, 2000),
                        'sets': ('s06_sets', 250, 3500), 'models': ('s06_models', 100, 1000)},
     'random hybrid automata with near-miss / near-hit error guards, aggregation with refinement on',
     {'automata': 150, 'refined': 20, 'replayed_sets': 300, 'several_steps_at_once': 15})
prop('S03', 'p_trace', {'mix': ('s03_mix', 1050, 8000), 'resets': ('s03_resets', 750, 6000), 'inputs': ('s03_inputs', 600, 5000),
                         'wide': ('s03_wide', 60, 1000), 'models': ('s03_models', 150, 1500)},
     'random unsafe automata; every counter-example handed out is executed point-wise by the monitor; distinct by modes, steps and settings',
     {'counterexamples_checked': 300, 'multi_segment': 60, 'with_inputs': 50, 'with_reset_terms': 20, 'ten_or_more': 10},
     technique='trace-conformance monitor for counter-examples')
prop('S13', 'p_trace', {'sims': ('s13_case', 1750, 8000), 'touch': ('s13_touch', 750, 4000), 'models': ('s13_models', 150, 1500)},
     'random automata without inputs, random boxes and numbers of simulations; every recorded point is compared with the point-wise execution',
     {'points_checked': 3000, 'switches': 150, 'touching': 200, 'pictures': 600}, technique='trace-conformance monitor for simulations')
prop('S20', 'p_trace', {'replay': ('s20_replay', 2100, 8000), 'check': ('s20_check', 1200, 5000), 'hist': ('s20_hist', 900, 3000),
                         'chart': ('s20_chart', 300, 1500)},
     'counter-examples of the analysis, altered ones, and random traces with perturbed targets given to the two trace checkers and drawn by them; the monitor knows the true execution',
     {'charts': 100, 'drawn_inputs': 500, 'replayed': 150, 'altered_refused': 150, 'traces_checked': 250, 'analysis_traces': 40},
     technique='differential monitor: trace checkers against an own integrator')
prop('S07', 'p_math', {'orders': ('s07_case', 2700, 12000), 'sets': ('s07_path', 750, 3000), 'models': ('s07_models', 60, 600)},
     'random dynamics (dense, sparse, nilpotent, defective, stiff, zero, affine) and random orders of requested steps; distinct by order and dynamics',
     {'matrices': 3000, 'input_matrices': 1000, 'sets': 400}, technique='numeric oracle monitor over time-elapse matrices')
prop('S16', 'p_math', {'texts': ('s16_case', 7500, 15000), 'malformed': ('s16_unknown', 1500, 3000)},
     'random expression texts; the monitor evaluates text and matrix at the same points',
     {'evaluations': 3000, 'malformed_rejected': 200, 'accepted_nested': 100, 'rejected_wild': 100},
     technique='evaluation oracle over generated texts')
prop('S21', 'p_math', {'arnoldi': ('s21_arnoldi', 3600, 15000), 'reorth': ('s21_reorth', 2400, 10000), 'runs': ('s21_runs', 600, 2500)},
     'random dynamics and points (equilibria, eigenvectors, large and zero), degenerate templates, aggregated sets of analyses',
     {'templates': 1000, 'moving': 500, 'reorthogonalised': 600, 'aggregated_sets': 50}, technique='orthonormality monitor')
prop('S09', 'p_lp', {'ops': ('s09_case', 2800, 9000), 'inputs': ('s09_inputs', 1000, 2500)},
     'random compositions of set constructors and operations in 1-4 dimensions, flat and single-point operands included; distinct by sequence of operations',
     {'operations': 1500, 'support_values': 15000, 'queries': 60, 'op_chull': 100, 'op_msum': 100, 'op_reset': 150, 'op_agg': 100, 'input_sets': 200},
     technique='differential monitor: set operations against explicit reference sets')
prop('S10', 'p_lp', {'hist': ('s10_case', 3600, 12000), 'faults': ('s10_faults', 1000, 3000)},
     'random histories of changes, solves, clones, refused writes and failing solves on a pool of linear programs; distinct by history',
     {'operations': 5000, 'optima': 800, 'solved_none': 60, 'solved_unsat': 20, 'solved_error': 50, 'read_backs': 1500, 'feasibility': 100, 'faults': 150},
     technique='model-based monitor over operation histories')
prop('S11', 'p_lp', {'runs': ('s11_runs', 1050, 4000), 'inputs': ('s11_inputs', 750, 3000), 'small': ('s11_small', 750, 3000), 'direct': ('s11_direct', 1200, 5000)},
     'every continuous step of random analyses with one to three invariant conditions (cutting, redundant, emptying), and direct sequences of added and replaced conditions',
     {'steps_checked': 2000, 'small_steps_checked': 700, 'cut': 700, 'emptied': 60, 'replaced': 100, 'kept': 100, 'added': 300},
     technique='step-wise monitor of trimming against HiGHS')
prop('S17', 'p_native', {'runs': ('s17_runs', 420, 4000), 'faults': ('s17_faults', 360, 4000), 'hist': ('s17_hist', 240, 3000),
                          'ops': ('s17_ops', 180, 2000), 'trim': ('s17_trim', 120, 1500)},
     'every native call of analyses, LP histories and set operations is checked against the protocol of the library; failing solves and exceptions are injected',
     {'native_calls': 300000, 'programs': 10000, 'faults': 150, 'glp_set_mat_row': 20000, 'glp_set_mat_col': 300, 'glp_copy_prob': 1000},
     technique='protocol monitor on the native interface with fault injection; glibc malloc checking')
prop('S08', 'p_approx', {'chull': ('s08_chull', 250, 3000), 'lgg': ('s08_lgg', 250, 3000), 'single': ('s08_single', 250, 3000),
                          'refine': ('s08_refine', 250, 3000), 'chain': ('s08_chain', 150, 2000)},
     'random automata under both approximation models, points and constant inputs included, aggregation and refinement on and off; '
     'every computed set is compared with the states reached between the steps under inputs changing within the step',
     {'sets_compared': 5000, 'between_steps': 1000, 'path_sets': 2000, 'path_successors': 300},
     technique='dense-time reference monitor over computed sets')
prop('S12', 'p_plot', {'verts': ('s12_verts', 2700, 10000), 'boundary': ('s12_boundary', 1200, 5000), 'kamenev': ('s12_kamenev', 1200, 5000),
                        'points': ('s12_points', 600, 2000)},
     'random sets (boxes, polytopes, zonotopes, mapped onto flat sets, with inputs) and axis choices (indices, directions, parallel '
     'directions, time points and intervals); polygons compared with exact projections in 44 plot directions',
     {'polygons': 2000, 'time_axis': 300, 'direction_axis': 800, 'points_or_segments': 200, 'vertices': 5000, 'boundaries': 300},
     technique='projection oracle monitor')
prop('S22', 'p_plot', {'exact': ('s22_exact', 200, 3000), 'agg': ('s22_agg', 100, 1500), 'refine': ('s22_refine', 150, 2000), 'modes': ('s22_modes', 30, 300),
                        'image': ('s22_image', 150, 2000), 'live': ('s22_live', 100, 1200)},
     'random automata with one to three plots, axes per mode, stored results, drawn or not, with aggregation and refinement; every '
     'stored polygon is matched against the reference sets',
     {'entries': 5000, 'polygons_matched': 4000, 'several_plots': 60, 'refined_runs': 20, 'lookups': 20, 'pictures': 60, 'videos': 10, 'drawn_polygons': 500, 'drawn_markers': 30, 'windows': 40, 'frames': 1500, 'buttons_pressed': 300, 'clicks': 50},
     technique='coverage monitor over stored plot data and drawn figures', case_limit=120.)
prop('S18', 'p_sys', {'mix': ('s18_mix', 450, 4000), 'loops': ('s18_loops', 300, 3000), 'refine': ('s18_refine', 375, 3000), 'join': ('s18_join', 300, 3000)},
     'random automata with loops, several initial sets, joining paths, aggregation and refinement; every successor is followed from its '
     'creation to the set that explores it',
     {'successors': 4000, 'explored_sets': 3000, 'aggregated': 300, 'complete_runs': 400, 'refined_runs': 100, 'guards_hit': 1000, 'replayed_guards': 300, 'replaced_sets': 200},
     technique='online conservation monitor over the waiting list and the aggregation dag')
prop('S14', 'p_sys', {'toggle': ('s14_toggle', 700, 4000), 'chain': ('s14_chain', 600, 4000), 'away': ('s14_away', 120, 400), 'width': ('s14_width', 240, 1500),
                        'verdict': ('s14_verdict', 200, 1500), 'arrays': ('s14_arrays', 300, 1500)},
     'pairs of runs with an option on and off; chains of clock-triggered modes on and off the step grid compared with their schedule; '
     'states moving away from clock-like guards; all arrays handed in compared before and after',
     {'toggled': 150, 'chains': 200, 'tt_taken': 400, 'away': 30, 'wide_clocks': 60, 'verdicts': 150, 'arrays': 500, 'sets_compared': 2000}, case_limit=120.,
     technique='differential monitor over option settings plus schedule monitor')
prop('S15', 'p_sys', {'reruns': ('s15_case', 250, 3000), 'process': ('s15_process', 24, 200)},
     'random analyses repeated in the same process: after other, aborted and failing analyses, with objects reused, other verbosity, '
     'plotting, taking turns with another analysis, and alone in a new process; every explored set and the verdict compared',
     {'reruns': 800, 'sets': 4000, 'reused_automaton': 150, 'reused_initial_sets': 120, 'taking_turns': 40, 'arnoldi_null_space': 8, 'after_other_settings': 50, 'clocks': 12, 'other_output': 60, 'drawn': 10, 'new_processes': 12},
     technique='differential monitor over run histories')
prop('S19', 'p_bad', {'corrupt': ('s19_corrupt', 2000, 5000), 'forms': ('s19_forms', 400, 1000)},
     'random valid automata with one corruption each (dimensions, missing parts, empty sets, attribute names, types, bounds), and the same automata '
     'in every accepted form', {'refused': 1500, 'accepted_forms': 200, 'at_definition': 1000, 'at_start': 50},
     technique='rejection monitor over single-point corruptions')
