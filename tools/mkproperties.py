#!/opt/venv/bin/python
"""writes ../properties.jsonl (the text of the properties lives here, one place)"""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe)}})


p('S01', 'A reachable error is never missed',
  'If some execution of the automaton, sampled at the analysis step and inside the time bound, enters an error mode, the '
  'result reports an error (aggregated or concrete). This holds for every aggregation strategy, refinement order, waiting-list '
  'order, preprocessing option, reporting option and approximation model.',
  ['programs', 'inputs', 'configurations'],
  'all affine hybrid automata with bounded inputs, all initial sets, all settings combinations',
  'The tests run a few dozen fixed automata, nearly all with one settings combination; a lost successor or an over-tight set '
  'only shows on automata whose error set is just barely touched.',
  ['hylaa/core.py', 'hylaa/aggdag.py', 'hylaa/aggstrat.py', 'hylaa/stateset.py', 'hylaa/lputil.py', 'hylaa/hybrid_automaton.py'],
  [('main loop: trim, advance, guards', 'hylaa/core.py do_step_continuous_post / check_guards'),
   ('successors of a transition', 'hylaa/aggdag.py add_transition_successor / pop_waiting_list'),
   ('guard preprocessing', 'hylaa/hybrid_automaton.py do_guard_strengthening / detect_tt_transitions')],
  [('waiting list', 'successor sets still to be explored', 'hylaa/aggdag.py AggDag.waiting_list'),
   ('verdict', 'aggregated / concrete error flags', 'hylaa/result.py HylaaResult')],
  ['result object returned by a run'])

p('S02', 'A concrete error is only reported when a real execution reaches it',
  'A result says "concrete error" (and carries a counter-example) only if some execution of the automaton sampled at the '
  'analysis step really enters an error mode inside the time bound. Errors seen only in aggregated or approximated sets are never called concrete, and '
  'an analysis that does not aggregate never reports an error that is only aggregated.',
  ['programs', 'inputs', 'configurations'],
  'all affine hybrid automata, initial sets and settings (aggregation, refinement, preprocessing, approximation model)',
  'Needs automata whose error set is just missed by the exact sets but hit by their aggregation; tests contain a handful.',
  ['hylaa/core.py', 'hylaa/aggdag.py', 'hylaa/stateset.py', 'hylaa/lputil.py'],
  [('concreteness of a state set', 'hylaa/core.py is_concrete / error_reached, hylaa/aggdag.py make_node'),
   ('guard intersection', 'hylaa/hybrid_automaton.py Transition.get_guard_intersection')],
  [('is_concrete', 'the set is reached without aggregation', 'hylaa/stateset.py StateSet')],
  ['result object returned by a run'])

p('S03', 'A counter-example is an executable trace into the error mode',
  'Every counter-example is a chain of segments that starts in an initial set, follows the dynamics of each mode under its recorded '
  'inputs (chronological, one admissible value per step), stays in the invariants, satisfies the guard of every taken transition, applies its reset with '
  'admissible non-deterministic values, and ends by entering an error mode within the time bound. One is produced exactly when a concrete error is reported and requested.',
  ['programs', 'inputs', 'histories', 'configurations'],
  'all unsafe automata, including ones with several resets, dimension changes, inputs and refined aggregation',
  'The tests check the end point of a few one- or two-segment counter-examples.',
  ['hylaa/result.py', 'hylaa/core.py', 'hylaa/lputil.py', 'hylaa/aggdag.py'],
  [('extraction from the LP solution', 'hylaa/result.py make_counterexample'),
   ('variable naming used by the extraction', 'hylaa/lputil.py add_input_effects_matrix / add_reset_variables')],
  [('counterexample', 'list of segments', 'hylaa/result.py HylaaResult.counterexample')],
  ['result object'])

p('S04', 'Without aggregation every computed set is exact at every step',
  'With aggregation and approximation off, the sets computed at each step of each mode visit are exactly the sets of states that executions '
  'sampled at the analysis step reach there: intersected with the invariant at earlier steps, under all admissible inputs, through guards, linear resets '
  'and Minkowski terms, up to the time bound. None is missing, duplicated, too large or too small.',
  ['programs', 'inputs', 'configurations'],
  'all affine hybrid automata, initial sets (boxes, polyhedra, zonotopes), steps and preprocessing options',
  'Tests compare a few vertices on fixed examples; exactness must hold along every path and direction.',
  ['hylaa/core.py', 'hylaa/stateset.py', 'hylaa/lputil.py', 'hylaa/time_elapse.py', 'hylaa/aggdag.py', 'hylaa/hybrid_automaton.py'],
  [('advance one step', 'hylaa/stateset.py StateSet.step'), ('input effects', 'hylaa/lputil.py add_input_effects_matrix'),
   ('invariant trimming', 'hylaa/core.py intersect_invariant, hylaa/lputil.py add_init_constraint'),
   ('resets', 'hylaa/lputil.py add_reset_variables')],
  [('current state set', 'mode, step in mode, LP', 'hylaa/stateset.py StateSet')],
  ['state sets after each step'])

p('S05', 'Aggregated sets contain everything they stand for',
  'With box, Arnoldi or convex-hull aggregation, every state that an execution reaches at some step is contained in a computed set of the same mode and step in mode whose '
  'recorded time interval includes that step. This holds for every merge rule, template choice and waiting-list order.',
  ['programs', 'inputs', 'configurations'],
  'all automata with several initial sets, loops or long guard crossings; all aggregation settings',
  'Aggregation mixes sets of different times and resets; tests sample a few merges of boxes.',
  ['hylaa/aggdag.py', 'hylaa/aggstrat.py', 'hylaa/lputil.py'],
  [('merging', 'hylaa/aggdag.py _aggregate_from_state_op_list, hylaa/lputil.py aggregate / aggregate_chull'),
   ('grouping', 'hylaa/aggstrat.py pop_waiting_list')],
  [('cur_steps_since_start', 'interval of elapsed steps of a set', 'hylaa/stateset.py')],
  ['state sets after each step'])

p('S06', 'Refinement of aggregation ends with the exact verdict',
  'With deaggregation enabled, a run ends with a concrete error exactly when the error is reachable, whatever the aggregation type, merge rules and the order in which '
  'aggregated sets are split. Every set computed on the way, replayed or not, contains the states it stands for, and is exact if it stands for a single path.',
  ['programs', 'inputs', 'configurations', 'histories'],
  'all automata whose aggregated sets touch or just miss an error guard, all deaggregation preferences',
  'Refinement replays recorded operations on split sets; tests contain three or four small examples.',
  ['hylaa/core.py', 'hylaa/aggdag.py', 'hylaa/deaggregation.py', 'hylaa/aggstrat.py'],
  [('splitting and replaying', 'hylaa/deaggregation.py, hylaa/aggdag.py AggDagNode.split / replay_op'),
   ('choice of node', 'hylaa/aggstrat.py get_deagg_node')],
  [('aggregation dag', 'nodes, ops and their parents', 'hylaa/aggdag.py')],
  ['result object'])

p('S07', 'Time-elapse matrices are exact in any order of steps',
  'For every step number, requested in any order and repeatedly, the matrix used to advance a mode is the exact solution of its linear dynamics after that many steps, '
  'and the matrix for inputs is the exact effect, after that many steps, of a constant input held during the first step. Dense, sparse, nilpotent, zero and affine dynamics give the same '
  'answers.',
  ['inputs', 'histories', 'configurations'],
  'all matrices of moderate norm, all step sizes, all sequences of requested steps',
  'Tests go forward step by step on a few matrices.',
  ['hylaa/time_elapse.py', 'hylaa/time_elapse_expm.py'],
  [('cached matrices', 'hylaa/time_elapse_expm.py assign_basis_matrix / TimeElapser.get_basis_matrix')],
  [('cur_basis_matrix', 'last computed matrix and its step', 'hylaa/time_elapse_expm.py')],
  ['matrices returned for a step number'])

p('S08', 'Approximation models contain the continuous behaviour',
  'With the convex-hull model, each computed set contains the sets at the current and the next step; with the support-function model, each computed set contains every state '
  'that continuous trajectories under piecewise-continuous admissible inputs pass through during the step. Sets created by splitting an aggregation get the same treatment.',
  ['programs', 'inputs', 'configurations'],
  'all affine modes with or without inputs, all initial sets and steps, with and without aggregation',
  'Containment is a statement about every trajectory and every time between steps; tests look at a few vertices.',
  ['hylaa/stateset.py', 'hylaa/lputil.py', 'hylaa/aggdag.py', 'hylaa/time_elapse.py'],
  [('bloating', 'hylaa/stateset.py apply_approx_chull / apply_approx_lgg'),
   ('step inputs', 'hylaa/lputil.py add_input_effects_matrix'),
   ('aggregates', 'hylaa/aggdag.py AggDagNode.apply_approx_model')],
  [], ['state sets after each step'])

p('S09', 'Set constructors and set operations denote the documented sets',
  'Sets built from boxes, zonotopes, constraints and input descriptions, and results of Minkowski sums, linear maps, resets, bloating, scaling, template aggregation, convex '
  'hulls, added constraints and containment queries denote exactly the sets their documentation names, for any dimension, flat or '
  'single-point operands and any composition of the operations. Operations leave their operands as they were unless they are documented to change them.',
  ['inputs', 'programs'],
  'all operand sets and compositions of operations',
  'Unit tests evaluate each operation on one or two boxes in two dimensions.',
  ['hylaa/lputil.py', 'hylaa/lpinstance.py'],
  [('constructors', 'hylaa/lputil.py from_box / from_zonotope / from_constraints / from_input_constraints'),
   ('operations', 'hylaa/lputil.py minkowski_sum / bloat / scale_with_bm / add_reset_variables / aggregate / aggregate_chull / add_curtime_constraints')],
  [], ['optimal values over the resulting sets'])

p('S10', 'Linear programs answer truthfully after any history of changes',
  'After any sequence of adding rows and columns, changing coefficients, bounds and objectives, solving, resetting and cloning, a linear program reports feasibility and an optimal point '
  'correctly, and reads back the constraints, types, right-hand sides and names it was given. A clone is independent of its original in both directions, and failed or infeasible solves do not '
  'spoil later ones.',
  ['histories', 'inputs'],
  'all operation sequences on programs of moderate size and conditioning',
  'The tests solve each program once or twice from a fresh basis.',
  ['hylaa/lpinstance.py'],
  [('solve with warm start and fallbacks', 'hylaa/lpinstance.py minimize / _process_simplex_result'),
   ('reading back', 'hylaa/lpinstance.py get_full_constraints / get_rhs / get_row'), ('copying', 'hylaa/lpinstance.py clone')],
  [], ['results of solves and of getters'])

p('S11', 'Invariant trimming keeps exactly the states inside the invariant',
  'Trimming a set with an invariant keeps exactly its states that satisfy all conditions, at any step of any visit, whether a '
  'condition is added, replaces an earlier weaker one, or is redundant. An unsatisfiable condition empties the set, and a condition that holds everywhere leaves it unchanged.',
  ['inputs', 'histories'],
  'all sequences of trimming along all trajectories, with and without inputs and after resets',
  'Replacement of earlier conditions depends on the step history; tests have one or two such sequences.',
  ['hylaa/core.py', 'hylaa/lputil.py', 'hylaa/aggdag.py'],
  [('add or replace', 'hylaa/lputil.py add_init_constraint / try_replace_init_constraint'),
   ('trimming loop', 'hylaa/core.py intersect_invariant')],
  [('invariant_constraint_rows', 'row of the last condition of each kind', 'hylaa/stateset.py')],
  ['state sets before and after trimming'])

p('S12', 'Plotted polygons are the true projections',
  'The polygon drawn for a set is, up to the angular resolution of the plot, its projection on the chosen axes: every vertex belongs to the projection, and the polygon reaches the set\'s true extent '
  'along the axes and every plot direction, also for axes given as directions, for time, and for points and segments.',
  ['inputs', 'configurations'],
  'all sets, axis choices (indices, direction vectors, time) and elapsed-time intervals',
  'Tests look at axis-aligned boxes.',
  ['hylaa/lpplot.py', 'hylaa/kamenev.py', 'hylaa/stateset.py'],
  [('boundary search', 'hylaa/lpplot.py get_verts / find_boundary_pts'), ('support-function hull', 'hylaa/kamenev.py')],
  [], ['vertex lists'])

p('S13', 'Simulations are executions of the automaton',
  'The requested number of simulations is run, each starts at a point of the given box and is reproducible from its seed. It follows the dynamics of its mode between steps, switches exactly when the first '
  'enabled guard says so (from the first step on, or at once if guards are urgent) and applies its reset, and is recorded completely for every plot until it leaves the invariant or reaches the time bound. A saved picture shows exactly the recorded lines, within its axes.',
  ['inputs', 'programs', 'configurations'],
  'all automata without inputs, all boxes, plots and numbers of simulations',
  'The tests only run a simulation or two without checking points.',
  ['hylaa/core.py', 'hylaa/plotutil.py', 'hylaa/hybrid_automaton.py'],
  [('simulation loop', 'hylaa/core.py simulate / do_step_sim / sim_pop_waiting_list'),
   ('point guards and resets', 'hylaa/hybrid_automaton.py is_guard_true_for_point / apply_reset_for_point / point_in_invariant')],
  [], ['recorded simulation lines'])

p('S14', 'Preprocessing options do not change what is reachable',
  'Strengthening guards with target invariants, treating clock-like conditions as time-triggered, and skipping modes with nothing to do give the same reachable sets and verdicts as leaving them off, up to the documented tiny guard '
  'tolerance. A time-triggered transition on the step grid is taken exactly once at the right step, and the arrays the user supplied are left unmodified.',
  ['programs', 'inputs', 'configurations'],
  'all automata, in particular clocks with invariants and guards on or next to the step grid, combined with resets and urgent guards',
  'Two or three tests use such automata, each with one setting.',
  ['hylaa/hybrid_automaton.py', 'hylaa/core.py'],
  [('strengthening', 'hylaa/hybrid_automaton.py do_guard_strengthening'),
   ('time-triggered detection', 'hylaa/hybrid_automaton.py detect_tt_transitions / check_and_relax_time_triggered / was_tt_taken')],
  [('time_triggered', 'transition flagged by preprocessing', 'hylaa/hybrid_automaton.py Transition')],
  ['sets and verdicts under toggled options'])

p('S15', 'Results depend on the model and settings only',
  'Running the same model with the same settings again, after other analyses in the same process, with the same automaton and settings objects reused, with a different verbosity, or with plotting on or off gives the same reachable sets, verdict '
  'and counter-example validity. An analysis does not alter initial sets, matrices or settings the user passed in in a way that shows in later analyses.',
  ['histories', 'configurations'],
  'all interleavings of analyses in one process, all output and plot modes',
  'Tests run in one fixed order with fresh objects.',
  ['hylaa/core.py', 'hylaa/lpinstance.py', 'hylaa/timerutil.py', 'hylaa/plotutil.py', 'hylaa/aggdag.py'],
  [('setup', 'hylaa/core.py setup / run'), ('global state', 'hylaa/timerutil.py Timers, hylaa/lpinstance.py SwigArray / StaticSettings')],
  [], ['results of repeated runs'])

p('S16', 'Symbolic models become the right matrices',
  'Dynamics, resets and conditions written as text (with constants, affine terms, sums, differences and scaled terms, written in any order) are turned into matrices '
  'and bounds that evaluate to the same numbers as the text, for every point; anything non-linear or with unknown variables or the wrong affine setting is rejected.',
  ['inputs'],
  'all linear expressions over any variables and constants; all non-linear ones for rejection',
  'Tests use two fixed models.',
  ['hylaa/symbolic.py'],
  [('term extraction', 'hylaa/symbolic.py extract_linear_terms'), ('conditions', 'hylaa/symbolic.py make_condition')],
  [], ['returned matrices, exceptions'])

p('S17', 'Native LP resources are used within their bounds and released',
  'Every call into the native LP library uses rows, columns, arrays and indices inside their allocated range, without duplicate entries, and every native program created is deleted exactly once when the '
  'owner goes away, also after exceptions. No analysis reads or writes outside native arrays or uses a deleted program.',
  ['histories', 'programs', 'fault_sequences'],
  'all analyses and all sequences of LP operations, including infeasible solves',
  'Tests never observe native memory: a wrong index or a leak is silent.',
  ['hylaa/lpinstance.py', 'hylaa/lputil.py'],
  [('array conversion', 'hylaa/lpinstance.py SwigArray'), ('matrix loading', 'hylaa/lpinstance.py set_constraints_csr / set_constraints_csc / add_rows_with_types'),
   ('ownership', 'hylaa/lpinstance.py __init__ / __del__ / clone')],
  [], ['calls crossing into the native library'])

p('S18', 'No successor is lost or explored twice',
  'Every successor set created by a transition or given initially is explored exactly once: alone, inside exactly one aggregated set, or as part of a recorded refinement. Only sets which the aggregation options allow to be joined are joined (the same mode; with require_same_path also the same parent and transition; never initial sets). Elapsed time recorded for a set equals its parent\'s time at the transition, time only moves forward within a mode, and '
  'when the analysis ends nothing is left waiting (unless it stopped at an error).',
  ['histories', 'programs', 'configurations'],
  'all runs with loops, several initial sets, aggregation and refinement',
  'Bookkeeping over whole runs; tests check counts on two or three runs.',
  ['hylaa/aggdag.py', 'hylaa/aggstrat.py', 'hylaa/core.py', 'hylaa/deaggregation.py'],
  [('waiting list', 'hylaa/aggdag.py add_transition_successor / pop_waiting_list / remove_node_decendants_from_waiting_list'),
   ('replay', 'hylaa/aggdag.py replay_op')],
  [('waiting_list', 'operations with their successor sets', 'hylaa/aggdag.py AggDag')],
  ['waiting list and dag after each step'])

p('S19', 'Malformed models are rejected before any analysis',
  'Dynamics, inputs, invariants, guards, resets and initial sets with inconsistent dimensions, missing parts or infeasible required sets, and non-positive step sizes or negative time bounds, are rejected with an error when they are defined or at the start of the analysis (also when a part is changed after others were checked), and never silently produce '
  'a verdict. Misspelled settings and attributes are rejected as well, while every well-formed model is accepted, whether its parts are given as lists, arrays, sparse matrices or integers.',
  ['inputs', 'programs', 'configurations'],
  'all single-point corruptions of valid models',
  'No test covers rejection of malformed models.',
  ['hylaa/hybrid_automaton.py', 'hylaa/lputil.py', 'hylaa/core.py', 'hylaa/util.py', 'hylaa/settings.py'],
  [('model setters', 'hylaa/hybrid_automaton.py set_dynamics / set_inputs / set_invariant / set_guard / set_reset / check_transitions'),
   ('frozen attributes', 'hylaa/util.py Freezable')],
  [], ['exceptions raised'])

p('S20', 'Trace checkers agree with the executions they are given',
  'Replaying a counter-example of a system without inputs yields the exact points of its segments at every step, in order, with their times, and refuses counter-examples whose start, end, number of steps or transition were altered. '
  'The trace checker accepts traces produced by the analysis and reports the true end-point difference for altered start points, inputs or targets. '
  'Its plot draws the trace it is given, with the inputs of every step, and tells whether the end point is a violation.',
  ['inputs', 'histories'],
  'all counter-examples and all perturbations of their data',
  'Tests call the checker on one counter-example.',
  ['hylaa/result.py', 'hylaa/check_trace.py'],
  [('replay', 'hylaa/result.py replay_counterexample'), ('checker', 'hylaa/check_trace.py check / sim / plot')],
  [], ['returned samples and errors'])

p('S21', 'Template directions span the space',
  'For any point, dynamics and guard the template directions used for aggregation are linearly independent unit vectors that are pairwise orthogonal, one per dimension, and templates extended with guard directions still bound every direction of the '
  'state. The vector field at the point is one of the directions when it is not zero.',
  ['inputs', 'configurations'],
  'all points (equilibria included), all dynamics (nilpotent, repeated, zero), all dimensions',
  'Two tests evaluate one point each.',
  ['hylaa/lputil.py', 'hylaa/aggdag.py', 'hylaa/aggregate.py'],
  [('construction', 'hylaa/lputil.py make_direction_matrix / reorthogonalize_matrix')],
  [], ['returned matrices'])

p('S22', 'Stored plot data and pictures cover every reachable set',
  'When storing of plot data is on, every explored set appears in the stored data under its mode for every plot with the projection of that plot, its step and time, whether or not windows or images are drawn, with several plots, plot modes and refinement; without '
  'aggregation there is exactly one entry per explored set and plot. A saved image or video shows all of these sets in its plots, in one colour per mode and within the axes (unless the user fixes the axes).',
  ['programs', 'configurations'],
  'all automata and plot settings (number of plots, axis choices per mode, time axes, refinement)',
  'One test reads back a polygon.',
  ['hylaa/plotutil.py', 'hylaa/result.py', 'hylaa/stateset.py'],
  [('recording', 'hylaa/plotutil.py add_reachable_poly / plot_current_state, hylaa/result.py PlotData'),
   ('pictures', 'hylaa/plotutil.py DrawnShapes / update_axis_limits / delete_plotted_state')],
  [('plot data', 'per plot and mode list of polygons', 'hylaa/result.py PlotData')],
  ['result.plot_data', 'the saved figure'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
    print(len(P))
