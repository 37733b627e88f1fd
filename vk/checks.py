from .core import Stage
CHECKS = {}
NA = {}
def check(pid, rule, stages, assumptions=(), technique='', note=''):
    CHECKS[pid] = dict(rule=rule, stages=stages, assumptions=list(assumptions), technique=technique, note=note)

SAN = 'the real code compiled with ASan+UBSan and library assertions, driven by generated workloads; '

check('S01', 'random conic programs with a planted primal-dual optimum; non-trivial when constrained or strictly convex; distinct by constraint-kind signature',
      [Stage('s01_conic', ['s01_conic.cpp'], ['solver'], count=(1500, 40000), obs=[('obs:reported_optimal', 100), ('obs:objective_gap', 100)], rates=[('stalled', 'solves', 0.004), ('reduced_precision', 'solves', 0.01)])],
      technique=SAN + 'online oracle: programs planted with a known primal-dual optimum', note='random programs up to 20 variables; numerical stalls bounded by a rate clause')
check('S02', 'programs with planted Farkas/recession certificates, planted feasible ones, and random iteration limits; distinct by kind and constraint signature',
      [Stage('s02_verdict', ['s02_verdict.cpp'], ['solver'], count=(3000, 60000), obs=[('obs:infeasible_verdict', 100), ('obs:unbounded_verdict', 100), ('obs:feasible_no_false_infeasible', 100)], rates=[('unbounded_verdict_missed', 'obs:unbounded_verdict', 0.01), ('infeasible_verdict_missed', 'obs:infeasible_verdict', 0.01)])],
      technique=SAN + 'online oracle: programs planted with infeasibility/recession certificates, random iteration limits', note='up to 7 variables; missed verdicts on clear-margin programs bounded by a rate clause')
check('S05', 'mixed-binary programs enumerated exhaustively; non-trivial when several assignments (or none) are feasible',
      [Stage('s05_mip', ['s05_mip.cpp'], ['solver'], count=(600, 12000), obs=[('obs:objective_vs_enumeration', 50), ('obs:infeasible_not_optimal', 10)])],
      technique=SAN + 'online oracle: exhaustive enumeration of the binaries, each assignment solved as a continuous program', note='up to 4 (quick) or 6 (thorough) binaries')
check('S03', 'random expression programs, single-constraint programs with closed-form optimum, misuse calls and variable blocks; distinct by operation trace / block shapes',
      [Stage('s03_expr', ['s03_expr.cpp'], ['solver'], count=(1500, 40000), timeout=30, obs=[('obs:linear_value_at_solution', 100), ('obs:relation_exact', 50), ('obs:ids_unique', 100)])],
      technique=SAN + 'online oracle: shadow interpreter of the expression algebra, closed-form optimum per constraint sense, model of the block layout', note='programs of up to 40 (quick) / 120 (thorough) operations over up to 6 variables')
check('S04', 'random conic programs (some infeasible), each solved through about a dozen histories and presentations; distinct by constraint signature',
      [Stage('s04_invariance', ['s04_invariance.cpp'], ['solver'], count=(700, 16000), obs=[('obs:fresh_object:values', 50), ('obs:scaling:objective', 50), ('obs:cleaned_object:values', 50)], rates=[('stalled', 'presentations', 0.01)])],
      technique=SAN + 'metamorphic online oracle across solve histories, object reuse, orderings and scalings', note='programs up to 7 variables; scalings within a factor 5')
check('S06', 'random programs with quadratic equalities treated by trust region and/or soft constraints, with and without binaries; distinct by program and treatment',
      [Stage('s06_ncvx', ['s06_ncvx.cpp'], ['solver'], count=(1200, 20000), obs=[('obs:quadratic_within_threshold', 50), ('compared', 100), ('obs:binaries_integral', 20)],
             rates=[('iterates_differ', 'compared', 0.01), ('reenactment_disagrees', 'reenacted', 0.01)])],
      technique=SAN + 'online oracle: convexity bound on the residual, re-enactment of the sequential convexification with plain models', note='up to 6 variables, 2 nonconvex constraints, 5 refinements')
check('S07', 'random convex, nonconvex, kinked and unbounded functions from random starts with random parameters, through the C entry point (every accepted iterate observed) and the class; distinct by function, size, line search, memory and status',
      [Stage('s07_lbfgs', ['s07_lbfgs.cpp'], ['solver'], count=(16000, 400000), timeout=60, obs=[('obs:sufficient_decrease', 1000), ('obs:curvature', 500), ('obs:gradient_small_on_success', 100), ('obs:evaluation_budget', 100)],
             rates=[('convex_not_solved', 'convex_runs', 0.02), ('convex_slow', 'convex_default_runs', 0.01)])],
      technique=SAN + 'online monitor of every accepted iterate (value, gradient, line-search conditions, budget) and of the final report', note='up to 40 variables; convergence on convex functions bounded by a rate clause')
check('S08', 'random configuration files (all planner, solver and LQR-solver parameters, every combination of optional parts, shuffled keys, foreign sections) loaded in sequence with programmatic changes and defective files in between; distinct by class and operation sequence',
      [Stage('s08_settings', ['s08_settings.cpp'], ['momset', 'solver', 'lqr'], count=(1500, 40000), obs=[('obs:file_loaded', 300), ('obs:parameter_set', 100), ('obs:missing_key_reported', 100), ('obs:unusable_file_reported', 10)])],
      technique=SAN + 'online oracle: model of the key-to-parameter map and of the derived quantities, compared with every parameter after every step', note='the yaml_utils package is absent: its reading interface is a stand-in')
check('S09', 'random quasi-definite sparse matrices under natural, random and minimum-degree orderings; random cones with interior points; random equilibrated problems; random KKT systems; distinct by shape',
      [Stage('s09_linalg', ['s09_linalg.cpp'], ['solver'], count=(4000, 200000), obs=[('obs:factor_solve_residual', 300), ('obs:division_inverts_product', 300), ('obs:squared_scaling', 300), ('obs:matrices_restored', 300), ('obs:kkt_cone_rows', 300)])],
      technique=SAN + 'online oracle: defining identities of factorisation, equilibration, cone algebra and KKT solves recomputed densely', note='up to 45 rows; condition-scaled tolerances')
check('R01', 'random hierarchies of prioritised equality and inequality tasks (conflicting, redundant, repeated, empty ranks, up to ten ranks) through expressions, cost composers and the bare solver; distinct by rank pattern and interface',
      [Stage('r01_hqp', ['r01_hqp.cpp', 'hqp_make.cpp', 'hqp_inst4.cpp', 'hqp_inst8.cpp'], ['solver'], 'sant', count=(12000, 600000), timeout=60, obs=[('obs:rank_optimal', 1000), ('obs:priority_level', 500)], rates=[('not_solved', 'hierarchies', 0.002), ('loose', 'compared', 0.0002), ('far_vertex', 'hierarchies', 0.002)])],
      technique=SAN + 'online oracle: per-rank stationarity certificate (non-negative least squares) and comparison with truncated hierarchies', note='up to 8 variables, 10 ranks, 24 inequality rows')
check('R02', 'sequences of control cycles on one solver object, each compared with a fresh object and with another way of writing the tasks; distinct by the sequence of rank patterns and interfaces',
      [Stage('r02_cycles', ['r02_cycles.cpp', 'hqp_make.cpp', 'hqp_inst4.cpp', 'hqp_inst8.cpp'], ['solver'], 'sant', count=(6000, 100000), timeout=60, obs=[('obs:same_as_fresh', 1000), ('obs:ways_agree', 1000)], rates=[('ways_loose', 'ways_compared', 0.01)])],
      technique=SAN + 'metamorphic online oracle: reused vs fresh solver objects, expressions vs matrices vs composers vs reduced variable sets', note='up to 5 (quick) / 10 (thorough) cycles')
WRAP = '-Wl,' + ','.join('--wrap=pthread_' + f for f in ('mutex_lock', 'mutex_unlock', 'cond_wait', 'cond_broadcast', 'cond_signal'))
check('R03', 'solver objects created, re-initialised, solved with, interleaved, run in concurrent threads and destroyed, while the synchronisation calls inject random delays and spurious wake-ups; distinct by usage pattern, perturbation and problem',
      [Stage('r03_threads', ['r03_threads.cpp', 'hqp_make4.cpp', 'hqp_inst4.cpp'], ['solver'], 'tsan', libs=[WRAP], count=(3000, 150000), timeout=20, obs=[('obs:schedule_independent', 100), ('obs:no_thread_left', 100)])],
      technique='ThreadSanitizer on the real code under injected delays and spurious wake-ups; online oracle: solutions equal the undisturbed run, watchdog for deadlock, thread accounting', note='up to 4 (quick) / 6 (thorough) solvers at a time; schedules sampled, not enumerated')
check('R04', 'random strictly convex QPs (degenerate, redundant, inconsistent) on fresh and reused solvers, and random matrices of every shape and rank up to capacity through the matrix toolbox; distinct by shape and kind',
      [Stage('r04_qp', ['r04_qp.cpp', 'r04_mat.cpp', 'r04_alg.cpp'], [], 'sant', count=(40000, 800000), timeout=30, obs=[('obs:feasible_solved', 1000), ('obs:infeasible_not_solved', 100), ('obs:rank', 500)], rates=[('tight_missed', 'tight_qps', 0.03)])],
      technique=SAN + 'online oracle: optimality certificate of every QP, planted infeasibility, defining identities of every matrix helper', note='QPs up to 8 variables, 3 equalities, 14 inequalities')
check('L01', 'random time-varying linear-quadratic problems (dimensions, horizon, both integrations, cross terms, limits off/inactive/active, zero/random guesses with feedback); distinct by those',
      [Stage('l01_lq', ['l01_lq.cpp'], ['lqr', 'solver'], count=(800, 20000), timeout=120, obs=[('obs:optimal_controls', 100), ('obs:riccati_gains', 50), ('obs:inside_limits', 30)], rates=[('gains_regularised', 'gains', 0.03)])],
      technique=SAN + 'online oracle: dense KKT solution of the whole horizon and an independent Riccati recursion', note='up to 6 states, 4 controls, 60 steps')
check('L02', 'random nonlinear and linear-quadratic problems with random tolerances, regularisation, line search, divergence limits and control limits, on fresh and reused objects, stopped after 0,1,2,3,5,9.. iterations; distinct by sizes and kind',
      [Stage('l02_ddp', ['l02_ddp.cpp'], ['lqr', 'solver'], count=(400, 15000), timeout=120, obs=[('obs:monotone', 300), ('obs:reused_behaves_like_new', 100)], rates=[('unsettled', 'restarted', 0.2), ('settled_not_stationary', 'settled', 0.05)])],
      technique=SAN + 'online oracle: own rollout and cost of every returned trajectory, iteration-by-iteration cost, fresh-object reference, monitor on the user callbacks', note='up to 5 states, 3 controls, 30 steps')
check('L03', 'random smooth dynamics and costs with closed-form first and second derivatives, both integrations, fresh and reinitialised differentiators; distinct by sizes and enabled derivatives',
      [Stage('l03_fd', ['l03_fd.cpp'], ['lqr', 'solver'], count=(800, 40000), timeout=60, obs=[('obs:fx', 500), ('obs:cxu', 500), ('obs:fxu', 100)])],
      technique=SAN + 'online oracle: analytic derivatives', note='up to 6 states, 4 controls')
check('L04', 'random histories of resizing, assignment (including to itself), arithmetic and randomisation on three state and three control sequences, and stored results read back; distinct by history',
      [Stage('l04_seq', ['l04_seq.cpp'], ['lqr', 'solver'], count=(4000, 200000), timeout=60, obs=[('obs:control_sequence', 5000), ('obs:gains_load_back', 100)])],
      technique=SAN + 'online checker against a shadow of plain matrices after every operation', note='')
check('M01', 'random pairs of orientations (near identity, near half turns, negated, at the switch points of the small-angle forms), rates and time steps in both coordinates; distinct by angle decade and sign pattern',
      [Stage('m01_orient', ['m01_orient.cpp'], ['momutil'], count=(60000, 4000000), obs=[('obs:integration_arrives', 10000), ('obs:velocity_vector', 10000)])],
      technique=SAN + 'online oracle: rotation algebra recomputed in extended precision', note='only the three public functions; the logarithm is allowed its documented small-angle form (error angle^3/20 below 0.29 rad)')
check('M02', 'random Hermite conditions (2-4 instants, up to 9 conditions, any start time including zero and negative) and swing trajectories with via points, on fresh and reinitialised objects; distinct by condition pattern',
      [Stage('m02_traj', ['m02_traj.cpp'], ['momutil'], count=(20000, 1000000), obs=[('obs:velocity_is_derivative', 10000), ('time_zero', 500), ('obs:rest_velocity', 1000)])],
      technique=SAN + 'online oracle: Hermite interpolation recomputed in extended precision on normalised time', note='intervals 0.05 s to 5 s within +-60 s; conditions of higher order only at instants which have the lower ones')
check('M03', 'random contact plans (0-5 contacts per effector, boundaries on and off the step grid, overlapping, beyond the horizon, unordered, deselected, set directly) applied and reapplied to one motion; distinct by step, horizon and contact counts',
      [Stage('m03_contacts', ['m03_contacts.cpp'], ['mom', 'solver', 'lqr'], count=(6000, 300000), obs=[('obs:active_iff_covered', 100000), ('active_steps', 20000), ('reapplied', 2000), ('deselected', 500), ('plans_set_directly', 300)])],
      technique=SAN + 'online oracle: the plan read independently as integer step intervals', note='durations 0.01 s to 0.25 s, up to 24 steps; when contacts of one effector overlap any covering one is accepted')
check('M07', 'random convex planar polygons (3-9 corners, rectangles, both orders, any plane, 5 cm to 10 m), added directly or loaded from files with 0-5 surfaces, probed with points inside, outside, on corners and on edges; distinct by corner counts, order and size',
      [Stage('m07_terrain', ['m07_terrain.cpp'], ['mom', 'solver', 'lqr'], count=(6000, 400000), obs=[('inside_points', 50000), ('outside_points', 50000), ('files', 1000)])],
      technique=SAN + 'online oracle: independent point-in-polygon test in the plane of the polygon', note='corners at least 0.15 rad apart on an ellipse of aspect up to 5')
check('M10', 'random contact schedules (0-4 contacts per effector, starting or ending in flight, flights of one step, contacts beyond the horizon) with and without via points, even and uneven step durations, applied and reapplied to one motion; distinct by step, contact and via point counts',
      [Stage('m10_swing', ['m10_swing.cpp'], ['mom', 'solver', 'lqr'], count=(5000, 250000), obs=[('flights', 10000), ('flights_to_the_horizon', 1000), ('flights_from_the_start', 1000), ('single_step_flights', 300), ('obs:flight_position', 20000)])],
      technique=SAN + 'online oracle: every flight phase recomputed from the contact file in extended precision', note='without a via point only the ends and boundedness of a flight are claimed')
check('M04', 'random multi-contact scenarios (1-4 effectors, flat and free contacts, tilted surfaces, steps, flight, both cone models, trust region and soft constraints, external force, via points, tracking references) solved from scratch and replanned on one object; distinct by scenario pattern',
      [Stage('m04_dyn', ['m04_dyn.cpp'], ['mom', 'solver', 'lqr'], count=(300, 20000), obs=[('solved', 100), ('near_cone_surface', 20), ('near_cop_limit', 50), ('replanned', 20)], rates=[('loose', 'compared', 0.003)])], technique=SAN + 'online oracle: momentum equations and limits recomputed from the configuration file and the returned sequence')
check('M05', 'as M04 with optimised step durations, fixed and free horizons',
      [Stage('m05_time', ['m04_dyn.cpp'], ['mom', 'solver', 'lqr'], count=(100, 10000), defs=['-DTIMEOPT=1'], obs=[('solved', 30), ('durations_changed', 100), ('fixed_horizons', 10), ('obs:momentum_consistent', 20)], rates=[('not_converged', 'converged_den', 0.6), ('stopped_early', 'converged_den', 0.2), ('loose', 'compared', 0.003)])], technique=SAN + 'online oracle: the motion implied by the returned durations and forces')
check('M06', 'random dynamics plans (1-4 effectors, flight phases, uneven step durations) and weights, with one or several solver iterations, on new and reused objects; distinct by sizes, integration and iterations',
      [Stage('m06_feedback', ['m06_feedback.cpp'], ['mom', 'solver', 'lqr'], count=(1200, 60000), timeout=60, obs=[('obs:gains_are_riccati', 300), ('sharp', 100), ('unregularized', 30), ('obs:reused_gives_the_gains_of_a_new_one', 300), ('inactive_effector_steps', 300)], rates=[('iterated_differs', 'iterated_compared', 0.04), ('singular_noise', 'singular_effector_steps', 0.05), ('singular_differs', 'singular', 0.05), ('no_step_accepted', 'plans', 0.04)])],
      technique=SAN + 'online oracle: own momentum model and Riccati recursion along the planned motion', note='up to 8 steps; regularised passes are compared with the regularised recursion')
check('M08', 'random articulated robots (1-7 joints, 1-4 effectors, all or some joints active) behind the kinematics interface, reachable and unreachable references, tight and loose limits; distinct by sizes, iterations and step',
      [Stage('m08_kinopt', ['m08_kinopt.cpp'], ['mom', 'solver', 'lqr'], count=(600, 20000), timeout=60, leaks=True, obs=[('posture_qps', 300), ('subset_posture_qps', 100), ('trajectory_qps', 100), ('limits_active', 30), ('displayed', 20), ('stored', 20), ('continued', 20)], rates=[('limits_loose', 'joint_steps', 0.05), ('tracking_poor', 'reachable', 0.1), ('posture_inaccurate', 'posture_problems', 0.01), ('posture_noisy_inaccurate', 'posture_noisy_problems', 0.03), ('trajectory_inaccurate', 'trajectory_problems', 0.02), ('trajectory_noisy_inaccurate', 'trajectory_noisy_problems', 0.55)])],
      technique=SAN + 'interface monitor recording every linearisation and integration, own robot model and bounded least-squares oracle')
PYMOM = dict(name='pymomentum', cfg='pysan', srcs=[], groups=['pymom', 'mom', 'solver', 'lqr'], kind='pyext')
PYSOLVER = dict(name='pysolver', cfg='pysan', srcs=[], groups=['pysolver', 'solver'], kind='pyext')
PYLQR = dict(name='pysolverlqr', cfg='pysan', srcs=[], groups=['pylqr', 'lqr', 'solver'], kind='pyext')
check('M09', 'random histories of reading and writing settings, states, sequences, contacts and planners from Python, with a kinematics interface written in Python and owners going out of scope in any order; distinct by history',
      [Stage('m09_bindings', [], [], 'pysan', py='m09_bindings.py', count=(1600, 40000), timeout=120, exts=[PYMOM, PYSOLVER, PYLQR], obs=[('obs:parameter_value', 10000), ('obs:dynamic_state_field', 5000), ('obs:kinematic_state_field', 5000), ('obs:contact_field', 5000), ('obs:read_value_stays', 500), ('plans_through_python', 30)])],
      technique='the extension modules built with ASan+UBSan and loaded in Python; online comparison with shadow objects across reference lifetimes', note='sequential use of the interpreter; joint vectors of a wrong size and effector indices out of range are excluded')
check('K03', 'random plan directories (tumbling bodies, stance, flight and partial contacts, signed quaternions) and states on and off the plan; distinct by horizon and contact pattern',
      [Stage('k03_lqr', [], [], 'py', py='k03_lqr.py', count=(800, 12000), timeout=120, obs=[('obs:reference_is_the_bodys_motion', 500), ('obs:state_derivative', 300), ('obs:cost_curvature', 100), ('obs:gains_are_riccati', 200), ('obs:no_gain_in_flight', 20)])],
      technique='online oracle on the real Python code: own rigid body with rotation matrices, central differences and Riccati recursion', note='horizons up to 12 (quick) / 40 (thorough) steps')
check('K05', 'random quadratic programs with equality, inequality and bound rows, feasible, degenerate and inconsistent, posed in the three ways the class accepts; distinct by shape and kind',
      [Stage('k05_qp', [], [], 'py', py='k05_qp.py', count=(200000, 6000000), timeout=60, obs=[('obs:is_minimiser', 5000), ('obs:equalities_hold', 2000), ('obs:infeasible_reported', 200)])],
      technique='online oracle on the real Python code: optimality certificate by non-negative least squares, planted infeasibility', note='linearly independent constraint rows; quadprog itself may loop forever on repeated rows')
check('K01', 'random contact schedules (1-4 effectors, motions which start or end in the air, single-step flights, via points anywhere after the start) and Hermite conditions on the trajectory generator; distinct by effector, contact and via point counts',
      [Stage('k01_swing', [], [], 'pysan', py='k01_swing.py', count=(1600, 40000), timeout=60, exts=[PYMOM, PYSOLVER, PYLQR], obs=[('obs:swing_position', 5000), ('obs:stands_at_contact', 5000), ('obs:passes_via_point', 200), ('obs:fitted_condition', 300), ('obs:apex', 200), ('air_at_start', 50), ('air_at_end', 50)])],
      technique='online oracle on the real Python code: the contact schedule and the boundary conditions recomputed in extended precision', note='every effector has at least one contact; via instants strictly increasing')
check('K02', 'random quadrupeds and other floating-base robots of random size, standing, trotting, jumping and starting in the air, first and second order, with and without hierarchy, replanned on one object; distinct by effectors, style and order',
      [Stage('k02_ik', [], [], 'pysan', py='k02_ik.py', count=(600, 20000), timeout=240, exts=[PYMOM, PYSOLVER, PYLQR], obs=[('obs:step_is_minimiser', 2000), ('obs:flight_momentum', 50), ('obs:acceleration_is_minimiser', 500), ('obs:reported_effector_velocities', 2000), ('hierarchy_steps', 50), ('replanned', 30), ('standing', 20)], rates=[('initial_missed', 'initial', 0.06), ('initial_far', 'initial', 0.1), ('diverged', 'second_order_plans', 0.12), ('standing_poor', 'standing', 0.05)])],
      technique='online oracle on the real Python code driven by a recording kinematics model: weighted least-squares certificate of every step, rigid-body quantities recomputed with pinocchio', note='start postures within reach; com gains up to the mass')
check('K04', 'random plans (1-12 steps, even and uneven durations, 6-12 joints) sampled at, between, just beside and outside the plan instants in any order, and exported to the three kinds of files; distinct by steps, joints and kind',
      [Stage('k04_export', [], [], 'pysan', py='k04_export.py', count=(400, 12000), timeout=120, exts=[PYMOM, PYSOLVER, PYLQR], obs=[('obs:sampled_inside', 30000), ('obs:sampled_outside', 5000), ('obs:sampled_at_instant', 5000), ('rows', 200000), ('exports_qp', 20), ('exports_file', 20), ('exports_lqr', 20)])],
      technique='online oracle on the real Python code: own linear interpolation of the plan; offline comparison of every row of the written files', note='forces and motions; exported gains are not implemented by the code (the file is all zero)')
check('K06', 'planning runs from generated configuration files (three robots, standing, stepping, jumping, 0-3 iterations, first and second order, with and without feedback gains), random parameter sets and command lines; distinct by robot, horizon, iterations and style',
      [Stage('k06_loop', [], [], 'pysan', py='k06_loop.py', count=(160, 6000), timeout=400, exts=[PYMOM, PYSOLVER, PYLQR], obs=[('plans', 60), ('alternations', 60), ('obs:parameter_mapped', 200), ('obs:same_by_hand', 30), ('feedbacks', 5), ('exports', 3)], rates=[('kinematics_failed', 'plans', 0.3)])],
      technique='recorder around the two planning stages: trace of calls, arguments and results checked online against the alternation; replica driven by hand', note='horizons of 6-14 steps; synthetic robots with the proportions of the shipped ones')
check('X01', 'configuration files damaged in one to three places (dropped, repeated, re-indented and cut lines, wrong, missing and extreme values, short and long lists, stray bytes), loaded by every loader, planned with when taken; distinct by damage',
      [Stage('x01_config', ['x01_config.cpp'], ['mom', 'solver', 'lqr'], count=(6000, 400000), timeout=60, leaks=True, obs=[('planned', 100)]),
       Stage('x01_hostile', ['x01_hostile.cpp'], ['solver', 'lqr'], count=(40000, 2000000), timeout=60, leaks=True, obs=[('optimisations', 5000), ('minimisations', 1000), ('feedback_problems', 1000)])], technique=SAN)
