#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one-off generator kept for maintenance)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))
SV='solver/src/solver/'; SH='solver/include/solver/'; RT='solver/include/solver/rt_optimizer/'
LQ='solver_lqr/src/solver_lqr/'; LH='solver_lqr/include/solver_lqr/'
MO='momentumopt/src/momentumopt/'; MH='momentumopt/include/momentumopt/'; PY='momentumopt/python/momentumopt/'; KP=PY+'kinoptpy/'

# ---------------------------------------------------------------- conic solver
p('S01','A conic program reported optimal is feasible and has the true optimum',
 'Whenever a program made of linear equalities and inequalities, convex quadratic constraints and second-order-cone constraints with a linear or convex quadratic objective is reported optimal, the returned variable values satisfy every stated constraint within solver tolerance and their objective value equals the true minimum within tolerance. Every strictly feasible, bounded, moderately scaled program of this class is reported optimal.',
 ['inputs'],'all feasible bounded convex programs in the modelled class (any mix, number, order and size of the constraint kinds, including none of a kind), reasonable scaling',
 'The only solver test that runs is three RT problems and three L-BFGS runs; the conic solver itself is exercised by no running test, and sample problems could not cover the mix of constraint kinds.',
 [SV+'interface/ConicProblem.cpp',SV+'optimizer/IPSolver.cpp',SV+'optimizer/LinSolver.cpp',SV+'optimizer/SparseCholesky.cpp',SV+'optimizer/EqRoutine.cpp',SV+'interface/Cone.cpp',SH+'interface/Cone.hpp'],
 [('assembly of the standard form','%sinterface/ConicProblem.cpp: ConicProblem::buildProblem/buildCone'%SV),('primal-dual interior point iteration','%soptimizer/IPSolver.cpp: InteriorPointSolver::optimize'%SV),('KKT solves','%soptimizer/LinSolver.cpp'%SV),('cone scalings','%sinterface/Cone.cpp'%SV)],
 ['Model::optimize() exit code, Var::get(SolverDoubleParam_X), objective value'])
p('S02','Infeasible or unbounded programs are never reported as solved',
 'A conic program that has no feasible point, or whose objective is unbounded below, is never reported optimal, and a reported infeasibility or unboundedness verdict is always true of the program. Programs with inequality or second-order-cone constraints that are infeasible by a clear margin, or unbounded along a direction strictly inside the recession cone, get the corresponding verdict, and every solve returns within the configured iteration limit.',
 ['inputs'],'all programs of the modelled class with a known infeasibility or unboundedness certificate, and all feasible bounded ones (no false verdict); all iteration limits',
 'No running test solves an infeasible or unbounded program; the wrong verdict shows only on data where the certificate test or the best-iterate bookkeeping is reached.',
 [SV+'optimizer/IPSolver.cpp',SV+'interface/ConicProblem.cpp'],
 [('convergence and certificate tests','%soptimizer/IPSolver.cpp: convergenceCheck/ computeResiduals / updateStatistics'%SV)],
 ['Model::optimize() exit code'])
p('S03','Modelling expressions and variable blocks mean what they say',
 'Linear and quadratic expressions built by any sequence of additions, subtractions, scalings, compound assignments and repeated variables evaluate to their mathematical value at the solution, and a constraint written with ==, <= or >= imposes exactly that relation on it. In a block of decision variables every entry has an index of its own, and the guess, bounds and solution values stored for an entry are the ones read back from that entry, whatever the block shape and size type.',
 ['inputs','programs'],'all expression-building programs and all block shapes, sizes and insertion orders',
 'No running test checks expression arithmetic or block indexing beyond the shapes used in the sample problems.',
 [SH+'interface/Exprs.hpp',SV+'interface/Exprs.cpp',SV+'interface/Var.cpp',SV+'interface/OptVar.cpp',SV+'interface/ConicProblem.cpp',SV+'interface/Model.cpp'],
 [('expression algebra','%sinterface/Exprs.cpp, %sinterface/Exprs.hpp'%(SV,SH)),('block layout','%sinterface/OptVar.cpp'%SV),('constraint normalisation','%sinterface/ConicProblem.cpp: addLinConstr/addQuaConstr/buildProblem'%SV)],
 ['LinExpr::getValue, DCPQuadExpr::getValue, OptimizationVariable getters, solutions of pinned models'])
p('S04','A solve depends only on the program, not on history or presentation',
 'Solving the same program again, in the same solver object or a fresh one, before or after or between solves of other programs, gives the same verdict and the same values within tolerance. Reordering constraints or variables, or multiplying a constraint or the objective by a positive constant, leaves the verdict and the minimiser (or the optimal value when it is not unique) unchanged within tolerance.',
 ['inputs','histories'],'all programs with a unique solution, all solve histories over several live solver objects, all permutations and moderate positive scalings',
 'Tests solve each problem once in one fixed order, so leftover state and presentation dependence cannot show.',
 [SV+'interface/ConicProblem.cpp',SV+'interface/Model.cpp',SV+'optimizer/IPSolver.cpp',SV+'optimizer/EqRoutine.cpp'],
 [('per-solve initialisation','%soptimizer/IPSolver.cpp: initialize/initializeVariables'%SV),('equilibration and its inverse','%soptimizer/EqRoutine.cpp'%SV)],
 ['verdict and variable values of related solves'])
p('S05','Mixed-binary programs return a true integer optimum',
 'For a bounded convex program with binary variables, the solution returned has every binary variable at 0 or 1, satisfies every constraint within tolerance, and its objective value is the best over all assignments of the binaries. When no assignment is feasible, or the program is unbounded, it is not reported optimal.',
 ['inputs'],'all small mixed-binary conic programs, both signs of objective, feasible and infeasible, any subset of binaries',
 'No running test solves a mixed-integer program; pruning errors only show when the first incumbent is not already the best.',
 [SV+'optimizer/BnBSolver.cpp',SV+'interface/Model.cpp',SV+'interface/ConicProblem.cpp'],
 [('branching, bounding and pruning','%soptimizer/BnBSolver.cpp'%SV)],
 ['Model::optimize() exit code, Var values'])
p('S06','Bilinear and indefinite quadratic constraints are honoured as configured',
 'Programs with indefinite quadratic constraints solved with the trust-region, soft-constraint or spatial branch-and-bound treatment return, when reported optimal, values which satisfy all convex constraints, and binaries which are integral. With the trust region a constraint whose terms have nonnegative coefficients ends within the configured trust-region threshold, tightened once per refinement; with soft constraints every refinement solves the penalised problem linearised at the previous solution.',
 ['inputs','configurations'],'programs with quadratic terms of either sign and each supported treatment of the nonconvexity, planted feasible points',
 'No running test uses a nonconvex constraint.',
 [SV+'interface/ConicProblem.cpp',SV+'optimizer/NcvxBnBSolver.cpp',SH+'interface/Exprs.hpp'],
 [('quadratic splitting and linearisation','%sinterface/ConicProblem.cpp: buildProblem'%SV),('spatial branching','%soptimizer/NcvxBnBSolver.cpp'%SV)],
 ['Model::optimize() exit code, Var values, quadratic residuals'])
p('S07','The unconstrained minimiser never returns worse than it was given',
 'From any starting point the limited-memory quasi-Newton minimiser returns a finite point whose objective value is no greater than at the start, and the optimal value it reports is the objective evaluated at the point it reports. Every accepted step meets the condition of the configured line search; success on a smooth convex function means that the gradient there is below the configured relative tolerance; and the minimiser stops within the configured numbers of iterations and line-search trials.',
 ['inputs','configurations'],'all smooth objectives with consistent gradients, all starting points, memory sizes, line searches, limits and L1 weights accepted by the parameter check',
 'Three fixed runs check one function with default settings.',
 [SV+'optimizer/LbfgsSolver.cpp',SH+'optimizer/LbfgsSolver.hpp'],
 [('quasi-Newton loop and line searches','%soptimizer/LbfgsSolver.cpp'%SV)],
 ['optimize() exit code, optimalVector(), optimalValue(), objective call log'])
p('S08','Configuration files set exactly the parameters they name',
 'After loading a configuration file, every solver, LQR-solver and planner parameter named in it reads back with the value written in the file (with the documented unit conversions and derived quantities), and parameters set programmatically read back unchanged without changing any other. A configuration that lacks a required parameter is reported as an error (an exception, or a printed message in the planner) rather than silently accepted.',
 ['configurations','inputs'],'all values of all parameters in all the settings classes, any subset overridden',
 'Tests load one fixed file and look at solver outputs only, so two swapped or dropped parameters go unseen.',
 [SV+'interface/SolverSetting.cpp',LQ+'SolverLqrSetting.cpp',MO+'setting/PlannerSetting.cpp'],
 [('file loading and parameter accessors','SolverSetting.cpp, SolverLqrSetting.cpp, PlannerSetting.cpp: initialize/get/set')],
 ['get() of every parameter after initialize()'])
p('S09','Sparse linear algebra and cone operations are numerically exact',
 'Factorising a symmetric quasi-definite sparse matrix and solving with it reproduces the right-hand side to rounding accuracy, for any sparsity pattern and fill-reducing order. Equilibrating and un-equilibrating leaves matrices, right-hand sides and solutions unchanged, and the cone product, its inverse, and the symmetric scaling satisfy their defining identities for all interior points.',
 ['inputs'],'all symmetric quasi-definite matrices and sparsity patterns; all cone dimension mixes and all interior points',
 'No test touches these building blocks directly; small factorisation errors are masked by iterative refinement.',
 [SV+'optimizer/SparseCholesky.cpp',SV+'optimizer/EqRoutine.cpp',SV+'interface/Cone.cpp',SV+'optimizer/LinSolver.cpp',SH+'interface/Cone.hpp'],
 [('LDL factorisation','%soptimizer/SparseCholesky.cpp'%SV),('equilibration','%soptimizer/EqRoutine.cpp'%SV),('cone algebra','%sinterface/Cone.cpp'%SV)],
 ['return values of the public factorisation, equilibration and cone operations'])
# ---------------------------------------------------------------- RT hierarchical QP
p('R01','Hierarchical tasks respect strict priority and are optimal rank by rank',
 'For a hierarchy of prioritised linear equality and inequality tasks, the solution minimises the violation of the first rank, and of every later rank among the points that keep the violation of all earlier ranks at the level already reached, within solver tolerance. Adding, removing or changing a lower-priority task never changes how well higher-priority tasks are satisfied.',
 ['inputs'],'all hierarchies: any number of ranks the solver accepts, any mix of equalities and inequalities per rank, consistent or conflicting, redundant or empty',
 'Three fixed hierarchies with known answers.',
 [RT+'RtHQPSolver.hpp',RT+'RtHQPCost.hpp',RT+'RtModel.hpp',RT+'RtQPSolver.hpp',RT+'RtQPSolverInterface.hpp'],
 [('nullspace projection and slack propagation','%sRtHQPSolver.hpp: solve/solveNextTask'%RT),('rank QP','%sRtQPSolver.hpp'%RT)],
 ['RtModel::optimize / getSolution; RtHQPSolver::getOptVec'])
p('R02','Control cycles are independent of what earlier cycles contained',
 'Resetting and refilling the hierarchical solver for a new control cycle gives the solution a freshly constructed solver gives for the same tasks, whatever tasks, ranks and sizes earlier cycles contained. Tasks written through expressions have the same effect as the same rows written as matrices, including when a variable is mentioned more than once or tasks are added to a rank in several pieces.',
 ['histories','inputs'],'all sequences of cycles on one solver object; all ways of writing a task',
 'Tests build one solver per problem and solve it a fixed number of times.',
 [RT+'RtModel.hpp',RT+'RtHQPSolver.hpp',RT+'RtHQPCost.hpp',RT+'RtQPSolver.hpp'],
 [('reset and cost collection','%sRtHQPCost.hpp, RtModel.hpp: reset/addCosts'%RT)],
 ['solutions of cycle k on a reused object vs. a fresh object'])
p('R03','The multi-threaded hierarchical solver is race-free and always answers',
 'A hierarchical solve that uses the background decomposition thread returns the same solution as with any other timing of the two threads, never deadlocks, and performs no unsynchronised conflicting accesses. Creating, solving with, and destroying many solvers, sequentially or at the same time in different threads, always terminates and leaves no thread behind.',
 ['schedules'],'all interleavings of the caller and its background worker, with injected delays, and any number of independent solvers in concurrent threads',
 'Tests see a few lucky schedules.',
 [RT+'RtHQPSolver.hpp',RT+'RtMutex.hpp'],
 [('producer-consumer hand-off of decompositions','%sRtHQPSolver.hpp: worker thread, condition variables'%RT)],
 ['ThreadSanitizer reports, solution log per schedule, watchdog'])
p('R04','The real-time QP and matrix toolbox returns true optima and exact algebra',
 'For a strictly convex, well-scaled quadratic program with independent equality constraints and inequality constraints that leave an interior, the real-time QP solver reports success with a point that satisfies all constraints and the optimality conditions within tolerance; it reports failure when the constraints are inconsistent, and on badly scaled problems it still ends, and reports success only for points that satisfy the constraints. The fixed-capacity matrix helpers (nullspace, pseudo-inverse, ranks, row insertion and removal) satisfy their defining identities for all shapes up to capacity.',
 ['inputs'],'all strictly convex QPs with linearly independent equalities; all matrix shapes up to capacity, all ranks including 0',
 'No test calls these directly; task problems only reach small full-rank shapes.',
 [RT+'RtQPSolver.hpp',RT+'RtQPSolverInterface.hpp',RT+'RtMatrix.hpp'],
 [('active-set QP','%sRtQPSolver.hpp'%RT),('matrix helpers','%sRtMatrix.hpp'%RT)],
 ['QP exit code and optimum, matrix identities'])
# ---------------------------------------------------------------- LQR
p('L01','On linear-quadratic problems the trajectory optimiser finds the exact optimum',
 'For a linear-dynamics quadratic-cost optimal control problem without control limits, the optimised controls and states equal the unique optimum, and the feedback gains of an unregularised pass equal the finite-horizon Riccati gains, for any horizon, dimensions and initial guess that does not diverge. With control limits the returned controls lie inside the limits, limits which are never reached change nothing, and over a single step the optimum within the limits is returned.',
 ['inputs'],'all controllable or stabilisable linear systems with positive-definite control cost, horizons and initial guesses',
 'The trajectory-optimisation package is not built or tested here at all.',
 [LQ+'SolverLqr.cpp',LQ+'BackwardPass.cpp',LQ+'ForwardPass.cpp',LQ+'FiniteDifferences.cpp',LQ+'OcpDescription.cpp'],
 [('backward Riccati recursion','%sBackwardPass.cpp'%LQ),('rollout and line search','%sForwardPass.cpp'%LQ)],
 ['optimised sequences and gains'])
p('L02','Trajectory optimisation never worsens cost and stays dynamically consistent',
 'For any nonlinear optimal control problem, the states returned are exactly the rollout of the returned controls from the given initial state, the total cost of the returned trajectory is no greater than that of the initial guess (scaled down when its rollout diverges), and cost never increases from one accepted iteration to the next. Repeating the optimisation from a returned optimum leaves it unchanged within tolerance, and an optimiser object reused for another problem behaves like a new one.',
 ['inputs','histories'],'all smooth problems, initial guesses, iteration limits and sequences of problems solved by one object',
 'Not built or tested here; monotonicity holds per iteration of every run, not on one sample.',
 [LQ+'SolverLqr.cpp',LQ+'ForwardPass.cpp',LQ+'BackwardPass.cpp',LQ+'OcpDescription.cpp'],
 [('acceptance test and regularisation','%sSolverLqr.cpp: optimize'%LQ),('rollout','%sForwardPass.cpp'%LQ)],
 ['recorded cost of each iterate, replayed dynamics'])
p('L03','Finite-difference derivatives match the true derivatives',
 'The numerically computed dynamics Jacobians, cost gradients and cost Hessians (including the mixed state-control block) agree with the analytic derivatives within truncation error at every time step, for any problem dimensions and any reuse of the object, and leave the trajectory they were computed along unchanged.',
 ['inputs','histories'],'all smooth dynamics and costs, dimensions, horizons and sequences of problems',
 'Not built or tested here; a swapped or shifted block only shows for non-square, time-varying problems.',
 [LQ+'FiniteDifferences.cpp',LH+'FiniteDifferences.hpp'],
 [('perturbed evaluations over a thread pool','%sFiniteDifferences.cpp'%LQ)],
 ['derivative blocks per time step'])
p('L04','State and control sequences behave as values under algebra and storage',
 'Addition, subtraction, scaling (of the feedforward part), norms, resizing, assignment and element access on state and control sequences equal the element-wise mathematics at every time step with sizes preserved; the result of an operation on control sequences carries the feedback gains of its last operand. A sequence written to a configuration node and loaded back is equal to the original.',
 ['inputs','histories'],'all dimensions, horizons and operation sequences',
 'Not built or tested here.',
 [LQ+'OcpDescription.cpp',LH+'OcpDescription.hpp'],
 [('sequence containers','%sOcpDescription.hpp / OcpDescription.cpp'%LH)],
 ['sequence contents after each operation'])
# ---------------------------------------------------------------- momentumopt C++
p('M01','Orientation utilities are mutually consistent and stay on the unit sphere',
 'Every orientation operation maps unit quaternions to unit quaternions, exponential and logarithmic maps invert each other, and integrating the angular velocity required to go from one orientation to another over the same time arrives at the other. The orientation error is the rotation vector from one orientation to the other, zero exactly for equal orientations, and gives the same answer for a quaternion and its negation.',
 ['inputs'],'all unit quaternions (near identity, near half-turns, negated), all rotation vectors within a half turn and all time steps',
 'No test touches orientation code; failures sit at sign changes and small angles.',
 [MO+'utilities/OrientationUtils.cpp'],
 [('exponential/logarithmic maps and conversions','%sutilities/OrientationUtils.cpp'%MO)],
 ['return values'])
p('M02','Interpolated trajectories meet their boundary conditions and derivatives',
 'A generated polynomial trajectory takes exactly the requested start and end positions, velocities and accelerations (as far as its order allows), and its reported velocity and acceleration are the time derivatives of its reported position at every query time within the interval, including both ends.',
 ['inputs'],'all boundary values, durations, polynomial kinds and query times in the closed interval',
 'No test evaluates a trajectory.',
 [MO+'utilities/TrajectoryGenerator.cpp',MH+'utilities/TrajectoryGenerator.hpp'],
 [('polynomial coefficients and evaluation','%sutilities/TrajectoryGenerator.cpp'%MO)],
 ['interpolate() outputs'])
p('M03','Contact plans activate exactly the planned contacts at the planned times',
 'After a contact plan is applied to a motion, an end effector is marked in contact at a time step exactly when some planned contact of that effector covers that time, with that contact\'s position, orientation and type, and no contact of another effector is ever used. This holds for any number of contacts per effector, including none, and for reapplying plans to the same motion.',
 ['inputs','histories'],'all contact plans: number, order, timing and type of contacts per effector, horizon and time step',
 'No running test uses a contact plan; boundary timings and empty effectors are not in the samples.',
 [MO+'cntopt/ContactPlanInterface.cpp',MO+'cntopt/ContactPlanFromFile.cpp',MO+'cntopt/ContactState.cpp'],
 [('contact window lookup','%scntopt/ContactPlanInterface.cpp: fillDynamicsSequence/fillKinematicsSequence'%MO)],
 ['contact activation, id, pose and type of each time step'])
p('M04','Optimised dynamics plans obey momentum dynamics and contact limits',
 'In every dynamics plan reported solved, the centre of mass integrates linear momentum over time, linear momentum changes by gravity plus the external force plus the sum of the contact forces at every step, angular momentum changes by the moments of those same forces and torques about the centre of mass, and effectors without contact carry no force. At every active contact the force lies in the configured friction cone (second-order or linearised) of the contact surface, the centre of pressure and contact torque lie within their limits, and effector reach and minimum height limits hold, all within solver tolerance.',
 ['inputs','configurations'],'all initial states, references, contact plans, weights and friction/heuristic configurations for which the planner reports a solution',
 'The planner is not built or run by the existing tests.',
 [MO+'dynopt/DynamicsOptimizer.cpp',MH+'dynopt/DynamicsOptimizer.hpp',MO+'dynopt/DynamicsState.cpp'],
 [('constraint generation','%sdynopt/DynamicsOptimizer.cpp: internalOptimize'%MO),('solution extraction','%sdynopt/DynamicsOptimizer.cpp: storeSolution'%MO)],
 ['returned dynamics sequence'])
p('M05','Time-optimised plans keep step durations within limits and stay consistent',
 'When step durations are optimised, every duration lies within its configured range, the total time stays within the allowed horizon, and the centre of mass and momentum of a plan on which the optimiser converged are consistent with the returned durations within the configured convergence tolerance. With time optimisation off every duration equals the configured time step.',
 ['inputs','configurations'],'all time ranges, horizons and plans',
 'The planner is not built or run by the existing tests.',
 [MO+'dynopt/DynamicsOptimizer.cpp'],
 [('time variables and trust-region/soft-constraint products','%sdynopt/DynamicsOptimizer.cpp'%MO)],
 ['returned dynamics sequence times and states'])
p('M06','Stabilising feedback gains solve the linear-quadratic problem of the plan',
 'The feedback gains computed along a dynamics plan equal the time-varying linear-quadratic regulator gains of the linearised momentum dynamics of that plan with the configured weights, including the regularisation in use. Computing gains does not modify the plan, gives the same gains whatever plans the object was used for before, and a plan of another length than the configured horizon is refused.',
 ['inputs'],'all plans, contact configurations and weights',
 'Not built or tested here.',
 [MO+'dynopt/DynamicsFeedback.cpp',MH+'dynopt/DynamicsFeedback.hpp'],
 [('momentum dynamics and cost handed to the LQR solver','%sdynopt/DynamicsFeedback.cpp'%MO)],
 ['gain sequence'])
p('M07','Terrain regions contain exactly the polygon they describe',
 'A point lying on a planar terrain region satisfies all of its boundary inequalities exactly when it lies inside the convex polygon given by its vertices, all vertices lie on its plane, the normal is a unit vector perpendicular to it, and the region\'s orientation is a rotation with an axis along the normal. Terrain loaded from a file has one region per listed surface, with that surface\'s vertices.',
 ['inputs','configurations'],'all convex planar polygons in general position and terrain files',
 'No running test uses terrains.',
 [MO+'cntopt/TerrainDescription.cpp',MH+'cntopt/TerrainDescription.hpp'],
 [('half-space computation','%scntopt/TerrainDescription.cpp'%MO)],
 ['region inequalities and vertices'])
p('M08','Optimised kinematics stay within joint limits and improve tracking',
 'Kinematic plans keep every active joint within its configured limits at every step, keep the base orientation a unit quaternion, and reduce the tracking error of the commanded centre of mass, momentum and end-effector references relative to the starting posture whenever these are reachable. Entries of the plan at a step describe one posture: positions, momentum and effectors at a step are those the robot model gives for that step\'s joint state.',
 ['inputs','configurations'],'all robot models behind the kinematics interface, references, active joints, weights and starting postures',
 'Not built or tested here.',
 [MO+'kinopt/KinematicsOptimizer.cpp',MH+'kinopt/KinematicsOptimizer.hpp',MO+'kinopt/KinematicsState.cpp',MO+'kinopt/KinematicsInterface.cpp'],
 [('inverse-kinematics QP','%skinopt/KinematicsOptimizer.cpp'%MO)],
 ['kinematics sequence'])
p('M10','Swing trajectories of a motion plan connect its contacts',
 'With kinematics enabled, every phase in which an effector is not in contact moves it, at rest at both ends, from its last contact (or its initial pose) to its next contact (or its initial pose displaced by the commanded motion), through the via point given for that phase midway in time, following the step durations of the plan; position, velocity and acceleration agree, orientations are unit quaternions, and in contact it stays at rest at the contact. This holds for phases of any length, including one step and phases which reach the start or the end of the horizon, and for reapplied plans.',
 ['inputs','histories'],'all contact schedules, via points, initial poses, displacements and step durations',
 'No running test generates swing trajectories.',
 [MO+'cntopt/ContactPlanInterface.cpp',MO+'utilities/TrajectoryGenerator.cpp'],
 [('flight phases','%scntopt/ContactPlanInterface.cpp: updateEndeffectorTrajectories'%MO)],
 ['effector positions, velocities, accelerations and orientations of each step'])
p('M09','Data crosses the Python/C++ boundary unchanged',
 'Every field of a motion plan, contact plan, parameter or setting written from Python reads back with the same value in the same field, writing one field changes no other, and states and containers handed out refer to the object they were taken from for as long as it is used. Every listed parameter name in Python denotes the same parameter as in the library.',
 ['inputs','programs'],'all exposed fields, effector indices and time steps, any order of reads and writes',
 'No test imports the planner bindings.',
 ['momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp','momentumopt/srcpy/momentumopt/kinopt/PyKinematics.cpp','momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp','momentumopt/srcpy/momentumopt/cntopt/PyTerrain.cpp','momentumopt/srcpy/momentumopt/setting/PySetting.cpp','momentumopt/srcpy/momentumopt/setting/PyParams.cpp',MH+'dynopt/DynamicsState.hpp',MH+'kinopt/KinematicsState.hpp','solver/srcpy/solver/PySolver.cpp','solver_lqr/srcpy/solver_lqr/PySolverLqr.cpp'],
 [('binding definitions','momentumopt/srcpy, solver/srcpy, solver_lqr/srcpy')],
 ['Python attribute reads after writes'])
# ---------------------------------------------------------------- python
p('K01','Swing-foot and base trajectories pass through contacts and via points',
 'The end-effector trajectory generated from a contact plan stands still at the contact location during every planned contact (and before the first), and during each swing moves from one contact to the next starting and ending at rest, passing the apex height midway. Every trajectory\'s reported velocity is the derivative of its reported position, base trajectories pass through their via points at the given instants, and evaluating a trajectory at any time picks the piece covering that time.',
 ['inputs'],'all contact schedules (any number of contacts, including one throughout), locations, swing heights and query times',
 'No test generates swing trajectories.',
 [KP+'min_jerk_traj.py',KP+'momentum_kinematics_optimizer.py'],
 [('piecewise polynomials','%smin_jerk_traj.py'%KP),('contact list to trajectory','%smomentum_kinematics_optimizer.py: EndeffectorTrajectoryGenerator'%KP)],
 ['trajectory evaluations'])
p('K02','Inverse kinematics tracks its references and keeps a valid configuration',
 'For reachable references with contacts fixed, the kinematic planner\'s motion tracks the centre-of-mass and end-effector references within tolerance at every step, keeps feet in contact stationary, and keeps the base orientation a unit quaternion; every step is the weighted least-squares minimiser of the tasks configured. The joint positions, velocities, momentum, centre of mass and effector positions it reports for a step all describe that same configuration of the robot model.',
 ['inputs','configurations'],'all robots with the expected frames, contact plans, references, weights and time steps',
 'No test runs the kinematic planner (it needs a robot model).',
 [KP+'inverse_kinematics.py',KP+'second_order_ik.py',KP+'momentum_kinematics_optimizer.py',KP+'utils.py'],
 [('task stacking and integration','%sinverse_kinematics.py, second_order_ik.py'%KP),('step loop and bookkeeping','%smomentum_kinematics_optimizer.py'%KP)],
 ['kinematics sequence vs. pinocchio recomputation'])
p('K03','Manifold LQR derivatives and gains are those of the centroidal dynamics',
 'The derivatives used by the manifold LQR solver equal the true derivatives of its dynamics and cost on the configuration manifold, within finite-difference error, at every state and control. The gains and feedforward it returns are those of the Riccati recursion along its reference, and state difference and state integration are inverse to each other.',
 ['inputs'],'all centroidal states with unit quaternions, controls, contacts, weights and horizons',
 'The eight existing LQR tests check shapes and single operations at a handful of points, never the values of the derivative matrices.',
 [KP+'lqr_gain_manifold.py'],
 [('finite differences on the manifold','%slqr_gain_manifold.py: dynamics_derivatives/cost_derivatives'%KP),('backward/forward pass','%slqr_gain_manifold.py: solve'%KP)],
 ['derivative matrices, gains and cost history'])
p('K04','Executed and exported motions equal the plan in time and value',
 'A desired value sampled from a plan at any time equals the linear interpolation of the plan at that time, equals the plan exactly at plan instants, and stays at the first and last values outside the plan. Exported motion files contain for every millisecond the positions, velocities and forces of the plan at that time, in the column and leg order of each file kind and with the same number of rows in every file of one export.',
 ['inputs'],'all plans (lengths, time steps, contact patterns) and query times',
 'No test samples or exports a plan.',
 [KP+'create_data_file.py',PY+'motion_execution.py',PY+'motion_planner.py',PY+'helpers.py'],
 [('interpolation','%screate_data_file.py, motion_execution.py'%(KP)),('file writing','%screate_data_file.py: create_file'%KP)],
 ['sampled values and written files'])
p('K05','The kinematics QP returns the constrained minimiser',
 'For every strictly convex quadratic program given to the Python QP wrapper, with or without equality and inequality constraints (equalities and active inequalities linearly independent), the returned vector satisfies the constraints and is the minimiser. Solving does not modify its inputs.',
 ['inputs'],'all strictly convex problems with any combination of present and absent constraint kinds',
 'No test calls the QP wrapper.',
 [KP+'qp.py'],
 [('argument packing for the QP backend','%sqp.py'%KP)],
 ['returned vector'])
p('K06','The kino-dynamic planning loop hands each stage the other\'s latest result',
 'In alternating kinematic-dynamic planning the dynamics stage optimises against the centre of mass and momentum of the most recent kinematic plan and the kinematic stage against those of the most recent dynamic plan, in every iteration. The plan returned and exported is the one produced by the last iteration, all its sequences have matching lengths, and time stamps accumulate the step durations.',
 ['inputs','configurations'],'all planner configurations (iteration counts, stages enabled, gaits and horizons)',
 'No test runs the planning loop.',
 [PY+'motion_planner.py',PY+'kino_dyn_planner.py',KP+'momentum_kinematics_optimizer.py'],
 [('alternation','%smotion_planner.py: optimize_motion'%PY)],
 ['recorded calls, arguments and sequences of each stage'])
p('X01','No input makes the planner read or write memory it does not own',
 'Building, solving and reading back any problem through the public interfaces, including empty, degenerate, conflicting, very large, repeated and out-of-order use, performs no out-of-bounds or use-after-free access, no undefined arithmetic, and leaks no memory. Configuration files damaged in any way (missing, repeated, cut, wrong or extreme entries) are rejected with a message or an exception, or taken and planned with, without a crash; the shipped configurations are taken.',
 ['inputs','histories','configurations'],'all public call sequences and inputs, including edge shapes (zero sizes, capacity limits) and malformed files',
 'Plain test builds do not notice stray accesses.',
 ['solver','solver_lqr','momentumopt'],
 [('size bookkeeping throughout','solver, solver_lqr and momentumopt C++ sources')],
 ['AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, libstdc++ and Eigen assertions'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
