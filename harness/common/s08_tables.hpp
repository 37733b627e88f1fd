// What each configuration key denotes: key, kind (b i d, 2/3/4/X vector length, I int vector), parameter, condition under which the key is read.
struct Row { const char* key; char kind; int param; char gate; };
static const Row PLANNER[] = {
  {"load_kinematics", 'b', PlannerBoolParam_LoadKinematics, '-'}, {"num_dofs", 'i', PlannerIntParam_NumDofs, 'k'}, {"kd_iterations", 'i', PlannerIntParam_KinDynIterations, 'k'},
  {"num_subsamples", 'i', PlannerIntParam_NumSubsamples, 'k'}, {"display_motion", 'b', PlannerBoolParam_DisplayMotion, 'k'}, {"min_joint_limits", 'X', PlannerVectorParam_MinJointAngles, 'k'},
  {"max_joint_limits", 'X', PlannerVectorParam_MaxJointAngles, 'k'}, {"default_joint_positions", 'X', PlannerVectorParam_KinematicDefaultJointPositions, 'k'}, {"active_dofs", 'I', PlannerIntVectorParam_ActiveDofs, 'k'},
  {"num_com_viapoints", 'i', PlannerIntParam_NumViapoints, '-'}, {"time_step", 'd', PlannerDoubleParam_TimeStep, '-'}, {"n_act_eefs", 'i', PlannerIntParam_NumActiveEndeffectors, '-'},
  {"time_horizon", 'd', PlannerDoubleParam_TimeHorizon, '-'}, {"min_rel_height", 'd', PlannerDoubleParam_MinRelHeight, '-'}, {"external_force", '3', PlannerVectorParam_ExternalForce, '-'},
  {"com_displacement", '3', PlannerVectorParam_CenterOfMassMotion, '-'}, {"max_time_iterations", 'i', PlannerIntParam_MaxNumTimeIterations, 't'}, {"max_time_residual_tolerance", 'd', PlannerDoubleParam_MaxTimeResidualTolerance, 't'},
  {"min_time_residual_improvement", 'd', PlannerDoubleParam_MinTimeResidualImprovement, 't'}, {"gravity", 'd', PlannerDoubleParam_Gravity, '-'}, {"robot_mass", 'd', PlannerDoubleParam_RobotMass, '-'},
  {"floor_height", 'd', PlannerDoubleParam_FloorHeight, '-'}, {"torque_range", '2', PlannerVectorParam_TorqueRange, '-'}, {"friction_coeff", 'd', PlannerDoubleParam_FrictionCoefficient, '-'},
  {"max_eef_lengths", '4', PlannerVectorParam_MaxEndeffectorLengths, '-'}, {"time_range", '2', PlannerVectorParam_TimeRange, 't'}, {"is_time_horizon_fixed", 'b', PlannerBoolParam_IsTimeHorizonFixed, 't'},
  {"w_com", '3', PlannerVectorParam_WeightCenterOfMass, '-'}, {"w_amom", '3', PlannerVectorParam_WeightAngularMomentum, '-'}, {"w_lmom", '3', PlannerVectorParam_WeightLinearMomentum, '-'},
  {"w_amomd", '3', PlannerVectorParam_WeightAngularMomentumRate, '-'}, {"w_lmomd", '3', PlannerVectorParam_WeightLinearMomentumRate, '-'}, {"w_com_via", '3', PlannerVectorParam_WeightCenterOfMassViapoint, '-'},
  {"w_trq_arm", 'd', PlannerDoubleParam_WeightArmTorque, '-'}, {"w_trq_leg", 'd', PlannerDoubleParam_WeightLegTorque, '-'}, {"w_frc_arm", '3', PlannerVectorParam_WeightArmForce, '-'},
  {"w_frc_leg", '3', PlannerVectorParam_WeightLegForce, '-'}, {"w_dfrc_arm", '3', PlannerVectorParam_WeightArmForceRate, '-'}, {"w_dfrc_leg", '3', PlannerVectorParam_WeightLegForceRate, '-'},
  {"w_amom_final", '3', PlannerVectorParam_WeightFinalAngularMomentum, '-'}, {"w_lmom_final", '3', PlannerVectorParam_WeightFinalLinearMomentum, '-'}, {"w_com_track", '3', PlannerVectorParam_WeightDynamicTrackingCenterOfMass, '-'},
  {"w_lmom_track", '3', PlannerVectorParam_WeightDynamicTrackingLinearMomentum, '-'}, {"w_amom_track", '3', PlannerVectorParam_WeightDynamicTrackingAngularMomentum, '-'}, {"w_time", 'd', PlannerDoubleParam_WeightTimeRegularization, 't'},
  {"w_time_penalty", 'd', PlannerDoubleParam_WeightTimePenalty, 't'}, {"w_kin_com", '3', PlannerVectorParam_WeightKinematicTrackingCenterOfMass, 'k'}, {"w_kin_lmom", '3', PlannerVectorParam_WeightKinematicTrackingLinearMomentum, 'k'},
  {"w_kin_amom", '3', PlannerVectorParam_WeightKinematicTrackingAngularMomentum, 'k'}, {"w_kin_lmomd", '3', PlannerVectorParam_WeightKinematicTrackingLinearMomentumRate, 'k'}, {"w_kin_amomd", '3', PlannerVectorParam_WeightKinematicTrackingAngularMomentumRate, 'k'},
  {"w_kin_eff_pos", '3', PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition, 'k'}, {"w_kin_base_ori", '3', PlannerVectorParam_WeightKinematicTrackingBaseOrientation, 'k'}, {"w_kin_joint_vel", 'X', PlannerVectorParam_WeightJointVelocity, 'k'},
  {"w_kin_joint_acc", 'X', PlannerVectorParam_WeightJointAcceleration, 'k'}, {"slacks_penalty", 'd', PlannerDoubleParam_KinSlacksPenalty, 'k'}, {"integration_step", 'd', PlannerDoubleParam_KinIntegrationStep, 'k'},
  {"w_kin_eff_pos_nonact", '3', PlannerVectorParam_WeightKinematicTrackingNonActiveEndeffectorPosition, 'k'}, {"w_kin_default_joints", 'X', PlannerVectorParam_WeightKinematicDefaultJointPositions, 'k'}, {"max_trajectory_iters", 'i', PlannerIntParam_MaxKinTrajectoryIterations, 'k'},
  {"max_convergence_iters", 'i', PlannerIntParam_MaxKinConvergenceIterations, 'k'}, {"convergence_tolerance", 'd', PlannerDoubleParam_KinConvergenceTolerance, 'k'}, {"lambda_regularization", 'd', PlannerDoubleParam_LambdaRegularization, 'k'},
  {"use_second_order_inv_kin", 'b', PlannerBoolParam_UseSecondOrderInverseKinematics, 'k'}, {"swing_traj_via_z_second", 'd', PlannerDoubleParam_SwingTrajViaZ_Second, '2'}, {"w_lin_mom_tracking_second", 'd', PlannerDoubleParam_WeightLinMomentumTracking_Second, '2'},
  {"w_ang_mom_tracking_second", 'd', PlannerDoubleParam_WeightAngMomentumTracking_Second, '2'}, {"w_endeff_contact_second", 'd', PlannerDoubleParam_WeightEndEffContact_Second, '2'}, {"w_endeff_tracking_second", 'd', PlannerDoubleParam_WeightEndEffTracking_Second, '2'},
  {"p_endeff_tracking_second", 'd', PlannerDoubleParam_PGainEndEffTracking_Second, '2'}, {"p_com_tracking_second", 'd', PlannerDoubleParam_PGainComTracking_Second, '2'}, {"w_joint_regularization_second", 'd', PlannerDoubleParam_WeightJointReg_Second, '2'},
  {"d_endeff_tracking_second", 'd', PlannerDoubleParam_DGainEndEffTracking_Second, '2'}, {"p_orient_tracking_second", 'd', PlannerDoubleParam_PGainBaseOrientationTracking_Second, '2'}, {"d_orient_tracking_second", 'd', PlannerDoubleParam_DGainBaseOrientationTracking_Second, '2'},
  {"p_joint_regularization_second", 'd', PlannerDoubleParam_PGainJointRegularization_Second, '2'}, {"d_joint_regularization_second", 'd', PlannerDoubleParam_DGainJointRegularization_Second, '2'}, {"p_mom_tracking_second", 'X', PlannerVectorParam_PGainMomentumTracking_Second, '2'},
  {"num_joint_viapoints_second", 'i', PlannerIntParam_NumJointViapoints_Second, '2'}, {"num_base_viapoints_second", 'i', PlannerIntParam_NumBaseViapoints_Second, '2'}, {"swing_traj_via_z", 'd', PlannerDoubleParam_SwingTrajViaZ, '1'},
  {"w_lin_mom_tracking", 'd', PlannerDoubleParam_WeightLinMomentumTracking, '1'}, {"w_ang_mom_tracking", 'd', PlannerDoubleParam_WeightAngMomentumTracking, '1'}, {"w_endeff_contact", 'd', PlannerDoubleParam_WeightEndEffContact, '1'},
  {"w_endeff_tracking", 'd', PlannerDoubleParam_WeightEndEffTracking, '1'}, {"p_endeff_tracking", 'd', PlannerDoubleParam_PGainEndEffTracking, '1'}, {"p_com_tracking", 'd', PlannerDoubleParam_PGainComTracking, '1'},
  {"w_joint_regularization", 'd', PlannerDoubleParam_WeightJointReg, '1'}, {"reg_orientation", 'd', PlannerDoubleParam_PGainOrientationTracking, '1'}, {"reg_joint_position", 'd', PlannerDoubleParam_PGainPositionTracking, '1'},
  {"num_joint_viapoints", 'i', PlannerIntParam_NumJointViapoints, '1'}, {"num_base_viapoints", 'i', PlannerIntParam_NumBaseViapoints, '1'}, {"store_data", 'b', PlannerBoolParam_StoreData, '-'},
  {"use_default_solver_setting", 'b', PlannerBoolParam_UseDefaultSolverSetting, '-'},
};
static const Row SOLVER[] = {
  {"BnB_verbose", 'b', solver::SolverBoolParam_BnBVerbose, '-'}, {"BnB_max_iterations", 'i', solver::SolverIntParam_BnBMaxIters, '-'}, {"BnB_integer_tolerance", 'd', solver::SolverDoubleParam_BnBIntegerTol, '-'},
  {"BnB_absolute_suboptimality_gap", 'd', solver::SolverDoubleParam_BnBAbsSubOptGap, '-'}, {"BnB_relative_suboptimality_gap", 'd', solver::SolverDoubleParam_BnBRelSubOptGap, '-'}, {"feasibility_tolerance", 'd', solver::SolverDoubleParam_FeasibilityTol, '-'},
  {"absolute_suboptimality_gap", 'd', solver::SolverDoubleParam_DualityGapAbsTol, '-'}, {"relative_suboptimality_gap", 'd', solver::SolverDoubleParam_DualityGapRelTol, '-'}, {"feasibility_tolerance_inaccurate", 'd', solver::SolverDoubleParam_FeasibilityTolInacc, '-'},
  {"absolute_suboptimality_gap_inaccurate", 'd', solver::SolverDoubleParam_DualityGapAbsTolInacc, '-'}, {"relative_suboptimality_gap_inaccurate", 'd', solver::SolverDoubleParam_DualityGapRelTolInacc, '-'}, {"equil_iterations", 'i', solver::SolverIntParam_EquilibrationIters, '-'},
  {"dyn_reg_thresh", 'd', solver::SolverDoubleParam_DynamicRegularizationThresh, '-'}, {"lin_sys_accuracy", 'd', solver::SolverDoubleParam_LinearSystemAccuracy, '-'}, {"err_reduction_factor", 'd', solver::SolverDoubleParam_ErrorReductionFactor, '-'},
  {"num_iter_ref_lin_solve", 'i', solver::SolverIntParam_NumIterRefinementsLinSolve, '-'}, {"static_regularization", 'd', solver::SolverDoubleParam_StaticRegularization, '-'}, {"dynamic_regularization", 'd', solver::SolverDoubleParam_DynamicRegularization, '-'},
  {"safeguard", 'd', solver::SolverDoubleParam_SafeGuard, '-'}, {"min_step_length", 'd', solver::SolverDoubleParam_MinimumStepLength, '-'}, {"max_step_length", 'd', solver::SolverDoubleParam_MaximumStepLength, '-'},
  {"min_centering_step", 'd', solver::SolverDoubleParam_MinimumCenteringStep, '-'}, {"max_centering_step", 'd', solver::SolverDoubleParam_MaximumCenteringStep, '-'}, {"step_length_scaling", 'd', solver::SolverDoubleParam_StepLengthScaling, '-'},
  {"verbose", 'b', solver::SolverBoolParam_Verbose, '-'}, {"max_iters", 'i', solver::SolverIntParam_MaxIters, '-'}, {"ipsolver_max_iters", 'i', solver::SolverIntParam_SolverMaxIters, '-'},
  {"ipsolver_warm_iters", 'i', solver::SolverIntParam_WarmStartIters, '-'}, {"num_itrefs_trustregion", 'i', solver::SolverIntParam_NumberRefinementsTrustRegion, '-'}, {"trust_region_threshold", 'd', solver::SolverDoubleParam_TrustRegionThreshold, '-'},
  {"soft_constraint_weight_full", 'd', solver::SolverDoubleParam_SoftConstraintWeightFull, '-'}, {"soft_constraint_weight_reduced", 'd', solver::SolverDoubleParam_SoftConstraintWeightReduced, '-'},
};
static const Row LQR[] = {
  {"verbosity", 'i', solverlqr::SolverLqrIntParam_Verbosity, '-'}, {"lqr_max_iters", 'i', solverlqr::SolverLqrIntParam_LqrMaxIterations, '-'}, {"decimal_digits", 'i', solverlqr::SolverLqrIntParam_PrecisionDigits, '-'},
  {"bpass_regularization_type", 'i', solverlqr::SolverLqrIntParam_BackPassRegulatizationType, '-'}, {"cost_change_tolerance", 'd', solverlqr::SolverLqrDoubleParam_CostChangeTolerance, '-'}, {"divergence_limit_check", 'd', solverlqr::SolverLqrDoubleParam_DivergenceLimitCheck, '-'},
  {"bpass_min_regularization", 'd', solverlqr::SolverLqrDoubleParam_BackPassMinRegularization, '-'}, {"bpass_max_regularization", 'd', solverlqr::SolverLqrDoubleParam_BackPassMaxRegularization, '-'}, {"control_gradient_tolerance", 'd', solverlqr::SolverLqrDoubleParam_ControlGradientTolerance, '-'},
  {"bpass_initial_regularization", 'd', solverlqr::SolverLqrDoubleParam_BackPassInitialRegularization, '-'}, {"min_expected_cost_improvement", 'd', solverlqr::SolverLqrDoubleParam_MinExpectedCostImprovement, '-'}, {"bpass_mult_regularization_incr", 'd', solverlqr::SolverLqrDoubleParam_BackPassMultRegularizationIncr, '-'},
  {"bpass_initial_mult_regularization_incr", 'd', solverlqr::SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr, '-'}, {"store_data", 'b', solverlqr::SolverLqrBoolParam_StoreData, '-'}, {"time_step", 'd', solverlqr::SolverLqrDoubleParam_TimeStep, '-'},
  {"time_horizon", 'd', solverlqr::SolverLqrDoubleParam_TimeHorizon, '-'}, {"state_dimension", 'i', solverlqr::SolverLqrIntParam_StateDimension, '-'}, {"control_dimension", 'i', solverlqr::SolverLqrIntParam_ControlDimension, '-'},
  {"initial_state", 'X', solverlqr::SolverLqrVectorParam_InitialState, '-'}, {"has_control_limits", 'b', solverlqr::SolverLqrBoolParam_HasControlLimits, '-'}, {"min_control_limits", 'X', solverlqr::SolverLqrVectorParam_MinControlLimits, 'l'},
  {"max_control_limits", 'X', solverlqr::SolverLqrVectorParam_MaxControlLimits, 'l'},
};
