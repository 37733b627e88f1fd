// Planner configurations (written as YAML files, loaded through the library) and random walking scenarios.
#pragma once
#include "vk.hpp"
#include <array>
#include <fstream>
#include <Eigen/Eigen>
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/cntopt/TerrainDescription.hpp>
#include <momentumopt/dynopt/DynamicsState.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
namespace mom {
typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q; typedef Eigen::Matrix3d M3; typedef Eigen::VectorXd V;
inline std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
template <class T> inline std::string vec(const T& v) { std::string s = "["; for (int i = 0; i < (int)v.size(); ++i) s += (i ? ", " : "") + num(v[i]); return s + "]"; }
struct Cnt { double t0, t1; V3 p; Q q; int type, terrain; int j0 = 0, j1 = 0; };   // j0/j1: boundary on the step grid (t = j*dt), -1 when off the grid
struct Via { int id; V3 p; Q q; };
struct Eef { bool act = false; V3 p = V3::Zero(), f = V3::Zero(); Q q = Q::Identity(); };
struct Cfg {
  int N = 10, nact = 2, maxtimeit = 30, ndofs = 2; double dt = 0.1; bool kin = false, lincone = true, fixedh = false, store = false, defsolver = true; std::string heuristic = "SoftConstraint", dtstr, horstr;
  double g = 9.81, mass = 60, mu = 0.7, floor = -0.92, minrel = 0.1, maxres = 1e-3, minimp = 1e-5; V3 ext = V3::Zero(), disp = V3::Zero(); Eigen::Vector2d trq{-200, 200}, trange{0.02, 0.2}; Eigen::Vector4d lens{0.82, 0.82, 0.6, 0.6};
  std::array<Eigen::Vector4d, 4> cop; std::array<V3, 4> off; std::vector<Eigen::Vector4d> vias; double wtrqarm = 1, wtrqleg = 1, wtime = 1000, wtimepen = 0;
  V3 wcom{10000, 10000, 10000}, wamom{.5, .5, .5}, wlmom{.01, .001, .001}, wamomd{.1, .4, .1}, wlmomd{.015, .015, .015}, wamomf{10, 10, 10}, wlmomf{10, 10, 10}, wvia{0, 0, 0}, wfarm{.001, .001, .001}, wfleg{.001, .001, .001}, wdarm{0, 0, 0}, wdleg{0, 0, 0}, wct{0, 0, 0}, wat{1, 1, 1}, wlt{.1, .1, .1};
  V3 com{0, 0.15, -0.2}, lmom = V3::Zero(), amom = V3::Zero(); std::array<Eef, 4> eef; std::array<std::vector<Cnt>, 4> cnt; std::array<std::vector<Via>, 4> via; std::vector<std::vector<V3>> regions; std::string solver, kintext;
  Cfg() { for (int i = 0; i < 4; ++i) { cop[i] = Eigen::Vector4d(-.03, .03, -.03, .03); off[i].setZero(); } cop[0] = cop[1] = Eigen::Vector4d(-.03, .03, -.08, .08); off[2] = V3(.2, 0, .48); off[3] = V3(-.2, 0, .48); }
  std::string text() const {
    static const char* id[4] = {"rf", "lf", "rh", "lh"}; std::string s = "initial_robot_configuration:\n  com: " + vec(com) + "\n  lmom: " + vec(lmom) + "\n  amom: " + vec(amom) + "\n  eef_ctrl:\n"; for (int e = 0; e < 4; ++e) s += std::string("    eef_frc_") + id[e] + ": " + vec(eef[e].f) + "\n"; s += "  eef_pose:\n";
    for (int e = 0; e < 4; ++e) { V p(8); p << (eef[e].act ? 1 : 0), eef[e].p, eef[e].q.w(), eef[e].q.x(), eef[e].q.y(), eef[e].q.z(); s += std::string("    eef_") + id[e] + ": " + vec(p) + "\n"; }
    s += "terrain_description:\n  regions: ["; for (size_t i = 0; i < regions.size(); ++i) { s += i ? ", [" : "["; for (size_t k = 0; k < regions[i].size(); ++k) s += (k ? ", " : "") + vec(regions[i][k]); s += "]"; } s += "]\ncontact_plan:\n";
    for (int e = 0; e < 4; ++e) { s += std::string("  effcnt_") + id[e] + ": ["; for (size_t i = 0; i < cnt[e].size(); ++i) { const Cnt& k = cnt[e][i]; V p(11); p << k.t0, k.t1, k.p, k.q.w(), k.q.x(), k.q.y(), k.q.z(), k.type, k.terrain; s += (i ? ", " : "") + vec(p); } s += "]\n"; }
    for (int e = 0; e < 4; ++e) { s += std::string("  effvia_") + id[e] + ": ["; for (size_t i = 0; i < via[e].size(); ++i) { const Via& k = via[e][i]; V p(8); p << k.id, k.p, k.q.w(), k.q.x(), k.q.y(), k.q.z(); s += (i ? ", " : "") + vec(p); } s += "]\n"; }
    auto B = [](bool b) { return b ? "true" : "false"; }; auto kv = [&](const std::string& k, const std::string& v) { s += "  " + k + ": " + v + "\n"; };
    s += "planner_variables:\n"; kv("load_kinematics", B(kin)); if (kin) s += kintext.empty() ? kindefault() : kintext; kv("heuristic", heuristic); kv("n_act_eefs", std::to_string(nact)); kv("time_step", dtstr.empty() ? num(dt) : dtstr); kv("time_horizon", horstr.empty() ? num(N * dt) : horstr); kv("external_force", vec(ext)); kv("com_displacement", vec(disp)); kv("num_com_viapoints", std::to_string(vias.size()));
    s += "  com_viapoints:\n    none: 0\n"; for (size_t i = 0; i < vias.size(); ++i) s += "    via" + std::to_string(i) + ": " + vec(vias[i]) + "\n";
    kv("max_time_iterations", std::to_string(maxtimeit)); kv("max_time_residual_tolerance", num(maxres)); kv("min_time_residual_improvement", num(minimp)); kv("gravity", num(g)); kv("robot_mass", num(mass)); kv("friction_coeff", num(mu)); kv("friction_cone", lincone ? "LinearCone" : "SocCone"); kv("time_range", vec(trange)); kv("torque_range", vec(trq)); kv("is_time_horizon_fixed", B(fixedh)); kv("floor_height", num(floor)); kv("min_rel_height", num(minrel)); kv("max_eef_lengths", vec(lens));
    for (int e = 0; e < 4; ++e) { kv(std::string("cop_range_") + id[e], vec(cop[e])); kv(std::string("eff_offset_") + id[e], vec(off[e])); }
    kv("w_trq_arm", num(wtrqarm)); kv("w_trq_leg", num(wtrqleg)); kv("w_time", num(wtime)); kv("w_time_penalty", num(wtimepen)); kv("w_com", vec(wcom)); kv("w_amom", vec(wamom)); kv("w_lmom", vec(wlmom)); kv("w_amomd", vec(wamomd)); kv("w_lmomd", vec(wlmomd)); kv("w_amom_final", vec(wamomf)); kv("w_lmom_final", vec(wlmomf)); kv("w_com_via", vec(wvia)); kv("w_frc_arm", vec(wfarm)); kv("w_frc_leg", vec(wfleg)); kv("w_dfrc_arm", vec(wdarm)); kv("w_dfrc_leg", vec(wdleg)); kv("w_com_track", vec(wct)); kv("w_amom_track", vec(wat)); kv("w_lmom_track", vec(wlt)); kv("store_data", B(store)); kv("use_default_solver_setting", B(defsolver));
    return s + solver;
  }
  std::string kindefault() const {
    std::string z = "[0"; for (int i = 1; i < ndofs; ++i) z += ", 0"; z += "]"; std::string z6 = "[0, 0, 0, 0, 0, 0"; for (int i = 0; i < ndofs; ++i) z6 += ", 0"; z6 += "]"; std::string a = "["; for (int i = 0; i < ndofs; ++i) a += (i ? ", " : "") + std::to_string(i); a += "]";
    std::string s = "  num_dofs: " + std::to_string(ndofs) + "\n  kd_iterations: 1\n  num_subsamples: 1\n  display_motion: false\n  min_joint_limits: " + z + "\n  max_joint_limits: " + z + "\n  default_joint_positions: " + z + "\n  active_dofs: " + a + "\n";
    for (const char* k : {"w_kin_com", "w_kin_lmom", "w_kin_amom", "w_kin_lmomd", "w_kin_amomd", "w_kin_eff_pos", "w_kin_base_ori", "w_kin_eff_pos_nonact"}) s += std::string("  ") + k + ": [1, 1, 1]\n"; for (const char* k : {"w_kin_joint_vel", "w_kin_joint_acc", "w_kin_default_joints"}) s += std::string("  ") + k + ": " + z6 + "\n";
    for (const char* k : {"slacks_penalty", "integration_step", "convergence_tolerance", "lambda_regularization", "swing_traj_via_z", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_endeff_contact", "w_endeff_tracking", "p_endeff_tracking", "p_com_tracking", "w_joint_regularization", "reg_orientation", "reg_joint_position"}) s += std::string("  ") + k + ": 0.1\n";
    return s + "  max_trajectory_iters: 1\n  max_convergence_iters: 1\n  use_second_order_inv_kin: false\n  num_joint_viapoints: 0\n  num_base_viapoints: 0\n";
  }
};
struct Hush { std::stringstream s; std::streambuf* o; Hush() { o = std::cout.rdbuf(s.rdbuf()); } ~Hush() { std::cout.rdbuf(o); } std::string str() const { return s.str(); } };
// scratch directory of the process
struct Dir { std::string d; Dir() { char b[] = "/tmp/vk-mom-XXXXXX"; char* r = mkdtemp(b); d = r ? r : "/tmp"; } ~Dir() { if (d != "/tmp") { std::string c = "rm -r " + d; if (system(c.c_str())) {} } } std::string put(const std::string& name, const std::string& text) const { std::string f = d + "/" + name; std::ofstream o(f); o << text; return f; } };
inline Dir& dir() { static Dir d; return d; }
inline Q rq(vk::Rng& r, double tilt) { V3 a(r.normal(), r.normal(), r.normal()); a.normalize(); Q q(Eigen::AngleAxisd(r.uni(-tilt, tilt), a)); return q; }
inline V3 rv(vk::Rng& r, double s) { return V3(s * r.uni(-1, 1), s * r.uni(-1, 1), s * r.uni(-1, 1)); }
// decimal text of j*dt as a user writes it
inline std::string dec(double v) { char b[40]; snprintf(b, 40, "%.4f", v); return b; }
inline double decv(double v) { return strtod(dec(v).c_str(), nullptr); }
}
