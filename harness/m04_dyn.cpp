// M04/M05: plans of the dynamics optimizer against the momentum equations and the limits written in the configuration.
#include "common/dyn.hpp"
#ifndef TIMEOPT
#define TIMEOPT 0
#endif
using namespace dyn; using solver::ExitCode;
// solver accuracy varies with the scaling of the program: a hard bound and a rate for the usual accuracy
static void bound(vk::Case& c, const char* key, double v, double tol, const std::string& w) { c.count("compared"); if (!(v <= tol)) c.count("loose"); c.check(key, v, 100 * tol, w); }
static void verify(vk::Case& c, const std::string& w, const Cfg& g, const DynamicsSequence& q, double ctol, const std::function<DynamicsSequence(int)>& again) {
  double mg = g.mass * g.g, tsum = 0; V3 com = g.com, lm = g.lmom, am = g.amom, rcom = g.com, rlm = g.lmom, ram = g.amom; double e2[3] = {0, 0, 0};
  if (!c.require("one_state_per_step", q.size() == g.N, w)) return; double zref = contact(g, 0, 0) >= 0 ? g.cnt[0][contact(g, 0, 0)].p[2] : g.eef[0].p[2]; bool lin = g.lincone;
  for (int s = 0; s < g.N; ++s) { const DynamicsState& d = q.dynamicsState(s); std::string ws = VKS(w << " step " << s << " of " << g.N); double dt = d.time();
    if (!c.require("finite", std::isfinite(dt) && d.centerOfMass().allFinite() && d.linearMomentum().allFinite() && d.angularMomentum().allFinite(), ws)) return;
    V3 F = V3::Zero(), M = V3::Zero(), Mr = V3::Zero(); double fs = 0; V3 rates = V3::Zero();
    for (int e = 0; e < g.nact; ++e) { int k = contact(g, e, s); V3 f = d.endeffectorForce(e), p = d.endeffectorCoP(e), t = d.endeffectorTorque(e); std::string we = VKS(ws << " effector " << e << " force " << f.transpose() << " cop " << p.transpose() << " torque " << t.transpose()); if (!c.require("finite", f.allFinite() && p.allFinite() && t.allFinite(), we)) return; c.require("active_iff_covered", d.endeffectorActivation(e) == (k >= 0), we);
      if (k < 0) { c.check("no_force_without_contact", f.norm() + t.norm() + d.endeffectorTorqueAtContactPoint(e).norm(), 0, we); c.count("inactive_effector_steps"); if (c.nviol) return; continue; }
      c.count("active_effector_steps"); const Cnt& n = g.cnt[e][k]; M3 R = n.q.toRotationMatrix(); F += f; fs += f.norm();
      if (std::min({p[0] - g.cop[e][0], g.cop[e][1] - p[0], p[1] - g.cop[e][2], g.cop[e][3] - p[1]}) < 1e-4) c.count("near_cop_limit"); if (std::min(t[2] - g.trq[0], g.trq[1] - t[2]) < 1e-2) c.count("near_torque_limit"); bound(c, "cop_range", std::max({g.cop[e][0] - p[0], p[0] - g.cop[e][1], g.cop[e][2] - p[1], p[1] - g.cop[e][3], std::abs(p[2])}), 2e-5, we); bound(c, "torque_range", std::max({g.trq[0] - t[2], t[2] - g.trq[1], std::abs(t[0]), std::abs(t[1])}), 2e-3, we);
      V3 fl = R.transpose() * f; if (n.type != 2) { bound(c, "friction_cone", lin ? std::abs(fl[0]) + std::abs(fl[1]) - std::sqrt(2.0) * g.mu * fl[2] : std::hypot(fl[0], fl[1]) - g.mu * fl[2], 2e-5, VKS(we << " local " << fl.transpose() << " mu " << g.mu)); if (std::hypot(fl[0], fl[1]) > 0.95 * g.mu * fl[2]) c.count("near_cone_surface"); } else c.count("free_contacts");
      V3 arm = n.p + R.col(0) * p[0] + R.col(1) * p[1], lc = arm - d.centerOfMass() - g.off[e]; if (lc.norm() > g.lens[e] - 1e-3) c.count("near_reach_limit"); bound(c, "reach", lc.norm() - g.lens[e], TIMEOPT ? 1e-4 : 2e-5, VKS(we << " reach " << lc.norm() << " limit " << g.lens[e])); M += (arm - d.centerOfMass()).cross(mg * f) + R.col(2) * t[2];
      c.check("torque_at_contact_point", (d.endeffectorTorqueAtContactPoint(e) - (t + p.cross(mg * fl))).norm(), 1e-9 * (1 + mg * f.norm()), we); if (c.nviol) return; }
    if (d.centerOfMass()[2] < zref + g.minrel + 1e-3) c.count("near_height_limit"); bound(c, "height", zref + g.minrel - d.centerOfMass()[2], 2e-5, ws); V3 grav(0, 0, -mg);
#if TIMEOPT
    tsum += dt; bound(c, "duration_in_range", std::max(g.trange[0] - dt, dt - g.trange[1]), 1e-5, VKS(ws << " duration " << dt << " range " << g.trange.transpose())); if (std::abs(dt - g.dt) > 1e-3) c.count("durations_changed");
    bound(c, "force_sum_is_momentum_rate", (d.linearMomentumRate() - grav - mg * F).norm(), 1e-5 * mg, ws);
    // motion implied by the returned durations and forces
    rlm += dt * (grav + mg * F); rcom += dt / g.mass * rlm; V3 Mc = V3::Zero(); for (int e = 0; e < g.nact; ++e) { int k = contact(g, e, s); if (k < 0) continue; const Cnt& n = g.cnt[e][k]; M3 R = n.q.toRotationMatrix(); V3 p = d.endeffectorCoP(e); Mc += (n.p + R.col(0) * p[0] + R.col(1) * p[1] - rcom).cross(mg * d.endeffectorForce(e)) + R.col(2) * d.endeffectorTorque(e)[2]; } ram += dt * Mc;
    e2[0] += (d.centerOfMass() - rcom).squaredNorm(); e2[1] += (d.linearMomentum() - rlm).squaredNorm(); e2[2] += (d.angularMomentum() - ram).squaredNorm();
#else
    c.check("duration_is_time_step", std::abs(dt - g.dt), 0, ws); V3 g0 = grav + mg * F + (s == 0 ? V3(mg * g.ext) : V3(V3::Zero()));
    bound(c, "com_integrates_momentum", (d.centerOfMass() - com - dt / g.mass * d.linearMomentum()).norm(), 2e-5, ws); bound(c, "momentum_changes_by_forces", (d.linearMomentum() - lm - dt * g0).norm(), 1e-6 * mg, ws); c.check("angular_momentum_changes_by_moments", (d.angularMomentum() - am - dt * M).norm(), 1e-9 * (1 + mg * fs), ws);
#endif
    if (c.nviol) return; com = d.centerOfMass(); lm = d.linearMomentum(); am = d.angularMomentum(); }
#if TIMEOPT
  if (g.fixedh) { bound(c, "horizon_kept", std::abs(tsum - g.N * g.dt), 1e-5, VKS(w << " total " << tsum << " horizon " << g.N * g.dt)); c.count("fixed_horizons"); }
  double err[3], sc = 1 + ram.norm(); for (int k = 0; k < 3; ++k) err[k] = std::sqrt(e2[k]) / g.N; std::string wr = VKS(w << " residuals com " << err[0] << " linear " << err[1] << " angular " << err[2] << " tolerance " << ctol);
  c.count("converged_den"); if (err[2] < 1e-6 * sc && err[0] < ctol && err[1] < ctol) { c.count("converged"); c.count("obs:momentum_consistent"); return; }
  // not consistent: accepted only when the iteration limit stopped the optimizer, i.e. when one more iteration still changes the plan
  DynamicsSequence more = again(1); bool same = true; for (int s = 0; s < g.N; ++s) same &= more.dynamicsState(s).time() == q.dynamicsState(s).time() && more.dynamicsState(s).centerOfMass() == q.dynamicsState(s).centerOfMass(); if (!same) { c.count("not_converged"); return; }
  c.check("momentum_consistent", err[2], 1e-6 * sc, wr); if (g.minimp == 0) c.check("motion_consistent", std::max(err[0], err[1]), ctol, wr); else if (std::max(err[0], err[1]) > ctol) c.count("stopped_early");
#endif
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; DynamicsOptimizer opt; int rounds = r.chance(TIMEOPT ? 0.15 : 0.3) ? 2 : 1; KinematicsSequence kin; PlannerSetting st; DynamicsState ini; TerrainDescription ter; ContactPlanFromFile cp; int n0 = 0; double dt0 = 0, mu0 = 0;
  for (int k = 0; k < rounds; ++k) { Cfg g = scenario(r, TIMEOPT); if (k && r.chance(0.5)) { Cfg h = scenario(r, TIMEOPT); for (int a = 0; a < 30 && (h.N != n0 || h.dt != dt0); ++a) h = scenario(r, TIMEOPT); g = h; } bool again = k == 0 || r.chance(0.5) || g.N != n0 || g.dt != dt0; if (!again) g.mu = mu0; n0 = g.N; dt0 = g.dt; mu0 = g.mu; /* step count, durations and cone are taken over when the optimizer is initialized */ std::string w = VKS(g.heuristic << (g.lincone ? " linear cone" : " cone") << " effectors " << g.nact << " plan " << k); c.sig += VKS(g.heuristic[0] << g.lincone << g.nact << g.N << "|"); for (int e = 0; e < 4; ++e) for (auto& q : g.cnt[e]) c.sig += VKS(e << q.j0 << q.j1 << q.type);
    ExitCode ec; bool track = false; { Hush h; std::string f = dir().put("d.yaml", g.text()); st.initialize(f); ini = DynamicsState(); ini.fillInitialRobotState(f); if (!c.require("setting_loads", h.str().empty(), h.str())) return; kin = KinematicsSequence(); kin.resize(g.N, 2); if (r.chance(0.5)) for (int s = 0; s < g.N; ++s) { kin.kinematicsState(s).linearMomentum() = g.mass * rv(r, 0.05); kin.kinematicsState(s).angularMomentum() = rv(r, 0.3); kin.kinematicsState(s).centerOfMass() = g.com + rv(r, 0.02); }
      cp.initialize(st); cp.optimize(ini, ter); if (again) { opt.initialize(st); c.count("initialized"); } ec = opt.optimize(ini, &cp, kin, track = r.chance(0.3)); if (getenv("VK_CHAT")) fprintf(stderr, "%s", h.str().c_str()); if (!c.require("no_exception", h.str().find("xception") == std::string::npos, h.str())) return; }
    c.count("plans"); c.count(VKS("exit_" << int(ec))); if (ec != ExitCode::Optimal) { c.count("not_solved"); continue; } c.count("solved"); c.nontrivial = true; if (k) c.count("replanned"); verify(c, w, g, opt.dynamicsSequence(), g.maxres, [&](int extra) { Cfg h = g; h.maxtimeit += extra; Hush hush; PlannerSetting s2; std::string f = dir().put("e.yaml", h.text()); s2.initialize(f); DynamicsOptimizer o; o.initialize(s2); o.optimize(ini, &cp, kin, track); return o.dynamicsSequence(); }); if (c.nviol) return; }
}
int main(int argc, char** argv) { dir(); return vk::run(argc, argv, TIMEOPT ? "m05_time" : "m04_dyn", one); }
