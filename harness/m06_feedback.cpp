// M06: feedback gains along dynamics plans against an own model of the momentum dynamics and an own Riccati recursion.
#include "common/mom.hpp"
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
#include <solver_lqr/SolverLqr.hpp>
using namespace mom; using namespace momentumopt; using namespace solverlqr; typedef Eigen::MatrixXd MX;
struct Prob { int T, n; bool rk; double mass, grav, init, minreg, incr; V3 R, Qc, Ql, Qa, Fc, Fl, Fa; DynamicsSequence q; DynamicsState ini; };
static V dyn(const Prob& p, const V& x, const V& u, int t) { const DynamicsState& d = p.q.dynamicsState(t); double dt = d.time(); V3 f = V3(0, 0, -p.grav) * p.mass; for (int e = 0; e < p.n; ++e) if (d.endeffectorActivation(e)) f += u.segment<3>(3 * e);
  V y(9); V3 dl = dt * f, dc = dt / p.mass * (V3(x.segment<3>(3)) + dl), c1 = V3(x.head<3>()) + dc, da = V3::Zero(); for (int e = 0; e < p.n; ++e) if (d.endeffectorActivation(e)) da += dt * (d.endeffectorPosition(e) - c1).cross(V3(u.segment<3>(3 * e))); y << dc, dl, da; return y; }
static V nxt(const Prob& p, const V& x, const V& u, int t) { V a = dyn(p, x, u, t); if (!p.rk) return x + a; V b = dyn(p, x + 0.5 * a, u, t), c = dyn(p, x + 0.5 * b, u, t), d = dyn(p, x + c, u, t); return x + (a + 2 * b + 2 * c + d) / 6; }
static V ref(const Prob& p, int t) { const DynamicsState& d = p.q.dynamicsState(t > 0 ? t - 1 : 0); V r(9); r << d.centerOfMass(), d.linearMomentum(), d.angularMomentum(); return r; }
static V wx(const Prob& p, bool fin) { V w(9); if (fin) w << p.Fc, p.Fl, p.Fa; else w << p.Qc, p.Ql, p.Qa; return w; }
static V wu(const Prob& p, int t) { V w = V::Zero(3 * p.n); for (int e = 0; e < p.n; ++e) if (p.q.dynamicsState(t).endeffectorActivation(e)) w.segment<3>(3 * e) = p.R; return w; }
static double cost(const Prob& p, const V& x, const V& u, int t, bool fin) { V e = x - ref(p, t); double v = e.dot(wx(p, fin).cwiseProduct(e)); if (!fin) v += u.dot(wu(p, t).cwiseProduct(u)); return v; }
static std::vector<MX> riccati(const Prob& p, const std::vector<V>& xs, const std::vector<V>& us, double lam) {
  int m = 3 * p.n; std::vector<MX> K(p.T); MX S = 2 * wx(p, true).asDiagonal().toDenseMatrix();
  for (int t = p.T - 1; t >= 0; --t) { MX A(9, 9), B(9, m); double h = 1e-3; for (int i = 0; i < 9; ++i) { V a = xs[t], b = a; a[i] += h; b[i] -= h; A.col(i) = (nxt(p, a, us[t], t) - nxt(p, b, us[t], t)) / (2 * h); } for (int i = 0; i < m; ++i) { V a = us[t], b = a; a[i] += h; b[i] -= h; B.col(i) = (nxt(p, xs[t], a, t) - nxt(p, xs[t], b, t)) / (2 * h); }
    MX H = 2 * wu(p, t).asDiagonal().toDenseMatrix() + B.transpose() * S * B + lam * MX::Identity(m, m), G = B.transpose() * S * A; for (int i = 0; i < m; ++i) if (H(i, i) == 0) H(i, i) = 1; K[t] = -H.ldlt().solve(G); S = (2 * wx(p, false).asDiagonal().toDenseMatrix() + A.transpose() * S * A + G.transpose() * K[t]).eval(); S = 0.5 * (S + S.transpose()).eval(); }
  return K;
}
static bool samestate(const DynamicsState& a, const DynamicsState& b) { bool s = a.time() == b.time() && a.centerOfMass() == b.centerOfMass() && a.linearMomentum() == b.linearMomentum() && a.angularMomentum() == b.angularMomentum() && a.linearMomentumRate() == b.linearMomentumRate() && a.angularMomentumRate() == b.angularMomentumRate(); for (int e = 0; e < 4; ++e) s = s && a.endeffectorForce(e) == b.endeffectorForce(e) && a.endeffectorCoP(e) == b.endeffectorCoP(e) && a.endeffectorTorque(e) == b.endeffectorTorque(e) && a.endeffectorPosition(e) == b.endeffectorPosition(e) && a.endeffectorActivation(e) == b.endeffectorActivation(e) && a.endeffectorOrientation(e).coeffs() == b.endeffectorOrientation(e).coeffs() && a.endeffectorContactId(e) == b.endeffectorContactId(e); return s; }
static Prob problem(vk::Rng& r, const Prob* like) {
  Prob p; if (like) p = *like; else { p.T = r.irange(1, 8); p.n = r.irange(1, 4); p.rk = r.chance(0.3); p.mass = r.logu(1, 8); p.grav = r.chance(0.7) ? 9.81 : r.uni(2, 12); p.init = r.chance(0.5) ? 0.0 : r.chance(0.7) ? 0.1 : r.logu(1e-2, 1); p.minreg = 1e-6; p.incr = r.uni(1.1, 2);
    auto w = [&](double lo, double hi) { return V3(r.logu(lo, hi), r.logu(lo, hi), r.logu(lo, hi)); }; p.R = w(5e-4, 5e-3); p.Qc = w(.3, 5); p.Ql = w(.03, .5); p.Qa = w(.03, .5); p.Fc = w(.3, 5); p.Fl = w(.03, .5); p.Fa = w(.03, .5); if (r.chance(0.2)) p.Fa[1] = p.Fl[1] = p.Fc[1] = 0; }
  p.q = DynamicsSequence(); p.q.resize(p.T); bool flight = r.chance(0.5); double dt = r.logu(5e-3, 0.1); bool tv = r.chance(0.3); V3 c = rv(r, 0.1) + V3(0, 0, .3);
  for (int t = 0; t < p.T; ++t) { DynamicsState& d = p.q.dynamicsState(t); d.time() = tv ? dt * r.uni(.5, 1.5) : dt; c += rv(r, 0.01); d.centerOfMass() = c; d.linearMomentum() = rv(r, p.mass * 0.2); d.angularMomentum() = rv(r, 0.2); int act = 0; for (int e = 0; e < p.n; ++e) { bool a = !flight || r.chance(0.7); d.endeffectorActivation(e) = a; act += a; } for (int e = 0; e < 4; ++e) { d.endeffectorPosition(e) = V3(e % 2 ? -.2 : .2, e / 2 ? -.2 : .2, 0) + rv(r, 0.03); d.endeffectorForce(e) = d.endeffectorActivation(e) || r.chance(0.1) ? V3(V3(0, 0, act ? 1.0 / act : 0) + rv(r, 0.2)) : V3(V3::Zero()); } }
  p.ini = DynamicsState(); p.ini.centerOfMass() = p.q.dynamicsState(0).centerOfMass() + rv(r, 0.02); p.ini.linearMomentum() = rv(r, p.mass * 0.2); p.ini.angularMomentum() = rv(r, 0.2); return p;
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; Prob p = problem(r, nullptr); int m = 3 * p.n, iters = r.chance(0.7) ? 1 : r.irange(2, 30); PlannerSetting st; SolverLqrSetting ls; Cfg g; g.mass = p.mass; g.g = p.grav; g.nact = p.n; g.N = p.T; g.dt = 0.1; g.dtstr = dec(0.1); g.horstr = dec(p.T * 0.1);
  std::ostringstream y; y << "solverlqr_dynamics:\n  verbosity: 0\n  decimal_digits: 4\n  lqr_max_iters: " << iters << "\n  linesearch_coeff: 1.1\n  linesearch_num_coeffs: 10\n  cost_change_tolerance: 1e-9\n  divergence_limit_check: 1e6\n  bpass_regularization_type: 2\n  bpass_min_regularization: " << num(p.minreg) << "\n  bpass_max_regularization: 1e10\n  control_gradient_tolerance: 1e-9\n  bpass_initial_regularization: " << num(p.init) << "\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: " << num(p.incr) << "\n  bpass_initial_mult_regularization_incr: 1.0\n  problem_name: x\n  time_step: 0.1\n  time_horizon: " << dec(p.T * 0.1) << "\n  state_dimension: 9\n  control_dimension: " << m << "\n  initial_state: [0, 0, 0, 0, 0, 0, 0, 0, 0]\n  has_control_limits: false\n  store_data: false\n  use_runge_kutta: false\n  user_parameters:\n";
  auto kv = [&](const char* k, const V3& v) { y << "    " << k << ": " << vec(v) << "\n"; }; kv("control_cost", p.R); kv("com_tracking", p.Qc); kv("lmom_tracking", p.Ql); kv("amom_tracking", p.Qa); kv("com_final_tracking", p.Fc); kv("lmom_final_tracking", p.Fl); kv("amom_final_tracking", p.Fa);
  { Hush h; std::string f1 = dir().put("p.yaml", g.text()), f2 = dir().put("l.yaml", y.str()); st.initialize(f1); ls.initialize(f2, "solverlqr_dynamics"); if (!c.require("setting_loads", h.str().empty(), h.str())) return; } ls.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = p.rk; if (!c.require("steps", ls.get(SolverLqrIntParam_TimeDimension) == p.T, VKS(ls.get(SolverLqrIntParam_TimeDimension) << " " << p.T))) return;
  DynamicsFeedbackWrapper w; { Hush h; w.initialize(ls, st); } int rounds = r.irange(1, 3);
  for (int k = 0; k < rounds; ++k) { if (k) { Prob n = problem(r, &p); p = n; c.count("replanned"); } std::string ws = VKS("steps " << p.T << " effectors " << p.n << (p.rk ? " rk" : "") << " iterations " << iters << " plan " << k << " regularization " << p.init); c.sig += VKS(p.T << p.n << p.rk << iters << "|");
    if (r.chance(0.1)) { DynamicsSequence bad; bad.resize(p.T + r.irange(1, 2)); bool threw = false; try { Hush h; w.optimize(p.ini, bad); } catch (const std::runtime_error&) { threw = true; } c.require("wrong_length_reported", threw, ws); }
    DynamicsSequence before = p.q; { Hush h; w.optimize(p.ini, p.q); } bool same = p.q.size() == before.size(); for (int t = 0; same && t < p.T; ++t) same = samestate(p.q.dynamicsState(t), before.dynamicsState(t)); c.require("plan_unchanged", same, ws);
    // the same problem with the solver driven by hand
    DynamicsFeedback f; SolverLqr s; { Hush h; f.initialize(ls); f.setPlannerSetting(st); s.initialize(&f, ls); f.setStatesAndControls(p.ini, p.q); } OcpBase& o = f;
    std::vector<V> xs(1, V(9)), us; xs[0] << p.ini.centerOfMass(), p.ini.linearMomentum(), p.ini.angularMomentum(); double J0 = 0, J1 = 0; bool inactive = false;
    for (int t = 0; t < p.T; ++t) { V u = V::Zero(m); for (int e = 0; e < p.n; ++e) { if (p.q.dynamicsState(t).endeffectorActivation(e)) u.segment<3>(3 * e) = p.mass * p.grav * p.q.dynamicsState(t).endeffectorForce(e); else inactive = true; } us.push_back(u); c.check("starts_from_planned_forces", (o.controlSeq().control(t).feedforward() - u).norm(), 1e-9 * (1 + u.norm()), ws); J0 += cost(p, xs[t], u, t, false); xs.push_back(nxt(p, xs[t], u, t)); }
    J0 += cost(p, xs[p.T], V::Zero(m), p.T, true); c.check("starts_from_initial_state", (o.stateSeq().state(0).stateVector() - xs[0]).norm(), 0, ws); if (c.nviol) return;
    for (int i = 0; i < 4; ++i) { int t = r.irange(0, p.T - 1); StateBase x(9); ControlBase u(9, m); for (int a = 0; a < 9; ++a) x.stateVector()[a] = r.normal() * 0.5; for (int a = 0; a < m; ++a) u.feedforward()[a] = r.normal() * p.mass * 3; V d = dyn(p, x.stateVector(), u.feedforward(), t); StateBase z = o.dynamics(x, u, t); c.check("momentum_dynamics", (z.stateVector() - d).norm(), 1e-11 * (1 + d.norm() + u.feedforward().norm()), VKS(ws << " step " << t)); double a = o.objective(x, u, t, false), b = cost(p, x.stateVector(), u.feedforward(), t, false); c.check("tracking_cost", std::abs(a - b), 1e-11 * (1 + std::abs(b)), VKS(ws << " step " << t)); a = o.objective(x, ControlBase(9, m), p.T, true); b = cost(p, x.stateVector(), V::Zero(m), p.T, true); c.check("final_cost", std::abs(a - b), 1e-11 * (1 + std::abs(b)), ws); if (c.nviol) return; }
    { Hush h; s.optimize(); } std::vector<V> xf, uf; double gn = 0; for (int t = 0; t < p.T; ++t) { MX K = o.controlSeq().control(t).feedback(); gn += K.norm(); MX W = w.forceGain(t); std::string wt = VKS(ws << " step " << t); if (!c.require("gain_size", W.rows() == m && W.cols() == 9 && W.allFinite(), wt)) return; c.check(k ? "reused_gives_the_gains_of_a_new_one" : "wrapper_gives_the_solver_gains", (K - W).norm(), 0, wt); for (int e = 0; e < p.n; ++e) if (!p.q.dynamicsState(t).endeffectorActivation(e)) { /* without regularisation the problem is singular in flight: the differencing noise decides */ double z = W.middleRows(3 * e, 3).norm(); if (p.init > 0) { c.check("no_gain_without_contact", z, 1e-6 * (1 + W.norm()) + 1e-5 * (J0 / p.T + 0.01) / p.init, wt); c.count("inactive_effector_steps"); } else { c.count("singular_effector_steps"); if (z > 1e-6 * (1 + W.norm())) c.count("singular_noise"); } } if (c.nviol) return; xf.push_back(o.stateSeq().state(t).stateVector()); uf.push_back(o.controlSeq().control(t).feedforward()); J1 += cost(p, xf[t], uf[t], t, false); }
    J1 += cost(p, o.stateSeq().state(p.T).stateVector(), V::Zero(m), p.T, true); c.check("cost_not_increased", J1 - J0, 1e-9 * (1 + J0), VKS(ws << " from " << J0 << " to " << J1)); c.require("out_of_range_steps", w.forceGain(-1 - r.irange(0, 3)) == w.forceGain(0) && w.forceGain(p.T + r.irange(0, 9)) == w.forceGain(p.T - 1), ws);
    c.count("plans"); if (gn == 0) { c.count("no_step_accepted"); continue; } c.nontrivial = true; double lam = p.init; if (inactive && lam == 0) { lam = p.minreg; c.count("regularized_by_flight"); }
    if (iters == 1) { std::vector<MX> K = riccati(p, xs, us, lam); double e = 0, n = 0; for (int t = 0; t < p.T; ++t) { e = std::max(e, (K[t] - w.forceGain(t)).norm()); n = std::max(n, K[t].norm()); } double noise = 2e-6 * (J0 / p.T + 0.01) / p.R.minCoeff(); if (p.init == 0 && inactive) { c.count("singular"); if (!(e <= (3e-5 + 3 * noise) * (n + 1e-3))) c.count("singular_differs"); continue; } c.check("gains_are_riccati", e, (3e-5 + 3 * noise) * (n + 1e-3), VKS(ws << " gain norm " << n << " cost " << J0)); if (noise < 1e-3) c.count("sharp"); if (lam == 0) c.count("unregularized"); }
    else { std::vector<V> xr; V x = xs[0]; for (int t = 0; t < p.T; ++t) { c.check("solution_is_a_motion", (xf[t] - x).norm(), 1e-8 * (1 + x.norm()), VKS(ws << " step " << t)); x = nxt(p, x, uf[t], t); if (c.nviol) return; } c.count("iterated"); if (p.init == 0) { std::vector<MX> K = riccati(p, xf, uf, lam); double e = 0, n = 0; for (int t = 0; t < p.T; ++t) { e = std::max(e, (K[t] - w.forceGain(t)).norm()); n = std::max(n, K[t].norm()); } c.count("iterated_compared"); if (e > 0.02 * (n + 1e-3)) c.count("iterated_differs"); } }
    if (c.nviol) return; }
}
int main(int argc, char** argv) { dir(); return vk::run(argc, argv, "m06_feedback", one); }
