// L02: nonlinear problems: dynamically consistent, never worse, monotone over iterations, reusable.
#include "lqr.hpp"
#include <memory>
static SolverLqrSetting opts(vk::Rng& r, int T, int nx, int nu) {
  SolverLqrSetting s = settings(T, nx, nu); s.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = r.chance(0.4); s.get(SolverLqrDoubleParam_BackPassInitialRegularization) = r.pick(std::vector<double>{0, 0.1, 1}); s.get(SolverLqrDoubleParam_CostChangeTolerance) = r.pick(std::vector<double>{1e-12, 1e-9, 1e-5}); s.get(SolverLqrDoubleParam_ControlGradientTolerance) = r.pick(std::vector<double>{1e-10, 1e-6, 1e-4});
  s.get(SolverLqrDoubleParam_BackPassMultRegularizationIncr) = r.pick(std::vector<double>{1.2, 1.6, 3}); if (r.chance(0.2)) s.get(SolverLqrDoubleParam_DivergenceLimitCheck) = r.uni(2, 20); s.get(SolverLqrIntParam_LqrMaxIterations) = 100;
  int n = r.irange(1, 11); double b = r.uni(1.05, 2); VectorXd a(n); for (int i = 0; i < n; ++i) a(i) = std::pow(b, -i * i); s.get(SolverLqrVectorParam_LineSearchCoeffs) = a; return s;
}
struct Out { StateSequence x; ControlSequence u; };
static bool same(const Out& a, const Out& b) { if (a.x.size() != b.x.size() || a.u.size() != b.u.size()) return false; for (int t = 0; t < a.x.size(); ++t) if (a.x.state(t).stateVector() != b.x.state(t).stateVector()) return false; for (int t = 0; t < a.u.size(); ++t) if (a.u.control(t).feedforward() != b.u.control(t).feedforward() || a.u.control(t).feedback() != b.u.control(t).feedback()) return false; return true; }
static bool finite(const OcpBase& o) { for (int t = 0; t <= o.tdim(); ++t) if (!o.stateSeq().state(t).stateVector().allFinite()) return false; return true; }
static std::unique_ptr<Watched> problem(vk::Rng r, int T, int nx, int nu, bool lq) { if (lq) { auto o = std::make_unique<LqOcp>(); o->gen(r, T, nx, nu, true); return o; } auto o = std::make_unique<SinOcp>(); o->gen(r, T, nx, nu); return o; }
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; SolverLqr shared; int rounds = r.irange(1, 3); std::unique_ptr<Watched> reuse;
  SolverLqrSetting keep[4]; std::vector<std::unique_ptr<Watched>> alive;
  for (int k = 0; k < rounds; ++k) {
    int nx = r.irange(1, 5), nu = r.irange(1, 3), T = r.irange(1, r.chance(0.2) ? 30 : 12); bool lq = r.chance(0.15); vk::Rng pr(r.next()), gr(r.next()); int gk = r.irange(0, 2); double sc = r.pick(std::vector<double>{0.3, 1, 4}); VectorXd x0 = rnd(r, nx, 1, 1); SolverLqrSetting s = opts(r, T, nx, nu); bool lim = r.chance(c.tier == "quick" ? 0.05 : 0.12); VectorXd lo(nu), hi(nu);
    if (lim) { if (T > 6) { T = 6; s.get(SolverLqrIntParam_TimeDimension) = 6; } for (int i = 0; i < nu; ++i) { double a = r.uni(-0.3, 0.3), w = r.uni(0.1, 1.5); lo(i) = a - w; hi(i) = a + w; } s.get(SolverLqrBoolParam_HasControlLimits) = true; s.get(SolverLqrVectorParam_MinControlLimits) = lo; s.get(SolverLqrVectorParam_MaxControlLimits) = hi; s.get(SolverLqrIntParam_LqrMaxIterations) = 6; }
    c.sig += VKS(nx << "x" << nu << "x" << T << (lq ? "q" : "n") << "g" << gk << (lim ? "l " : " ")); if (T > 1) c.nontrivial = true; std::string sg = c.sig;
    auto setup = [&](Watched& o) { o.c = &c; o.initialize(s); vk::Rng g2 = gr; guess(g2, o, x0, gk, sc); };
    // fresh objects, increasing iteration limits: cost is monotone over accepted iterations
    int full = s.get(SolverLqrIntParam_LqrMaxIterations); std::vector<double> Js; Out last; bool div = false; double J0 = 0;
    for (int it : {0, 1, 2, 3, 5, 9, full}) {
      if (it > full) continue; auto o = problem(pr, T, nx, nu, lq); s.get(SolverLqrIntParam_LqrMaxIterations) = it; setup(*o); Out before{o->stateSeq(), o->controlSeq()};
      VectorXd al = s.get(SolverLqrVectorParam_LineSearchCoeffs); double lim_div = s.get(SolverLqrDoubleParam_DivergenceLimitCheck); J0 = NAN; std::vector<VectorXd> u0;
      for (int i = 0; i < al.size(); ++i) {  // the guess as executed: scaled down until it stays bounded
        std::vector<VectorXd> u; VectorXd x = x0; bool bad = false; double J = 0; for (int t = 0; t < T; ++t) { VectorXd v = al(i) * before.u.control(t).feedforward() + before.u.control(t).feedback() * (x - before.x.state(t).stateVector()); if (lim) v = v.cwiseMax(lo).cwiseMin(hi); u.push_back(v); J += o->l(x, v, t, false); x = o->step(x, v, t); if (x.cwiseAbs().maxCoeff() > lim_div) bad = true; }
        J += o->l(x, VectorXd::Zero(nu), T, true); if (!bad) { J0 = J; u0 = u; break; }
      }
      SolverLqr q; q.initialize(o.get(), s); q.optimize(); c.count("optimised"); Out got{o->stateSeq(), o->controlSeq()};
      if (!c.require("sizes", got.x.size() == T + 1 && got.u.size() == T, sg)) return;
      if (std::isnan(J0)) { c.require("diverging_guess_untouched", same(before, got), sg); c.count("diverged"); div = true; last = got; break; }
      if (!c.require("finite", finite(*o), sg)) return;
      std::vector<VectorXd> xs; double J = o->cost(ffs(*o), x0, &xs), d = 0, xm = 1; for (int t = 0; t <= T; ++t) { d = std::max(d, (xs[t] - got.x.state(t).stateVector()).cwiseAbs().maxCoeff()); xm = std::max(xm, xs[t].cwiseAbs().maxCoeff()); }
      c.check("states_are_the_rollout", d / xm, 1e-9, sg); c.require("initial_state_kept", got.x.state(0).stateVector() == x0, sg); c.check("within_divergence_limit", xm, std::max(1.0, lim_div) * (1 + 1e-9), sg);
      c.check("cost_not_above_guess", (J - J0) / (1 + std::abs(J0)), 1e-9, VKS(sg << " iterations " << it << " J " << J << " guess " << J0));
      if (it == 0) { double e = 0; for (int t = 0; t < T; ++t) e = std::max(e, (u0[t] - got.u.control(t).feedforward()).cwiseAbs().maxCoeff()); c.check("guess_executed", e / (1 + sc), 1e-9, sg); }
      if (!Js.empty()) c.check("monotone", (J - Js.back()) / (1 + std::abs(J0)), 1e-9, VKS(sg << " iterations " << it << " J " << J << " before " << Js.back())); Js.push_back(J); if (J < J0 - 1e-6 * (1 + std::abs(J0))) c.count("improved");
      if (lim) { bool in = true; for (auto& v : ffs(*o)) in = in && (v - hi).maxCoeff() <= 0 && (lo - v).maxCoeff() <= 0; c.require("inside_limits", in, sg); }
      if (it == full) { last = got;
        // stationary point: re-optimising from the result neither worsens nor (when settled) moves it
        double Jp = J; int again = 0; for (; again < 6; ++again) { SolverLqr q2; q2.initialize(o.get(), s); q2.optimize(); double Jn = o->cost(ffs(*o), x0); c.check("restart_not_worse", (Jn - Jp) / (1 + std::abs(J0)), 1e-9, sg); bool settled = Jp - Jn < 1e-9 * (1 + std::abs(Jp)); Jp = Jn; if (settled) break; }
        if (!lim) { c.count("restarted"); if (again == 6) c.count("unsettled"); else {
          // first-order stationarity of the settled result: no control direction improves it
          double best = 0; auto u = ffs(*o); for (int k2 = 0; k2 < 6; ++k2) { auto v = u; double h = r.logu(1e-4, 1e-2); for (auto& w : v) w += h * rnd(r, nu, 1); double Jv = o->cost(v, x0); best = std::max(best, (Jp - Jv) / (1 + std::abs(Jp)) / h); } c.count("settled"); if (best > 0.02) c.count("settled_not_stationary"); } }
      }
    }
    s.get(SolverLqrIntParam_LqrMaxIterations) = full; (void)div;
    // the same problem through reused solver and problem objects
    alive.push_back(problem(pr, T, nx, nu, lq)); keep[k] = s; Watched& o = *alive.back(); o.c = &c; 
    if (r.chance(0.5)) { SolverLqrSetting s2 = settings(T + 3, nx, nu); o.initialize(s2); c.count("problem_object_reused"); }
    o.initialize(keep[k]); { vk::Rng g2 = gr; guess(g2, o, x0, gk, sc); } c.require("resized", o.stateSeq().size() == T + 1 && o.controlSeq().size() == T, VKS(sg << " " << o.stateSeq().size() << " states for horizon " << T));
    shared.initialize(&o, keep[k]); shared.optimize(); Out got{o.stateSeq(), o.controlSeq()}; if (got.x.size() == last.x.size()) c.require("reused_behaves_like_new", same(got, last), VKS(sg << " round " << k)); if (k) c.count("solver_object_reused");
  }
  c.sample = c.sig.substr(0, 60);
}
int main(int argc, char** argv) { return vk::run(argc, argv, "l02_ddp", one); }
