#include "conic.hpp"
using namespace cp;
// separable programs whose weights span many orders of magnitude: closed-form optimum
static void weights(vk::Case& c) {
  vk::Rng& r = c.rng; int n = r.irange(1, 4); Model m; config(m); std::vector<Var> v; DCPQuadExpr q; LinExpr l = 0.0; std::vector<double> w(n), a(n), lo(n), hi(n); double best = 0; std::string d;
  for (int i = 0; i < n; i++) { v.push_back(m.addVar(VarType::Continuous, -1e9, 1e9)); w[i] = r.logu(2e-5, 1); a[i] = r.sgn() * std::sqrt(r.uni(1, 10) / w[i]); lo[i] = -1e300; hi[i] = 1e300; d += VKS(" " << w[i]);
    if (r.chance(0.4)) { double f = r.uni(0.2, 1.5); if (a[i] > 0) { hi[i] = f * a[i]; m.addLinConstr(LinExpr(v[i]), "<", LinExpr(hi[i])); } else { lo[i] = f * a[i]; m.addLinConstr(LinExpr(v[i]), ">", LinExpr(lo[i])); } } }
  int form = r.irange(0, 1);   // weight in the objective or in a quadratic constraint w (x - a)^2 <= t
  for (int i = 0; i < n; i++) { double x = std::min(hi[i], std::max(lo[i], a[i])); best += w[i] * (x - a[i]) * (x - a[i]);
    if (form == 0) q.addQuaTerm(w[i], LinExpr(v[i]) - LinExpr(a[i])); else { Var t = m.addVar(VarType::Continuous, -1e9, 1e9); DCPQuadExpr k; k.addQuaTerm(w[i], LinExpr(v[i]) - LinExpr(a[i])); m.addQuaConstr(k, "<", LinExpr(t)); l += LinExpr(t); } }
  m.setObjective(q, l); ExitCode e = m.optimize(); double f = 0; for (int i = 0; i < n; i++) { double x = values(v)[i]; f += w[i] * (x - a[i]) * (x - a[i]); }
  c.sig = VKS("weights" << n << form << d); c.nontrivial = true; c.count(std::string("weights:") + ecName(e)); c.sample = VKS("separable weights" << d << " form " << form << " f*=" << best << " -> " << ecName(e) << " f=" << f);
  c.require("weights_reported_solvable", e != ExitCode::PrimalInf && e != ExitCode::DualInf && e != ExitCode::PrimalInfInacc && e != ExitCode::DualInfInacc, c.sample);
  c.count("weights"); if (e == ExitCode::Optimal) c.check("weights_objective", std::abs(f - best), 0.01, c.sample); else c.count("weights_not_full_precision");
}
static void one(vk::Case& c) {
  if (c.id % 6 == 5) { weights(c); return; }
  Planted P = plant(c.rng, c.rng.chance(0.15) ? 20 : 8);
  Model m; config(m);
  auto v = addVars(m, P.p);
  for (auto& k : P.p.cons) addCon(m, k, v, c.rng);
  setObj(m, P.p.obj, v, c.rng);
  ExitCode e = m.optimize();
  VectorXd x = values(v);
  c.sig = P.p.sig(); c.nontrivial = !P.p.cons.empty() || P.unique;
  c.count(std::string("exit:") + ecName(e));
  c.sample = VKS(c.sig << " bounded by " << P.bounding << " f*=" << P.f << " -> " << ecName(e) << " f=" << P.p.obj(x) << " viol=" << P.p.maxviol(x));
  bool stalled = e == ExitCode::ReachMaxIters || e == ExitCode::PrSearchDirection || e == ExitCode::PrSlacksLeaveCone || e == ExitCode::PrProjection;
  c.count("solves"); if (stalled) c.count("stalled");  // numerical stall: bounded by a rate clause; wrong verdicts are never tolerated
  else c.require("reported_optimal", e == ExitCode::Optimal || e == ExitCode::OptimalInacc, VKS(c.sample));
  if (e == ExitCode::OptimalInacc) c.count("reduced_precision");
  if (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) {
    double lo = e == ExitCode::Optimal ? 1 : 1e3;
    int w = -1; double mv = P.p.maxviol(x, &w), xs = 1 + std::max(x.norm(), P.x.norm());
    c.check("constraint_violation", mv / xs, 2e-6 * lo, VKS(c.sample << " worst con kind " << (w >= 0 ? P.p.cons[w].k : -1)));
    double fs = 1 + std::abs(P.f) + P.p.obj.l.a.norm() * xs;
    c.check("objective_gap", std::abs(P.p.obj(x) - P.f) / fs, 2e-6 * lo, c.sample);
    if (P.unique) c.check("unique_minimiser", (x - P.x).norm() / xs, 3e-3 * lo, c.sample);
  }
}
int main(int argc, char** argv) { return vk::run(argc, argv, "s01", one); }
