// Nonconvex quadratic equalities: trust-region and soft-constraint treatments against (a) the guarantee that follows from
// convexity, (b) a step-by-step re-enactment of the sequential convexification with plain convex models, (c) enumeration of binaries.
#include "conic.hpp"
using namespace cp;
using solver::QuadConstrApprox;
struct Nc { Quad q; bool soft; };
static bool good(ExitCode e) { return e == ExitCode::Optimal || e == ExitCode::OptimalInacc; }
static Aff linz(const Quad& q, const VectorXd& X) { Aff a; a.a = q.grad(X); a.b = q(X) - a.a.dot(X); return a; }
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; int k = r.chance(0.35) ? r.irange(1, 2) : 0, nc = r.irange(1, 4), n = k + nc; Prog p; p.n = n; for (int i = 0; i < k; i++) p.bin.push_back(r.chance(0.5) ? i : n - 1 - i); std::sort(p.bin.begin(), p.bin.end()); p.bin.erase(std::unique(p.bin.begin(), p.bin.end()), p.bin.end()); k = (int)p.bin.size();
  std::vector<char> isb(n, 0); for (int b : p.bin) isb[b] = 1;
  for (int i = 0; i < n; i++) if (!isb[i]) for (int s = -1; s <= 1; s += 2) { Con d; d.k = LE; d.lin = zeroAff(n); d.lin.a[i] = s; d.lin.b = -r.uni(2, 5); p.cons.push_back(d); }
  VectorXd x0(n); for (int i = 0; i < n; i++) x0[i] = isb[i] ? (double)r.irange(0, 1) : r.uni(-1.5, 1.5);
  for (int i = r.irange(0, 2); i > 0; i--) { Con d; d.k = LE; d.lin.a = rvec(r, n); d.lin.b = 0; d.lin.b = -d.lin(x0) - r.uni(0.3, 1); p.cons.push_back(d); }
  if (r.chance(0.3)) { Con d; d.k = SOC; d.s.l = zeroAff(n); for (int j = 0; j < 2; j++) { Aff f; f.a = rvec(r, n); f.b = r.normal(); d.s.t.push_back(f); } d.s.l.b = -d.s.norm(x0) - r.uni(0.5, 1); p.cons.push_back(d); }
  int nn = r.irange(1, 2); std::vector<Nc> ncs; int mode = r.irange(0, 2);  // 0 trust region, 1 soft, 2 both kinds
  for (int i = 0; i < nn; i++) { Nc q; q.soft = mode == 1 || (mode == 2 && i == 1); int t = r.irange(1, 2); q.q.l = r.chance(0.5) ? Aff{rvec(r, n), 0} : zeroAff(n); for (int j = 0; j < t; j++) { Aff f; f.a = rvec(r, n); f.b = 0.5 * r.normal(); q.q.t.push_back(f); q.q.c.push_back(r.uni(0.3, 1)); } q.q.l.b = 0; q.q.l.b = -q.q(x0); ncs.push_back(q); }
  p.obj.l = zeroAff(n); for (int i = 0; i < n; i++) { Aff f = zeroAff(n); f.a[i] = 1; f.b = r.normal(); p.obj.t.push_back(f); p.obj.c.push_back(r.uni(0.5, 2)); }
  int refs = r.irange(0, 5), warm = r.chance(0.5) ? 100 : 0; double thr = r.pick<double>({0.5, 0.3, 0.1}), w = r.logu(1, 1e3);
  auto conf = [&](Model& m) { config(m); m.getSetting().set(solver::SolverIntParam_NumberRefinementsTrustRegion, refs); m.getSetting().set(solver::SolverIntParam_WarmStartIters, warm); m.getSetting().set(solver::SolverDoubleParam_TrustRegionThreshold, thr); m.getSetting().set(solver::SolverDoubleParam_SoftConstraintWeightReduced, w); };
  VectorXd g(n); bool near = r.chance(0.5); for (int i = 0; i < n; i++) g[i] = isb[i] ? r.irange(0, 1) : near ? x0[i] + 0.2 * r.normal() : r.uni(-1.5, 1.5);
  Model m; conf(m); std::vector<Var> v; for (int i = 0; i < n; i++) v.push_back(isb[i] ? m.addVar(VarType::Binary, 0, 1, g[i]) : m.addVar(VarType::Continuous, -100, 100, g[i]));
  std::vector<int> ord; for (int i = 0; i < (int)(p.cons.size() + ncs.size()); i++) ord.push_back(i); r.shuffle(ord);
  for (int i : ord) if (i < (int)p.cons.size()) addCon(m, p.cons[i], v, r); else { Nc& q = ncs[i - p.cons.size()]; DCPQuadExpr e; for (size_t t = 0; t < q.q.t.size(); t++) e.addQuaTerm(q.q.c[t], expr(q.q.t[t], v, r)); e.addLinTerm(expr(q.q.l, v, r)); m.addQuaConstr(e, "<", LinExpr(0.0), q.soft ? QuadConstrApprox::SoftConstraint : QuadConstrApprox::TrustRegion); }
  setObj(m, p.obj, v, r);
  ExitCode e = m.optimize(); VectorXd x = values(v); int last = refs > 0 ? refs + 1 : 1;
  std::string d = VKS(p.sig() << (mode == 0 ? " trust" : mode == 1 ? " soft" : " both") << nn << " refs " << refs << " warm " << warm << " thr " << thr << " w " << w << " -> " << ecName(e));
  c.sig = d; c.nontrivial = true; c.sample = d; c.count(std::string(k ? "binary " : "continuous ") + ecName(e));
  if (good(e)) {
    double lo = e != ExitCode::Optimal ? 1e3 : k ? 20 : 1;  /* a branch-and-bound node may have been solved to reduced precision */ c.check("convex_constraints_hold", p.maxviol(x), 1e-5 * lo, d);
    for (auto& q : ncs) { c.check("quadratic_upper_bound_holds", q.q(x), 2e-5 * lo, d); if (!q.soft) c.check("quadratic_within_threshold", -q.q(x) - std::pow(thr, last), 2e-5 * lo, VKS(d << " value " << q.q(x) << " bound " << -std::pow(thr, last))); }
    double bi = 0; for (int b : p.bin) bi = std::max(bi, std::min(std::abs(x[b]), std::abs(x[b] - 1))); if (k) c.check("binaries_integral", bi, 3e-4, d);
  }
  if (k) return;
  // re-enactment
  VectorXd X = g; ExitCode last_e = ExitCode::Indeterminate; bool inacc = false;
  for (int it = warm ? 0 : 1; it <= last; it++) {
    bool ws = it == 0; Model s; config(s); std::vector<Var> u = addVars(s, p); vk::Rng q(7); for (auto& k2 : p.cons) addCon(s, k2, u, q, false);
    Quad o = p.obj; for (auto& z : ncs) { Con k2; k2.k = QUA; k2.q = z.q; addCon(s, k2, u, q, false); if (ws) continue; Aff L = linz(z.q, X); if (z.soft) { o.t.push_back(L); o.c.push_back(w); } else { Con l; l.k = LE; l.lin.a = -L.a; l.lin.b = -L.b - std::pow(thr, it); addCon(s, l, u, q, false); } }
    setObj(s, o, u, q, false); last_e = s.optimize(); if (!good(last_e)) break; if (last_e != ExitCode::Optimal) inacc = true; X = values(u);
  }
  if (!good(last_e)) { c.count("reenactment_stopped"); return; }
  if (inacc || e == ExitCode::OptimalInacc) { c.count("reduced_precision"); return; }
  c.count("reenacted"); if (!good(e)) { c.count("reenactment_disagrees"); c.sample += " (reenactment solved)"; return; }
  double fs = 1 + std::abs(p.obj(X)); double df = std::abs(p.obj(x) - p.obj(X)) / fs; 
  c.count("compared"); if (!((x - X).norm() <= 5e-3 * (1 + X.norm()) && df < 5e-3)) { c.count("iterates_differ"); if (getenv("VK_CHAT")) c.violate("differ", VKS(d << " x " << x.transpose() << " X " << X.transpose())); }
}
int main(int argc, char** argv) { return vk::run(argc, argv, "s06", one); }
