// Mixed-binary programs vs. exhaustive enumeration of the binaries (each subproblem solved as a continuous model).
#include "conic.hpp"
using namespace cp;
static bool solveFixed(const Prog& p, const std::vector<int>& bits, double& f, VectorXd& x, bool& unclear) {
  // substitute the fixed binaries: independent elimination, no binary variables in the model
  std::vector<int> keep, pos(p.n, -1); std::vector<double> val(p.n, 0); std::vector<char> isb(p.n, 0);
  for (size_t i = 0; i < p.bin.size(); i++) { isb[p.bin[i]] = 1; val[p.bin[i]] = bits[i]; }
  for (int i = 0; i < p.n; i++) if (!isb[i]) { pos[i] = (int)keep.size(); keep.push_back(i); }
  auto red = [&](const Aff& a) { Aff b; b.a = VectorXd::Zero(keep.size()); b.b = a.b; for (int i = 0; i < p.n; i++) if (isb[i]) b.b += a.a[i] * val[i]; else b.a[pos[i]] = a.a[i]; return b; };
  Prog q; q.n = (int)keep.size(); q.obj.l = red(p.obj.l); for (size_t i = 0; i < p.obj.t.size(); i++) { q.obj.t.push_back(red(p.obj.t[i])); q.obj.c.push_back(p.obj.c[i]); }
  for (auto& c : p.cons) { Con d = c; d.lin = c.lin.a.size() ? red(c.lin) : c.lin; for (auto& t : d.q.t) t = red(t); for (auto& t : d.s.t) t = red(t); if (c.q.l.a.size()) d.q.l = red(c.q.l); if (c.s.l.a.size()) d.s.l = red(c.s.l); q.cons.push_back(d); }
  x = VectorXd::Zero(p.n); for (int i = 0; i < p.n; i++) x[i] = val[i];
  if (q.n == 0) { bool ok = true; for (auto& c : p.cons) { double v = c.value(x); if (c.k == EQ) v = std::abs(v); if (v > 1e-7) ok = false; if (std::abs(v) < 1e-4 && c.k != EQ) unclear = true; } f = p.obj(x); return ok; }
  Model m; config(m); auto v = addVars(m, q); vk::Rng r(1); for (auto& c : q.cons) addCon(m, c, v, r, false); setObj(m, q.obj, v, r, false);
  ExitCode e = m.optimize(); VectorXd y = values(v); for (int i = 0; i < q.n; i++) x[keep[i]] = y[i];
  f = p.obj(x);
  if (e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc) return false;
  if (!(e == ExitCode::Optimal)) unclear = true;
  return e == ExitCode::Optimal || e == ExitCode::OptimalInacc;
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; Prog p; int k = r.irange(1, c.tier == "thorough" ? 6 : 4), nc = r.irange(0, 4), n = p.n = k + nc;
  std::vector<int> idx; for (int i = 0; i < n; i++) idx.push_back(i); r.shuffle(idx); p.bin.assign(idx.begin(), idx.begin() + k); if (r.chance(0.5)) std::sort(p.bin.begin(), p.bin.end()); std::vector<int> b2 = p.bin; std::sort(b2.begin(), b2.end()); p.bin = b2;
  std::vector<char> isb(n, 0); for (int b : p.bin) isb[b] = 1;
  for (int i = 0; i < n; i++) if (!isb[i]) for (int s = -1; s <= 1; s += 2) { Con d; d.k = LE; d.lin = zeroAff(n); d.lin.a[i] = s; d.lin.b = -r.uni(1, 5); p.cons.push_back(d); }
  VectorXd x0(n); for (int i = 0; i < n; i++) x0[i] = isb[i] ? (double)r.irange(0, 1) : r.uni(-0.8, 0.8);
  bool forceInf = r.chance(0.15); int m = r.irange(0, 4);
  for (int i = 0; i < m; i++) { Con d; int t = r.irange(0, 3); if (t <= 1) { d.k = LE; d.lin.a = rvec(r, n, 0.8) * 2; d.lin.b = 0; d.lin.b = -d.lin.a.dot(x0) - r.uni(0.05, 1); }
    else if (t == 2) { d.k = SOC; d.s.l = zeroAff(n); for (int j = 0; j < 2; j++) { Aff f; f.a = rvec(r, n, 0.8); f.b = r.normal(); d.s.t.push_back(f); } d.s.l.b = -d.s.norm(x0) - r.uni(0.05, 1); }
    else { d.k = QUA; d.q.l = zeroAff(n); for (int j = 0; j < 2; j++) { Aff f; f.a = rvec(r, n, 0.8); f.b = r.normal(); d.q.t.push_back(f); d.q.c.push_back(r.uni(0.3, 1)); } d.q.l.b = -d.q(x0) - r.uni(0.05, 1); }
    p.cons.push_back(d); }
  if (r.chance(0.3)) { Con d; d.k = LE; d.lin = zeroAff(n); for (int b : p.bin) d.lin.a[b] = 1; d.lin.b = -(double)r.irange(0, k) - 0.3; if (d.lin(x0) < 0) p.cons.push_back(d); }
  if (forceInf) { Con d; d.k = LE; d.lin = zeroAff(n); Con e = d; for (int b : p.bin) { d.lin.a[b] = 1; e.lin.a[b] = -1; } double h = r.irange(0, k - 1) + 0.5; d.lin.b = -h - 0.2; e.lin.b = h - 0.2; p.cons.push_back(d); p.cons.push_back(e); }
  p.obj.l = zeroAff(n); double os = r.pick<double>({0.5, 2, 10}); p.obj.l.a = rvec(r, n) * os; p.obj.l.b = r.chance(0.5) ? r.normal() : 0.0;
  if (r.chance(0.5)) { int q = r.irange(1, 3); for (int j = 0; j < q; j++) { Aff f; f.a = rvec(r, n, 0.8); f.b = r.normal(); p.obj.t.push_back(f); p.obj.c.push_back(r.uni(0.3, 3)); } }
  bool forceUnb = !forceInf && r.chance(0.08);
  if (forceUnb) { // one more continuous variable, only bounded below, with negative cost: every feasible assignment is unbounded
    p.n = ++n; isb.push_back(0); auto ext = [&](Aff& a, double v) { if (a.a.size()) { VectorXd w(n); w << a.a, v; a.a = w; } };
    ext(p.obj.l, -r.uni(0.5, 2)); for (auto& t : p.obj.t) ext(t, 0); for (auto& d : p.cons) { ext(d.lin, 0); ext(d.q.l, 0); ext(d.s.l, 0); for (auto& t : d.q.t) ext(t, 0); for (auto& t : d.s.t) ext(t, 0); }
    Con d; d.k = LE; d.lin = zeroAff(n); d.lin.a[n - 1] = -1; d.lin.b = -1; p.cons.push_back(d); r.shuffle(p.cons);
    Model m2; config(m2); auto v = addVars(m2, p); for (auto& d : p.cons) addCon(m2, d, v, r); setObj(m2, p.obj, v, r);
    ExitCode e; try { e = m2.optimize(); } catch (std::exception& ex) { c.violate("exception_on_valid_program", VKS(ex.what() << " unbounded " << p.sig())); return; }
    c.sig = p.sig() + "unb"; c.nontrivial = true; c.count(std::string("unbounded -> ") + ecName(e)); c.sample = VKS(p.sig() << " unbounded relaxation -> " << ecName(e));
    c.require("unbounded_not_optimal", e != ExitCode::Optimal && e != ExitCode::OptimalInacc, c.sample); return; }
  r.shuffle(p.cons);
  double best = 1e300; VectorXd xb; int feas = 0; bool unclear = false;
  for (int mask = 0; mask < (1 << k); mask++) { std::vector<int> bits(k); for (int i = 0; i < k; i++) bits[i] = (mask >> i) & 1; double f; VectorXd x; if (solveFixed(p, bits, f, x, unclear)) { feas++; if (f < best) { best = f; xb = x; } } }
  if (unclear) { c.count("skipped_borderline"); return; }
  Model m2; config(m2); auto v = addVars(m2, p); for (auto& d : p.cons) addCon(m2, d, v, r); setObj(m2, p.obj, v, r);
  ExitCode e; try { e = m2.optimize(); } catch (std::exception& ex) { c.violate("exception_on_valid_program", VKS(ex.what() << " " << p.sig() << " feasible assignments " << feas << "/" << (1 << k))); return; }
  VectorXd x = values(v); bool opt = e == ExitCode::Optimal || e == ExitCode::OptimalInacc;
  c.sig = p.sig() + "f" + std::to_string(feas); c.nontrivial = feas > 1 || feas == 0; c.count(std::string(feas ? "feasible" : "infeasible") + " -> " + ecName(e));
  c.sample = VKS(p.sig() << " feasible assignments " << feas << "/" << (1 << k) << " best=" << (feas ? best : 0.0) << " -> " << ecName(e) << " f=" << p.obj(x));
  if (!feas) { c.require("infeasible_not_optimal", !opt, c.sample); return; }
  if (!c.require("feasible_reported_optimal", opt, c.sample)) return;
  double bi = 0; for (int b : p.bin) bi = std::max(bi, std::min(std::abs(x[b]), std::abs(x[b] - 1)));
  c.check("binaries_integral", bi, 1.05e-4, c.sample);
  c.check("constraint_violation", p.maxviol(x), 1e-5, c.sample);
  c.check("objective_vs_enumeration", p.obj(x) - best, 1.1e-3 + 2e-6 * std::abs(best) + 2e-4 * p.obj.l.a.norm() * 1.0, c.sample);
  c.check("objective_not_below_best", best - p.obj(x), 1e-4 * (1 + std::abs(best)) + 1.05e-4 * p.obj.grad(xb).lpNorm<1>(), c.sample);
}
int main(int argc, char** argv) { return vk::run(argc, argv, "s05", one); }
