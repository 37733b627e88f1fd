// Shadow representation of conic programs: independent evaluation, planted optima, translation to the library API.
#pragma once
#include <Eigen/Dense>
#include <memory>
#include <fstream>
#include "vk.hpp"
#include <solver/interface/Model.hpp>

namespace cp {
using Eigen::VectorXd; using Eigen::MatrixXd;
using solver::LinExpr; using solver::Var; using solver::DCPQuadExpr; using solver::Model; using solver::VarType; using solver::ExitCode;

struct Aff { VectorXd a; double b = 0; double operator()(const VectorXd& x) const { return a.dot(x) + b; } };
struct Quad { std::vector<double> c; std::vector<Aff> t; Aff l;
  double operator()(const VectorXd& x) const { double v = l(x); for (size_t i = 0; i < t.size(); i++) { double e = t[i](x); v += c[i] * e * e; } return v; }
  VectorXd grad(const VectorXd& x) const { VectorXd g = l.a; for (size_t i = 0; i < t.size(); i++) g += 2 * c[i] * t[i](x) * t[i].a; return g; } };
struct Soc { std::vector<Aff> t; Aff l;
  double norm(const VectorXd& x) const { double v = 0; for (auto& e : t) { double w = e(x); v += w * w; } return std::sqrt(v); }
  double operator()(const VectorXd& x) const { return norm(x) + l(x); }
  VectorXd grad(const VectorXd& x) const { VectorXd g = VectorXd::Zero(x.size()); double n = norm(x); for (auto& e : t) g += e(x) / n * e.a; return g + l.a; } };
enum Kind { EQ, LE, QUA, SOC };
struct Con { Kind k; Aff lin; Quad q; Soc s; double scale() const {
    double m = 1; auto up = [&](const Aff& f) { m = std::max(m, std::max(std::abs(f.b), f.a.size() ? f.a.cwiseAbs().maxCoeff() : 0.0)); };
    if (k == EQ || k == LE) up(lin); if (k == QUA) { for (size_t i = 0; i < q.t.size(); i++) up(q.t[i]); up(q.l); } if (k == SOC) { for (auto& t : s.t) up(t); up(s.l); } return m; }
  double viol(const VectorXd& x) const { switch (k) { case EQ: return std::abs(lin(x)); case LE: return std::max(0.0, lin(x)); case QUA: return std::max(0.0, q(x)); default: return std::max(0.0, s(x)); } }
  double value(const VectorXd& x) const { switch (k) { case EQ: case LE: return lin(x); case QUA: return q(x); default: return s(x); } } };
struct Prog { int n = 0; Quad obj; std::vector<Con> cons; std::vector<int> bin;  // indices of binary variables
  double maxviol(const VectorXd& x, int* which = nullptr) const { double m = 0; for (size_t i = 0; i < cons.size(); i++) { double v = cons[i].viol(x) / cons[i].scale(); if (!(v <= m)) { m = v; if (which) *which = (int)i; } } return m; }
  std::string sig() const { int c[4] = {0, 0, 0, 0}; std::string d; for (auto& k : cons) { c[k.k]++; if (k.k == SOC) d += "s" + std::to_string(k.s.t.size()); if (k.k == QUA) d += "q" + std::to_string(k.q.t.size()); } std::ostringstream o; o << "n" << n << "e" << c[0] << "l" << c[1] << "q" << c[2] << "s" << c[3] << "o" << obj.t.size() << "b" << bin.size() << d; return o.str(); } };

inline Aff zeroAff(int n) { Aff f; f.a = VectorXd::Zero(n); return f; }
inline VectorXd rvec(vk::Rng& r, int n, double density = 1.0) { VectorXd v(n); do { for (int i = 0; i < n; i++) v[i] = r.chance(density) ? r.normal() : 0.0; } while (n > 0 && v.norm() < 0.2); return v; }

// Aff -> LinExpr through a randomly chosen idiom of the expression API
inline LinExpr expr(const Aff& f, const std::vector<Var>& v, vk::Rng& r, bool fancy = true) {
  std::vector<int> ord; for (int i = 0; i < f.a.size(); i++) if (f.a[i] != 0.0) ord.push_back(i);
  if (fancy) r.shuffle(ord);
  LinExpr e = f.b; int style = fancy ? r.irange(0, 6) : 0;
  for (int i : ord) switch (style) {
    case 0: e += LinExpr(v[i]) * f.a[i]; break;
    case 1: e = e + f.a[i] * v[i]; break;
    case 2: e -= LinExpr(v[i], -f.a[i]); break;
    case 3: e = e - v[i] * (-f.a[i]); break;
    case 4: e += LinExpr(v[i], 0.25 * f.a[i]); e += LinExpr(v[i], 0.75 * f.a[i]); break;
    case 5: e = (e * 2.0 + LinExpr(v[i], 2.0 * f.a[i])) / 2.0; break;
    default: e = -(-e - LinExpr(v[i]) * f.a[i]); break;
  }
  return e;
}
inline void addCon(Model& m, const Con& c, const std::vector<Var>& v, vk::Rng& r, bool fancy = true) {
  int n = (int)v.size();
  auto split = [&](const Aff& f, Aff& l, Aff& rr) { l = f; rr = zeroAff(n); if (!fancy) return; int s = r.irange(0, 2); if (s == 1) { rr.b = -f.b; l.b = 0; } else if (s == 2) { for (int i = 0; i < n; i++) if (r.chance(0.4)) { rr.a[i] = -f.a[i]; l.a[i] = 0; } } };
  Aff L, R;
  switch (c.k) {
    case EQ: split(c.lin, L, R); m.addLinConstr(expr(L, v, r, fancy), "=", expr(R, v, r, fancy)); break;
    case LE: split(c.lin, L, R); if (fancy && r.chance(0.5)) m.addLinConstr(expr(R, v, r, fancy), ">", expr(L, v, r, fancy)); else m.addLinConstr(expr(L, v, r, fancy), "<", expr(R, v, r, fancy)); break;
    case QUA: { DCPQuadExpr q; split(c.q.l, L, R); for (size_t i = 0; i < c.q.t.size(); i++) q.addQuaTerm(c.q.c[i], expr(c.q.t[i], v, r, fancy)); q.addLinTerm(expr(L, v, r, fancy)); m.addQuaConstr(q, "<", expr(R, v, r, fancy)); break; }
    case SOC: { DCPQuadExpr q; split(c.s.l, L, R); for (size_t i = 0; i < c.s.t.size(); i++) q.addQuaTerm(1.0, expr(c.s.t[i], v, r, fancy)); q.addLinTerm(expr(L, v, r, fancy)); m.addSocConstr(q, "<", expr(R, v, r, fancy)); break; }
  }
}
inline void setObj(Model& m, const Quad& o, const std::vector<Var>& v, vk::Rng& r, bool fancy = true) {
  DCPQuadExpr q; for (size_t i = 0; i < o.t.size(); i++) q.addQuaTerm(o.c[i], expr(o.t[i], v, r, fancy));
  LinExpr l = expr(o.l, v, r, fancy);
  if (fancy && r.chance(0.5)) { q.addLinTerm(l); m.setObjective(q, 0.0); } else m.setObjective(q, l);
}
inline std::vector<Var> addVars(Model& m, const Prog& p, double lb = -1e9, double ub = 1e9) {
  std::vector<Var> v; std::vector<char> isb(p.n, 0); for (int b : p.bin) isb[b] = 1;
  for (int i = 0; i < p.n; i++) v.push_back(isb[i] ? m.addVar(VarType::Binary, 0.0, 1.0) : m.addVar(VarType::Continuous, lb, ub));
  return v;
}
inline VectorXd values(const std::vector<Var>& v) { VectorXd x(v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i].get(solver::SolverDoubleParam_X); return x; }

// Planted optimum: constraints active with positive multipliers at x*, linear objective term from stationarity,
// direction d strictly decreasing every active constraint (Slater), bounded level sets.
struct Planted { Prog p; VectorXd x; double f; bool unique; std::string bounding; };
inline Planted plant(vk::Rng& r, int nmax, bool allowEmptyLin = true) {
  Planted P; Prog& p = P.p; int n = p.n = r.irange(1, nmax);
  double xs = r.pick<double>({0.3, 1.0, 1.0, 3.0}); VectorXd x = rvec(r, n) * xs, d = rvec(r, n); d.normalize(); P.x = x;
  VectorXd g = VectorXd::Zero(n); double dens = r.pick<double>({0.3, 0.6, 1.0});
  int ne = n > 1 ? r.irange(0, std::min(n - 1, 4)) : 0; if (r.chance(0.3)) ne = 0;
  int nl = r.chance(0.2) ? 0 : r.irange(0, 6), nq = r.chance(0.5) ? 0 : r.irange(1, 3), ns = r.chance(0.5) ? 0 : r.irange(1, 3);
  for (int i = 0; i < ne; i++) { Con c; c.k = EQ; c.lin.a = rvec(r, n, dens); if (r.chance(0.8) || n == 1) c.lin.a -= c.lin.a.dot(d) * d; else { c.lin.a -= c.lin.a.dot(d) * d; } if (c.lin.a.norm() < 1e-2) continue; c.lin.b = -c.lin.a.dot(x); g += r.normal() * c.lin.a; p.cons.push_back(c); }
  double lam;
  for (int i = 0; i < nl; i++) { Con c; c.k = LE; c.lin.a = rvec(r, n, dens); bool act = r.chance(0.5); c.lin.b = -c.lin.a.dot(x) - (act ? 0 : r.uni(0.1, 3)); if (act) { double s = c.lin.a.dot(d); if (std::abs(s) < 0.05) { c.lin.a -= 0.3 * d; s = c.lin.a.dot(d); } if (s > 0) { c.lin.a = -c.lin.a; } c.lin.b = -c.lin.a.dot(x); lam = r.uni(0.2, 2); g += lam * c.lin.a; } p.cons.push_back(c); }
  for (int i = 0; i < nq; i++) { Con c; c.k = QUA; int k = r.irange(1, 3); for (int j = 0; j < k; j++) { Aff f; f.a = rvec(r, n, dens); f.b = r.normal(); c.q.t.push_back(f); c.q.c.push_back(r.uni(0.2, 2)); }
    c.q.l.a = r.chance(0.3) ? VectorXd::Zero(n) : rvec(r, n, dens); c.q.l.b = 0; bool act = r.chance(0.5);
    if (act) { double s = c.q.grad(x).dot(d); if (s > -0.1) c.q.l.a -= (s + 0.3) * d; }
    c.q.l.b = -c.q(x) - (act ? 0 : r.uni(0.1, 3)); if (act) { lam = r.uni(0.2, 2); g += lam * c.q.grad(x); } p.cons.push_back(c); }
  for (int i = 0; i < ns; i++) { Con c; c.k = SOC; int k = r.irange(1, 4); for (int j = 0; j < k; j++) { Aff f; f.a = rvec(r, n, dens); f.b = r.normal(); c.s.t.push_back(f); } if (c.s.norm(x) < 0.1) c.s.t[0].b += 1.0; if (c.s.norm(x) < 0.1) continue;
    c.s.l.a = r.chance(0.3) ? VectorXd::Zero(n) : rvec(r, n, dens); c.s.l.b = 0; bool act = r.chance(0.5);
    if (act) { double s = c.s.grad(x).dot(d); if (s > -0.1) c.s.l.a -= (s + 0.3) * d; }
    c.s.l.b = -c.s(x) - (act ? 0 : r.uni(0.1, 3)); if (act) { lam = r.uni(0.2, 2); g += lam * c.s.grad(x); } p.cons.push_back(c); }
  Quad& o = p.obj; o.l = zeroAff(n); P.unique = false;
  int bnd = r.irange(0, 3);
  if (bnd == 0) { P.bounding = "strictly convex objective"; for (int i = 0; i < n; i++) { Aff f = zeroAff(n); f.a[i] = r.uni(0.5, 2); if (r.chance(0.5)) f.a += 0.3 * rvec(r, n, dens); f.b = r.normal(); o.t.push_back(f); o.c.push_back(r.uni(0.5, 2)); } 
    MatrixXd H = MatrixXd::Zero(n, n); for (size_t i = 0; i < o.t.size(); i++) H += o.c[i] * o.t[i].a * o.t[i].a.transpose(); P.unique = Eigen::SelfAdjointEigenSolver<MatrixXd>(H).eigenvalues()[0] > 0.05;
    if (!P.unique) bnd = 1; }
  if (bnd == 1) { P.bounding = "box"; for (int i = 0; i < n; i++) for (int s = -1; s <= 1; s += 2) { Con c; c.k = LE; c.lin = zeroAff(n); c.lin.a[i] = s; c.lin.b = -s * x[i] - r.uni(1, 5); p.cons.push_back(c); } }
  if (bnd == 2) { P.bounding = "quadratic ball"; Con c; c.k = QUA; c.q.l = zeroAff(n); for (int i = 0; i < n; i++) { Aff f = zeroAff(n); f.a[i] = 1; f.b = -x[i]; c.q.t.push_back(f); c.q.c.push_back(1); } c.q.l.b = -r.uni(1, 10); p.cons.push_back(c); }
  if (bnd == 3) { P.bounding = "cone ball"; Con c; c.k = SOC; c.s.l = zeroAff(n); for (int i = 0; i < n; i++) { Aff f = zeroAff(n); f.a[i] = 1; f.b = -x[i]; c.s.t.push_back(f); } c.s.l.b = -r.uni(1, 3); p.cons.push_back(c); }
  if (o.t.empty() && r.chance(0.4)) { int k = r.irange(1, 3); for (int i = 0; i < k; i++) { Aff f; f.a = rvec(r, n, dens); f.b = r.normal(); o.t.push_back(f); o.c.push_back(r.uni(0.2, 2)); } }
  o.l.a = -(g + o.grad(x)); o.l.b = r.normal(); P.f = o(x);
  r.shuffle(p.cons);
  return P;
}

inline const char* ecName(ExitCode e) {
  switch (e) { case ExitCode::Optimal: return "Optimal"; case ExitCode::PrimalInf: return "PrimalInf"; case ExitCode::DualInf: return "DualInf"; case ExitCode::OptimalInacc: return "OptimalInacc"; case ExitCode::PrimalInfInacc: return "PrimalInfInacc"; case ExitCode::DualInfInacc: return "DualInfInacc"; case ExitCode::ReachMaxIters: return "ReachMaxIters"; case ExitCode::NotConverged: return "NotConverged"; case ExitCode::Indeterminate: return "Indeterminate"; default: return "Other"; }
}
inline void config(Model& m) { m.configSetting(std::string(VK_VERIF) + "/harness/common/solver_stgs.yaml"); if (getenv("VK_CHAT")) m.getSetting().set(solver::SolverBoolParam_Verbose, true); }
}  // namespace cp
