// Prioritised linear tasks: generator, drivers of the real-time hierarchical solver, and the optimality oracle.
#pragma once
#include <memory>
#include "vk.hpp"
#include <Eigen/Dense>
#include <yaml-cpp/yaml.h>

namespace hqp {
using Eigen::MatrixXd; using Eigen::VectorXd;

struct Row { int rank; bool eq; VectorXd a; double c; };   // a'x + c (= | <=) 0
struct Hier {
  int n = 0, ranks = 0; std::vector<Row> rows; std::string sig;
  int count(int r, bool eq) const { int k = 0; for (auto& t : rows) k += t.rank == r && t.eq == eq; return k; }
  int countIneq() const { int k = 0; for (auto& t : rows) k += !t.eq; return k; }
  MatrixXd mat(int r, bool eq) const { MatrixXd m(count(r, eq), n); int k = 0; for (auto& t : rows) if (t.rank == r && t.eq == eq) m.row(k++) = t.a.transpose(); return m; }
  VectorXd vec(int r, bool eq) const { VectorXd m(count(r, eq)); int k = 0; for (auto& t : rows) if (t.rank == r && t.eq == eq) m(k++) = t.c; return m; }
  double scale() const { double s = 1; for (auto& t : rows) s = std::max(s, std::max(t.a.norm(), std::abs(t.c))); return s; }
  Hier upTo(int r) const { Hier h; h.n = n; h.ranks = r + 1; for (auto& t : rows) if (t.rank <= r) h.rows.push_back(t); return h; }
};

// Limits: inequality rows in total, equality rows per rank.
inline Hier gen(vk::Rng& r, int n, int maxIneq, int maxEqPerRank, int maxRanks) {
  Hier h; h.n = n; h.ranks = r.irange(1, maxRanks); int style = r.irange(0, 4); VectorXd ref(n);
  for (int i = 0; i < n; ++i) ref(i) = r.chance(0.3) ? r.irange(-3, 3) : r.uni(-3, 3);
  bool consistent = r.chance(0.3); int ineqs = 0; std::string kinds;
  for (int k = 0; k < h.ranks; ++k) {
    if (r.chance(0.08) && h.ranks > 1) continue;  // an empty rank
    int ne = r.irange(0, std::min(maxEqPerRank, std::max(1, n / 2))), ni = r.irange(0, 3);
    if (h.ranks > 5) { ne = r.irange(0, 1); ni = r.irange(0, 1); }
    if (r.chance(0.15)) ne = 0; if (r.chance(0.25)) ni = 0;
    if (h.ranks > 5 && ne + ni == 0) { if (k % 2 || n < 5) ni = 1; else ne = 1; }
    for (int q = 0; q < ne + ni; ++q) {
      Row t; t.rank = k; t.eq = q < ne; t.a = VectorXd::Zero(n); t.c = 0;
      if (!t.eq && ineqs >= maxIneq) continue;
      int kind = r.irange(0, 9); bool prior = !h.rows.empty();
      if (kind <= 2) { for (int i = 0; i < n; ++i) t.a(i) = r.normal(); }
      else if (kind <= 4) { t.a(r.irange(0, n - 1)) = r.sgn() * (r.chance(0.5) ? 1 : r.uni(0.3, 3)); }
      else if (kind == 6 && prior) { t.a = r.sgn() * h.rows[r.irange(0, (int)h.rows.size() - 1)].a; }
      else if (kind == 7 && prior) { t.a = r.uni(0.2, 3) * r.sgn() * h.rows[r.irange(0, (int)h.rows.size() - 1)].a; }
      else if (kind == 5 && prior && t.eq && r.chance(0.5) && n > 1 && h.ranks <= 5) {  // nearly, but clearly not, implied by the rows above
        const VectorXd& b = h.rows[r.irange(0, (int)h.rows.size() - 1)].a; for (int i = 0; i < n; ++i) t.a(i) = r.normal();
        t.a -= t.a.dot(b) / std::max(1e-9, b.squaredNorm()) * b; double tn = t.a.norm(); if (tn > 0) t.a *= r.logu(0.01, 0.1) * std::max(0.3, b.norm()) / tn; t.a += b; }
      else if (kind == 5) { for (int i = 0; i < n; ++i) t.a(i) = r.irange(-2, 2); }
      else if (kind == 8 && h.rows.size() > 1) { t.a = h.rows[r.irange(0, (int)h.rows.size() - 1)].a * r.uni(-1, 1) + h.rows[r.irange(0, (int)h.rows.size() - 1)].a * r.uni(-1, 1); }
      else { int m = r.irange(1, std::min(n, 3)); for (int i = 0; i < m; ++i) t.a(r.irange(0, n - 1)) = r.normal(); }
      double nr = t.a.norm(); if (nr > 0 && nr < 0.2) t.a *= 0.5 / nr; else if (nr > 5) t.a *= 3 / nr;
      if (t.a.norm() == 0 && style != 0) { t.a(r.irange(0, n - 1)) = 1; }
      double at = t.a.dot(ref);
      if (consistent || r.chance(0.35)) t.c = t.eq ? -at : -at - (r.chance(0.3) ? 0 : r.uni(0, 2));
      else t.c = -at + r.uni(-3, 3);
      if (t.a.norm() == 0) t.c = t.eq ? 0 : -std::abs(t.c);  // a row that mentions no variable is satisfied
      if (!t.eq) ++ineqs;
      h.rows.push_back(t); kinds += t.eq ? 'e' : 'i';
    }
    kinds += '.';
  }
  h.sig = std::to_string(n) + ":" + kinds;
  return h;
}

// Squared violation of a rank.
inline double level(const Hier& h, int r, const VectorXd& x) { double s = 0; for (auto& t : h.rows) if (t.rank == r) { double v = t.a.dot(x) + t.c; if (!t.eq) v = std::max(0.0, v); s += v * v; } return s; }

// min ||G' l - b|| over free l (first nf columns) and l >= 0 (the rest): Lawson-Hanson on the columns of M.
inline VectorXd nnls(const MatrixXd& M, const VectorXd& b, int nf) {
  int n = M.cols(); std::vector<bool> in(n, false); for (int i = 0; i < nf; ++i) in[i] = true;
  VectorXd x = VectorXd::Zero(n);
  auto ls = [&](VectorXd& z) { std::vector<int> id; for (int i = 0; i < n; ++i) if (in[i]) id.push_back(i); z = VectorXd::Zero(n); if (id.empty()) return;
    MatrixXd P(M.rows(), id.size()); for (size_t k = 0; k < id.size(); ++k) P.col(k) = M.col(id[k]);
    Eigen::CompleteOrthogonalDecomposition<MatrixXd> cod; cod.setThreshold(1e-9); cod.compute(P); VectorXd s = cod.solve(b); for (size_t k = 0; k < id.size(); ++k) z(id[k]) = s(k); };
  VectorXd z; ls(z); for (int i = 0; i < nf; ++i) x(i) = z(i);
  for (int it = 0; it < 6 * (n + 3); ++it) {
    VectorXd w = M.transpose() * (b - M * x); int best = -1; double bw = 1e-9;
    for (int i = nf; i < n; ++i) if (!in[i] && w(i) > bw) { bw = w(i); best = i; }
    if (best < 0) break;
    in[best] = true;
    for (int in2 = 0; in2 < 3 * n + 10; ++in2) {
      ls(z); double al = 1; for (int i = nf; i < n; ++i) if (in[i] && z(i) <= 1e-12) al = std::min(al, x(i) / (x(i) - z(i) + 1e-300));
      if (al >= 1) { x = z; break; }
      x += al * (z - x); bool rm = false; for (int i = nf; i < n; ++i) if (in[i] && (x(i) <= 1e-12)) { in[i] = false; x(i) = 0; rm = true; }
      if (!rm) { x = z; break; }
    }
  }
  return x;
}
// Stationarity residual of rank r at x, given that all earlier ranks keep the values they have at x.
inline double kkt(const Hier& h, int r, const VectorXd& x, double act) {
  VectorXd g = VectorXd::Zero(h.n); std::vector<VectorXd> E, D;
  for (auto& t : h.rows) {
    double v = t.a.dot(x) + t.c;
    if (t.rank == r) g += t.a * (t.eq ? v : std::max(0.0, v));
    else if (t.rank < r) { if (t.a.norm() == 0) continue; if (t.eq) E.push_back(t.a); else if (v > -act) D.push_back(t.a); }
  }
  MatrixXd M(h.n, E.size() + D.size()); for (size_t i = 0; i < E.size(); ++i) M.col(i) = E[i]; for (size_t i = 0; i < D.size(); ++i) M.col(E.size() + i) = D[i];
  if (M.cols() == 0) return g.norm();
  VectorXd l = nnls(M, -g, E.size());
  return (M * l + g).norm();
}

struct Res { bool ok = false, valid = true, notified = true; VectorXd x; double solved = -1; };
struct Pars { double relax = 1e-6, diag = 1e-8; bool given = false; };
inline YAML::Node yaml(const Pars& p) { YAML::Node n; if (p.given) { n["ineq_relax"] = p.relax; n["psd_hessian_diag"] = p.diag; n["hsol_max_eq_cond"] = 1e8; } return n; }

// A solver object of a fixed capacity, with every public way of giving it tasks.
struct Driver {
  virtual ~Driver() {}
  virtual int vars() const = 0; virtual int ineqs() const = 0; virtual int eqs() const = 0;
  virtual void initialize() = 0;
  virtual Res direct(const Hier& h) = 0;                                        // the bare solver, rank by rank
  virtual Res exprs(const Hier& h, vk::Rng r, bool pieces) = 0;                 // RtModel::addLinConstr
  virtual Res composers(const Hier& h, vk::Rng r, int k, bool reduced) = 0;     // RtHQPCost rows; `reduced` uses the columns of a larger variable set
  virtual Res mixed(const Hier& h, vk::Rng r) = 0;                              // some rows each way
};
std::unique_ptr<Driver> make(int which, const Pars& p);   // 0: 4 variables, 1: 8 variables
const int kDrivers = 2;
inline Res solveAs(Driver& d, const Hier& h, int how, vk::Rng r) {
  switch (how) { case 0: return d.direct(h); case 1: return d.exprs(h, r, false); case 2: return d.exprs(h, r, true); case 3: return d.composers(h, r, 1, false);
    case 4: return d.composers(h, r, 3, false); default: return d.mixed(h, r); }
}
const int kWays = 6;
}  // namespace hqp
