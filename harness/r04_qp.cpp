// R04: the real-time QP solver and the fixed-capacity matrix toolbox.
#include "rtmat.hpp"
#include <solver/rt_optimizer/RtQPSolver.hpp>
using namespace rt_solver; using Eigen::MatrixXd; using Eigen::VectorXd;
static const int NV = 8, NE = 3, NI = 14;
typedef RtQPSolver<NV, NE, NI> QP; typedef RtQPSolverInterface<NV, NE, NI> QI;

struct Prob { MatrixXd H, E, C; VectorXd g, e, c; int feas = 1; bool margin = true; std::string sig; double cond = 1; };

static Prob gen(vk::Rng& r) {
  Prob p; int n = r.irange(1, NV), m = r.irange(0, NI), q = r.irange(0, std::min(NE, n)); if (r.chance(0.3)) q = 0;
  MatrixXd Q = ortho(r, n); VectorXd d(n); double lo = r.pick(std::vector<double>{1, 0.1, 1e-3}), hi = r.pick(std::vector<double>{1, 10, 1e3});
  for (int i = 0; i < n; ++i) d(i) = r.logu(lo, hi * 1.0001); p.H = r.chance(0.2) ? MatrixXd(d.asDiagonal()) : MatrixXd(Q * d.asDiagonal() * Q.transpose()); p.H = 0.5 * (p.H + p.H.transpose()).eval(); p.cond = d.maxCoeff() / d.minCoeff();
  p.g = randn(r, n, 1) * r.pick(std::vector<double>{0, 1, 10}); VectorXd x0 = randn(r, n, 1);
  // well-conditioned, linearly independent equalities
  p.E = ortho(r, n).topRows(q); for (int i = 0; i < q; ++i) p.E.row(i) *= r.sgn() * r.uni(0.3, 3); if (q > 1 && r.chance(0.5)) p.E.row(1) += 0.7 * p.E.row(0); p.e = -p.E * x0;
  p.C = MatrixXd::Zero(m, n); p.c = VectorXd::Zero(m); int kind = r.irange(0, 3);
  for (int i = 0; i < m; ++i) {
    int k = r.irange(0, 7);
    if (k <= 2) p.C.row(i) = randn(r, 1, n); else if (k == 3) p.C(i, r.irange(0, n - 1)) = r.sgn() * r.uni(0.5, 2);
    else if (k == 4 && i) p.C.row(i) = r.uni(0.4, 2) * p.C.row(r.irange(0, i - 1)); else if (k == 5 && i) p.C.row(i) = -p.C.row(r.irange(0, i - 1));
    else if (k == 6 && q) p.C.row(i) = r.sgn() * r.uni(0.5, 2) * p.E.row(r.irange(0, q - 1)); else for (int j = 0; j < n; ++j) p.C(i, j) = r.irange(-2, 2);
    double nr = p.C.row(i).norm(); if (nr < 0.2 && nr > 0) p.C.row(i) *= 0.5 / nr; else if (nr > 5) p.C.row(i) *= 3 / nr;
    double slack = kind == 0 || (kind == 1 && r.chance(0.4)) ? 0 : r.uni(0.01, 2); if (slack == 0) p.margin = false; p.c(i) = -p.C.row(i).dot(x0) - slack;
  }
  if (m >= 2 && r.chance(0.25)) {  // inconsistent: a nonnegative combination of rows (and equalities) that cannot be <= 0
    p.feas = 0; int k = r.irange(1, std::min(m - 1, 3)); VectorXd s = VectorXd::Zero(n); double sc = 0, mg = r.uni(0.3, 2);
    for (int i = 0; i < k; ++i) { double l = r.uni(0.3, 1.5); s += l * p.C.row(i).transpose(); sc += l * p.c(i); }
    if (q && r.chance(0.4)) { double l = r.uni(-1, 1); s += l * p.E.row(0).transpose(); sc += l * p.e(0); }
    if (s.norm() < 0.3) { p.feas = 1; } else { p.C.row(k) = -s.transpose(); p.c(k) = -sc + mg; }   // sum: 0'x + mg <= 0
    int a = r.irange(0, m - 1); p.C.row(a).swap(p.C.row(k)); std::swap(p.c(a), p.c(k));
  }
  p.sig = std::to_string(n) + "v" + std::to_string(q) + "e" + std::to_string(m) + "i" + std::to_string(kind) + (p.feas ? "f" : "x");
  return p;
}
static void fill(QP& s, const Prob& p, vk::Rng& r) {
  QI& i = s; i.reset(p.H.rows(), p.E.rows(), p.C.rows()); i.objectiveQuadPart() = p.H; i.objectiveLinPart() = p.g;
  if (p.E.rows()) { if (r.chance(0.5) && p.E.rows() > 1) { i.appendEqualities(p.E.topRows(1), p.e.head(1)); i.appendEqualities(p.E.bottomRows(p.E.rows() - 1), p.e.tail(p.E.rows() - 1)); } else i.appendEqualities(p.E, p.e); }
  if (p.C.rows()) { int a = r.irange(0, p.C.rows()); if (a) i.appendInequalities(p.C.topRows(a), p.c.head(a)); if (a < p.C.rows()) i.appendInequalities(p.C.bottomRows(p.C.rows() - a), p.c.tail(p.C.rows() - a)); }
}
static void qp(vk::Case& c, QP& s) {
  vk::Rng& r = c.rng; Prob p = gen(r); fill(s, p, r); c.sig += p.sig + " "; QI& it = s;
  bool ret = s.optimize(); bool ok = s.isOptimized(); c.require("return_is_status", ret == ok, "optimize() and isOptimized() disagree"); c.count(p.feas ? "feasible_qps" : "infeasible_qps");
  c.require("counts", it.numVariables() == p.H.rows() && it.numEqConstr() == p.E.rows() && it.numIneqConstr() == p.C.rows(), "problem size");
  VectorXd x = s.solution();
  if (!p.feas) { if (ok) { double v = std::max(0.0, (p.C * x + p.c).maxCoeff()); c.require("infeasible_not_solved", false, VKS("success on inconsistent constraints, violation " << v << " " << p.sig)); } else c.count("obs:infeasible_not_solved"); return; }
  // without a strictly feasible point, rounding decides between consistent and inconsistent: counted and bounded
  if (!p.margin) { c.count("tight_qps"); if (!ok) { c.count("tight_missed"); return; } }
  if (!ok) { c.require("feasible_solved", false, VKS("failure on a consistent problem " << p.sig << " cond " << p.cond)); return; }
  c.count("obs:feasible_solved");
  if (!c.require("finite", x.size() == p.H.rows() && x.allFinite(), "solution")) return;
  double sc = (1 + x.norm()) * 3, gs = (p.H * x).norm() + p.g.norm() + 1;
  if (p.E.rows()) c.check("equalities", (p.E * x + p.e).norm() / sc, 1e-9, p.sig);
  double viol = p.C.rows() ? std::max(0.0, (p.C * x + p.c).maxCoeff()) : 0; if (p.C.rows()) c.check("inequalities", viol / sc, 1e-9, p.sig);
  VectorXd gr = p.H * x + p.g; std::vector<int> act; for (int i = 0; i < p.C.rows(); ++i) if (p.C.row(i).dot(x) + p.c(i) > -1e-6 * sc && p.C.row(i).norm() > 0) act.push_back(i);
  MatrixXd M(p.H.rows(), p.E.rows() + act.size()); for (int i = 0; i < p.E.rows(); ++i) M.col(i) = p.E.row(i).transpose(); for (size_t i = 0; i < act.size(); ++i) M.col(p.E.rows() + i) = p.C.row(act[i]).transpose();
  double st = gr.norm(); if (M.cols()) { VectorXd l = hqp::nnls(M, -gr, p.E.rows()); st = (M * l + gr).norm(); }
  c.check("stationarity", st / gs, p.margin ? 1e-7 : 1e-5, VKS(p.sig << " cond " << p.cond << " active " << act.size()));
  c.check("optimality_condition", it.computeOptimalityCondition() / gs, 1e-4, p.sig); c.require("check_solution", it.checkSolution(false), p.sig);
  VectorXd bad = x; if (p.E.rows()) { s.solution() += p.E.row(0).transpose(); c.require("check_rejects", !it.checkSolution(false), "checkSolution accepts a point off the equalities"); s.solution() = bad; }
  // the objective cannot be improved by feasible random points
  if (c.id % 4 == 0) for (int k = 0; k < 10; ++k) { VectorXd y = x + randn(r, x.size(), 1) * r.logu(1e-4, 1); if (p.E.rows()) { y -= p.E.transpose() * (p.E * p.E.transpose()).ldlt().solve(p.E * y + p.e); } if (p.C.rows() == 0 || (p.C * y + p.c).maxCoeff() <= 0) { double f = 0.5 * x.dot(p.H * x) + p.g.dot(x), h = 0.5 * y.dot(p.H * y) + p.g.dot(y); c.check("no_better_point", (f - h) / (1 + std::abs(f)), 1e-6, p.sig); } }
}

// badly scaled, nearly dependent constraints: a verdict in bounded time, no invalid access, and success only for points that meet the constraints
static void hostile(vk::Case& c, QP& s) {
  vk::Rng& r = c.rng; int n = r.irange(1, NV), q = r.irange(0, std::min(NE, n)), m = r.irange(1, NI); QI& i = s; i.reset(n, q, m);
  VectorXd d(n); double lo = r.pick(std::vector<double>{1e-9, 1e-5, 1}); for (int j = 0; j < n; ++j) d(j) = r.logu(lo, 1e3); MatrixXd Q = ortho(r, n); i.objectiveQuadPart() = Q * d.asDiagonal() * Q.transpose(); i.objectiveLinPart() = randn(r, n, 1);
  MatrixXd E = ortho(r, n).topRows(q); for (int j = 0; j < q; ++j) E.row(j) *= r.logu(1e-3, 1e6); VectorXd x0 = randn(r, n, 1), e = -E * x0; if (q) i.appendEqualities(E, e);
  MatrixXd C(m, n);
  for (int j = 0; j < m; ++j) { int t = r.irange(0, 3); if (t == 1 && j) C.row(j) = C.row(j - 1) * r.uni(-2, 2) * (r.chance(.3) ? 1 : 0) + C.row(0) * r.uni(-1, 1) + 1e-12 * randn(r, 1, n); else if (t == 2 && q) C.row(j) = E.row(0) * r.uni(-1, 1) + 1e-11 * randn(r, 1, n); else if (t == 3) C.row(j) = randn(r, 1, n) * 1e-4; else C.row(j) = randn(r, 1, n); }
  VectorXd v = -C * x0 - VectorXd::Constant(m, r.chance(.5) ? 0. : .1); i.appendInequalities(C, v); s.optimize(); bool ok = s.isOptimized(); c.sig += VKS("hostile " << n << q << m << ok << " "); c.count("hostile_qps"); if (!ok) { c.count("hostile_unsolved"); return; }
  VectorXd x = i.solution(); c.check("hostile_inequalities", std::max(0.0, (C * x + v).maxCoeff()) / (1 + x.norm()), 1e-4, c.sig);
  for (int j = 0; j < q; ++j) c.check("hostile_equalities", std::abs(E.row(j).dot(x) + e(j)) / E.row(j).norm() / (1 + x.norm()), 1e-4, c.sig);
}

void mats76(vk::Case&); void mats15(vk::Case&); void alg76(vk::Case&); void alg15(vk::Case&);
int main(int argc, char** argv) {
  return vk::run(argc, argv, "r04_qp", [](vk::Case& c) {
    c.nontrivial = true;
    if (c.id % 4 == 3) { c.sig = "mat "; switch (c.id / 4 % 4) { case 0: mats76(c); break; case 1: alg76(c); break; case 2: mats15(c); break; default: alg15(c); } }
    else { static QP* shared = new QP; if (c.id % 16 == 4) { hostile(c, *shared); return; } if (c.rng.chance(0.5)) { QP s; qp(c, s); } else qp(c, *shared); if (c.rng.chance(0.5)) qp(c, *shared); }
    c.sample = c.sig.substr(0, 60);
  });
}
