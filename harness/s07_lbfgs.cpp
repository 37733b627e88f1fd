// L-BFGS: every evaluation and every accepted iterate is observed; values, decrease, line-search conditions, limits and convergence are recomputed.
#include <Eigen/Dense>
#include "vk.hpp"
#include <solver/optimizer/LbfgsSolver.hpp>
using Eigen::VectorXd; using Eigen::MatrixXd;
struct Fn { int kind; int n; MatrixXd A; VectorXd b, y; double c = 0, mu = 0; bool convex = false, smooth = true; std::string name;
  double operator()(const VectorXd& x, VectorXd* g) const {
    if (g) *g = VectorXd::Zero(n); double f = c;
    switch (kind) {
      case 0: { VectorXd r = A * x - b; f += 0.5 * r.squaredNorm(); if (g) *g = A.transpose() * r; break; }                                  // least squares
      case 1: { VectorXd z = A * x; for (int i = 0; i < z.size(); i++) { double t = -y[i] * z[i]; f += t > 0 ? t + std::log1p(std::exp(-t)) : std::log1p(std::exp(t)); if (g) *g += A.row(i).transpose() * (-y[i] / (1 + std::exp(-t))); } f += 0.5 * mu * x.squaredNorm(); if (g) *g += mu * x; break; }
      case 2: { VectorXd z = A * x + b; double m = z.maxCoeff(); VectorXd e = (z.array() - m).exp(); double s = e.sum(); f += m + std::log(s) + 0.5 * mu * x.squaredNorm(); if (g) *g = A.transpose() * (e / s) + mu * x; break; }
      case 3: { double q = x.squaredNorm(); f += 0.25 * q * q + b.dot(x) + 0.5 * mu * q; if (g) *g = q * x + b + mu * x; break; }
      case 4: { for (int i = 0; i + 1 < n; i++) { double a = x[i + 1] - x[i] * x[i], d = 1 - x[i]; f += mu * a * a + d * d; if (g) { (*g)[i] += -4 * mu * a * x[i] - 2 * d; (*g)[i + 1] += 2 * mu * a; } } if (n == 1) { f += (x[0] - 1) * (x[0] - 1); if (g) (*g)[0] += 2 * (x[0] - 1); } break; }
      case 5: { for (int i = 0; i < n; i++) { f += std::sin(b[i] * x[i]) + 0.05 * mu * x[i] * x[i]; if (g) (*g)[i] = b[i] * std::cos(b[i] * x[i]) + 0.1 * mu * x[i]; } break; }
      case 6: { for (int i = 0; i < n; i++) { double v = x[i]; f += 0.5 * (v * v * v * v - 16 * v * v + 5 * v); if (g) (*g)[i] = 0.5 * (4 * v * v * v - 32 * v + 5); } break; }
      case 7: { for (int i = 0; i < n; i++) { double v = x[i] - b[i]; f += std::abs(v) * (1 + i); if (g) (*g)[i] = v > 0 ? 1 + i : v < 0 ? -1 - i : 0; } break; }      // kinks: the line search fails
      case 8: { f += b.dot(x); if (g) *g = b; break; }                                                                                        // unbounded below
      case 9: { for (int i = 0; i < n; i++) { double v = x[i] - b[i]; f += std::pow(std::abs(v), 1.5); if (g) (*g)[i] = 1.5 * std::sqrt(std::abs(v)) * (v > 0 ? 1 : -1); } break; }
      default: break;                                                                                                                         // constant
    }
    return f; } };
static Fn gen(vk::Rng& r) {
  Fn f; f.kind = r.irange(0, 10); f.n = r.chance(0.2) ? r.irange(10, 40) : r.irange(1, 9); int n = f.n; f.b = VectorXd::Zero(n); f.mu = 1;
  auto rm = [&](int k) { MatrixXd M(k, n); for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) M(i, j) = r.normal(); return M; };
  for (int i = 0; i < n; i++) f.b[i] = r.normal() * 2; f.c = r.chance(0.5) ? r.normal() * 3 : 0;
  switch (f.kind) {
    case 0: { Eigen::HouseholderQR<MatrixXd> qr(rm(n)); MatrixXd Q = qr.householderQ(); VectorXd s(n); double k = r.pick<double>({1, 10, 100}); for (int i = 0; i < n; i++) s[i] = std::sqrt(r.logu(1, k)); f.A = s.asDiagonal() * Q; f.convex = true; f.name = "lsq"; break; }
    case 1: { int k = r.irange(1, 2 * n + 2); f.A = rm(k); f.y = VectorXd(k); for (int i = 0; i < k; i++) f.y[i] = r.sgn(); f.mu = r.uni(0.05, 1); f.convex = true; f.name = "logistic"; break; }
    case 2: { int k = r.irange(1, 2 * n + 2); f.A = rm(k); f.b = VectorXd(k); for (int i = 0; i < k; i++) f.b[i] = r.normal(); f.mu = r.uni(0.05, 1); f.convex = true; f.name = "lse"; break; }
    case 3: f.mu = r.uni(0.1, 1); f.convex = true; f.name = "quartic"; break;
    case 4: f.mu = r.pick<double>({1, 10, 100}); f.name = "rosenbrock"; break;
    case 5: f.mu = r.uni(0.2, 2); f.name = "sines"; break; case 6: f.name = "styblinski"; break;
    case 7: f.smooth = false; f.name = "kinks"; break; case 8: f.name = "linear"; break; case 9: f.smooth = false; f.name = "pow1.5"; break; default: f.name = "constant"; }
  return f;
}
struct Rec { const Fn* f; vk::Case* c; VectorXd xp, gp; double fp; double ftol, gtol, wolfe; int ls, maxls, evals = 0, iters = 0, lsEvals = 0, cancelAt = -1; double eps; std::string what; double lastF = 0; };
static double cbEval(void* p, const double* x, double* g, const int n, const double) { Rec& R = *(Rec*)p; R.evals++; R.lsEvals++; Eigen::Map<const VectorXd> X(x, n); VectorXd G; double f = (*R.f)(X, &G); Eigen::Map<VectorXd>(g, n) = G; R.lastF = f; return f; }
static int cbProg(void* p, const double* x, const double* g, const double fx, const double xn, const double gn, const double step, int n, int k, int ls) {
  Rec& R = *(Rec*)p; vk::Case& c = *R.c; R.iters++; Eigen::Map<const VectorXd> X(x, n), G(g, n); VectorXd g2; double f2 = (*R.f)(X, &g2);
  c.require("iterations_numbered", k == R.iters && n == R.f->n, R.what);
  c.check("reported_iterate_value", std::abs(f2 - fx), 1e-12 * (1 + std::abs(f2)), R.what); c.check("reported_iterate_gradient", (g2 - G).norm(), 1e-12 * (1 + g2.norm()), R.what);
  c.check("reported_norms", std::max(std::abs(xn - X.norm()) / (1 + xn), std::abs(gn - G.norm()) / (1 + gn)), 1e-9, R.what);
  VectorXd s = X - R.xp; double dg0 = R.gp.dot(s), dg1 = G.dot(s), slack = 1e-10 * (1 + std::abs(R.fp)) + 1e-12 * R.gp.norm() * (1 + X.norm());
  c.check("sufficient_decrease", fx - R.fp - R.ftol * dg0, slack, VKS(R.what << " k=" << k << " f " << R.fp << "->" << fx));
  double cs = 1e-9 * (std::abs(dg0) + 1e-300) + 1e-12 * (1 + X.norm()) * (G.norm() + R.gp.norm());
  if (R.ls == 0) c.check("curvature", std::abs(dg1) - R.gtol * std::abs(dg0), cs, VKS(R.what << " k=" << k));
  if (R.ls == 3) c.check("curvature", std::abs(dg1) - R.wolfe * std::abs(dg0), cs, VKS(R.what << " k=" << k));
  if (R.ls == 2) c.check("curvature", R.wolfe * dg0 - dg1, cs, VKS(R.what << " k=" << k));
  c.require("line_search_budget", ls <= R.maxls && R.lsEvals <= R.maxls, VKS(R.what << " k=" << k << " ls=" << ls << " evals=" << R.lsEvals)); R.lsEvals = 0;
  R.xp = X; R.gp = G; R.fp = fx; return R.iters == R.cancelAt ? 77 : 0;
}
static void direct(vk::Case& c) {
  vk::Rng& r = c.rng; Fn f = gen(r); int n = f.n; VectorXd x(n); double sc = r.pick<double>({0.1, 1, 1, 5}); for (int i = 0; i < n; i++) x[i] = r.normal() * sc; VectorXd x0 = x;
  solver::lbfgs_parameter_t P; solver::lbfgs_parameter_init(&P);
  P.linesearch = r.irange(0, 3); if (r.chance(0.5)) P.m = r.irange(1, 12); if (r.chance(0.4)) P.epsilon = r.pick<double>({1e-2, 1e-4, 1e-6}); P.max_iterations = f.kind == 8 ? r.irange(1, 6) : r.chance(0.35) ? r.irange(1, 12) : 3000; if (r.chance(0.3)) P.max_linesearch = r.irange(2, 20);
  if (r.chance(0.2)) P.ftol = r.pick<double>({1e-3, 0.05, 0.2}); if (r.chance(0.2)) P.wolfe = r.uni(0.5, 0.95); if (r.chance(0.2)) P.gtol = r.uni(0.3, 0.95); if (r.chance(0.1)) { P.past = r.irange(1, 5); P.delta = 1e-4; }
  int bad = r.chance(0.06) ? r.irange(1, 11) : 0; int nn = n;
  switch (bad) { case 1: P.epsilon = -1; break; case 2: P.past = -1; break; case 3: P.delta = -1; break; case 4: P.min_step = -1; break; case 5: P.max_step = P.min_step * 0.5; break; case 6: P.ftol = -1; break; case 7: P.linesearch = 2; P.wolfe = 1.5; break; case 8: P.gtol = -1; break; case 9: P.xtol = -1; break; case 10: P.max_linesearch = 0; break; case 11: P.linesearch = 17; break; }
  VectorXd g0; double f0 = f(x, &g0); Rec R; R.f = &f; R.c = &c; R.xp = x; R.gp = g0; R.fp = f0; R.ftol = P.ftol; R.gtol = P.gtol; R.wolfe = P.wolfe; R.ls = P.linesearch; R.maxls = P.max_linesearch; R.lsEvals = -1;
  if (r.chance(0.1)) R.cancelAt = r.irange(1, 4);
  R.what = VKS(f.name << " n=" << n << " ls=" << P.linesearch << " m=" << P.m << " eps=" << P.epsilon << " maxit=" << P.max_iterations << " maxls=" << P.max_linesearch << " bad=" << bad << " past=" << P.past);
  double fx = 12345.0; int ret = solver::lbfgs(nn, x.data(), &fx, cbEval, cbProg, &R, &P);
  c.sig = VKS("d" << f.name << n << "l" << P.linesearch << "m" << P.m << "r" << ret); c.nontrivial = R.iters > 0; c.count(VKS("status " << ret)); c.count("iterations", R.iters); c.count("evaluations", R.evals);
  c.sample = VKS(R.what << " -> status " << ret << " after " << R.iters << " iterations f " << f0 << " -> " << fx);
  if (bad) { c.require("invalid_parameter_rejected", ret < 0 && (x - x0).norm() == 0 && R.evals == 0, c.sample); return; }
  VectorXd g; double fr = f(x, &g);
  // after a failed line search the value handed out is that of the rejected trial point (F7: the test suite relies on it)
  bool rejected = ret < 0 && ret != solver::LBFGSERR_MAXIMUMITERATION && x == R.xp && (fx == R.lastF || (std::isnan(fx) && std::isnan(R.lastF))) && !(std::abs(fr - fx) <= 1e-12 * (1 + std::abs(fr)));
  c.require("finite_result", x.allFinite() && (rejected || std::isfinite(fx)), c.sample);
  if (rejected) c.require("value_of_rejected_trial_after_failed_line_search", false, c.sample);
  else c.check("reported_value_is_value_at_reported_point", std::abs(fr - fx), 1e-12 * (1 + std::abs(fr)), c.sample);
  c.check("no_worse_than_start", fr - f0, 1e-12 * (1 + std::abs(f0)), c.sample);
  if (R.iters > 0 && ret != 77) c.check("no_worse_than_last_iterate", fr - R.fp, 1e-12 * (1 + std::abs(R.fp)), c.sample);
  c.require("iteration_limit", R.iters <= P.max_iterations, c.sample);
  double rel = g.norm() / std::max(1.0, x.norm());
  if (ret == solver::LBFGS_SUCCESS || ret == solver::LBFGS_ALREADY_MINIMIZED) c.check("gradient_small_on_success", rel, P.epsilon * (1 + 1e-9), c.sample);
  if (R.cancelAt > 0 && R.iters >= R.cancelAt) c.require("cancel_honoured", ret == 77 && R.iters == R.cancelAt && (x - R.xp).norm() == 0, c.sample);
  if (g0.norm() / std::max(1.0, x0.norm()) <= P.epsilon) c.require("already_minimized", ret == solver::LBFGS_ALREADY_MINIMIZED && (x - x0).norm() == 0, c.sample);
  if (ret == solver::LBFGSERR_MAXIMUMITERATION) c.require("limit_reported_only_at_limit", R.iters == P.max_iterations, c.sample);
  if (f.convex && P.max_iterations >= 1000 && P.max_linesearch >= 20 && P.past == 0 && R.cancelAt < 0) { c.count("convex_runs"); if (ret < 0) { c.count("convex_not_solved"); }
    if (P.linesearch != 1 && P.m >= 3) { c.count("convex_default_runs"); if (R.iters > 250) c.count("convex_slow"); }
    if (ret >= 0 && f.kind == 0) { VectorXd xs = f.A.fullPivLu().solve(f.b); c.check("least_squares_minimiser", (x - xs).norm(), 1.01 * P.epsilon * std::max(1.0, x.norm()) + 1e-9, c.sample); } }
}
struct Nlp : solver::NlpDescription { const Fn* f; VectorXd x0, xl, xu; MatrixXd G; VectorXd gl, gu; long evals = 0; std::vector<VectorXd> seen;
  void getNlpParameters(int& n, int& m) override { n = f->n; m = (int)gl.size(); }
  void getNlpBounds(int n, int m, double* a, double* b, double* p, double* q) override { for (int i = 0; i < n; i++) { a[i] = xl[i]; b[i] = xu[i]; } for (int i = 0; i < m; i++) { p[i] = gl[i]; q[i] = gu[i]; } }
  void getStartingPoint(int n, double* x) override { for (int i = 0; i < n; i++) x[i] = x0[i]; }
  double evaluateObjective(int n, const double* x) override { evals++; seen.push_back(Eigen::Map<const VectorXd>(x, n)); return (*f)(Eigen::Map<const VectorXd>(x, n), nullptr); }
  void evaluateConstraintsVector(int n, int m, const double* x, double* c) override { VectorXd v = G * Eigen::Map<const VectorXd>(x, n); for (int i = 0; i < m; i++) c[i] = v[i]; }
  double merit(const VectorXd& x, double w, VectorXd* g) const { double v = (*f)(x, g), p = 0; VectorXd k = G * x; auto term = [&](double t, double l, double u, const VectorXd& d) { double e = t < l ? t - l : t > u ? t - u : 0; p += e * e; if (g) *g += 2 * w * e * d; }; for (int i = 0; i < x.size(); i++) term(x[i], xl[i], xu[i], VectorXd::Unit(x.size(), i)); for (int i = 0; i < k.size(); i++) term(k[i], gl[i], gu[i], G.row(i).transpose()); return v + w * p; } };
static void wrapped(vk::Case& c) {
  vk::Rng& r = c.rng; Fn f; do f = gen(r); while (f.n > 12 || f.kind == 7 || f.kind == 8); int n = f.n, m = r.chance(0.4) ? 0 : r.irange(1, 4); Nlp p; p.f = &f; p.x0 = p.xl = p.xu = VectorXd(n); p.G = MatrixXd(m, n); p.gl = p.gu = VectorXd(m);
  for (int i = 0; i < n; i++) { p.x0[i] = r.normal(); p.xl[i] = r.chance(0.5) ? -1e3 : -r.uni(0, 2); p.xu[i] = r.chance(0.5) ? 1e3 : r.uni(0, 2); if (r.chance(0.05)) p.xu[i] = p.xl[i]; }
  for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) p.G(i, j) = r.normal(); p.gl[i] = -r.uni(0, 2); p.gu[i] = r.chance(0.3) ? p.gl[i] : p.gl[i] + r.uni(0, 3); if (r.chance(0.3)) p.gl[i] = -1e3; }
  double w = r.pick<double>({0, 1, 5, 20}); int maxit = r.chance(0.4) ? r.irange(1, 10) : 2000; double eps = r.pick<double>({1e-5, 1e-4, 1e-3}); int ls = r.irange(0, 3), maxls = 40;
  auto go = [&](double& f0, double& fr, VectorXd& x) { solver::LbfgsSolver s; s.initialize(&p, w); s.opt_params().max_iterations = maxit; s.opt_params().epsilon = eps; s.opt_params().linesearch = ls; maxls = s.opt_params().max_linesearch; p.evals = 0; p.seen.clear(); s.optimize(); x = p.optimalVector(); fr = p.optimalValue(); f0 = p.merit(p.x0, w, nullptr); };
  double f0, fr; VectorXd x; go(f0, fr, x); long ev = p.evals; std::string what = VKS(f.name << " n=" << n << " cons=" << m << " w=" << w << " maxit=" << maxit << " eps=" << eps << " ls=" << ls << " f " << f0 << " -> " << fr << " evals " << ev);
  c.sig = VKS("w" << f.name << n << "m" << m << "w" << w << "l" << ls); c.nontrivial = (x - p.x0).norm() > 0; c.sample = what;
  if (!c.require("finite_result", x.size() == n && x.allFinite(), what)) return;
  VectorXd g; double fx = p.merit(x, w, &g);
  bool off = !(std::abs(fx - fr) <= 1e-8 * (1 + std::abs(fx))), rejected = false;
  if (off) for (size_t i = p.seen.size() > (size_t)(2 * n + 1) ? p.seen.size() - (2 * n + 1) : 0; i < p.seen.size(); i++) { double v = p.merit(p.seen[i], w, nullptr); if (std::abs(v - fr) <= 1e-12 * (1 + std::abs(fr)) || (std::isnan(v) && std::isnan(fr))) rejected = true; }
  if (rejected) c.require("value_of_rejected_trial_after_failed_line_search", false, what);
  else c.check("reported_value_is_value_at_reported_point", std::abs(fx - fr), 1e-8 * (1 + std::abs(fx)), what);
  c.check("no_worse_than_start", fx - f0, 1e-8 * (1 + std::abs(f0)), what);
  c.check("evaluation_budget", (double)ev, (1.0 + (double)maxit * maxls) * (2 * n + 1), what);
  if (f.convex && maxit >= 1000 && ls != 1) { c.count("convex_runs"); double rel = g.norm() / std::max(1.0, x.norm()); if (!(rel <= eps * 1.01 + 1e-7)) { c.count("convex_not_solved"); } else c.count("convex_solved"); }
  double f02, fr2; VectorXd x2; go(f02, fr2, x2); c.require("repeatable", fr2 == fr && x2 == x && p.evals == ev, what);
}
int main(int argc, char** argv) { return vk::run(argc, argv, "s07", [](vk::Case& c) { if (c.rng.chance(0.65)) direct(c); else wrapped(c); }); }
