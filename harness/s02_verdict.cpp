// Infeasible / unbounded / iteration-limited programs with known truth.
#include "conic.hpp"
using namespace cp;
static Aff rawAff(vk::Rng& r, int n, double dens = 0.8) { Aff f; f.a = rvec(r, n, dens); f.b = r.normal(); return f; }
static void noise(vk::Rng& r, Prog& p, int k) {  // harmless extra constraints, all satisfied near the origin with slack
  for (int i = 0; i < k; i++) { Con c; int t = r.irange(0, 2);
    if (t == 0) { c.k = LE; c.lin = rawAff(r, p.n); c.lin.b = -r.uni(5, 20); }
    else if (t == 1) { c.k = QUA; c.q.l = zeroAff(p.n); for (int j = 0; j < 2; j++) { c.q.t.push_back(rawAff(r, p.n)); c.q.c.push_back(r.uni(0.3, 1)); } c.q.l.b = -r.uni(30, 60); }
    else { c.k = SOC; c.s.l = zeroAff(p.n); for (int j = 0; j < 2; j++) c.s.t.push_back(rawAff(r, p.n)); c.s.l.b = -r.uni(10, 20); }
    p.cons.push_back(c); } }
static void ball(vk::Rng& r, Prog& p, const VectorXd& ctr, double rad, bool soc) { Con c; c.k = soc ? SOC : QUA;
  for (int i = 0; i < p.n; i++) { Aff f = zeroAff(p.n); f.a[i] = 1; f.b = -ctr[i]; if (soc) c.s.t.push_back(f); else { c.q.t.push_back(f); c.q.c.push_back(1); } }
  c.s.l = zeroAff(p.n); c.s.l.b = -rad; c.q.l = zeroAff(p.n); c.q.l.b = -rad * rad; p.cons.push_back(c); }
static std::string infeasible(vk::Rng& r, Prog& p) {
  int n = p.n = r.irange(1, 7); p.obj.l = zeroAff(n); double mg = r.uni(0.5, 3); std::string kind;
  switch (r.irange(0, 6)) {
    case 5: { kind = "constant-constraint"; Con c; c.k = LE; c.lin = zeroAff(n); c.lin.b = mg; p.cons.push_back(c); break; }
    case 0: { kind = "farkas-lp"; int k = r.irange(1, 4); VectorXd s = VectorXd::Zero(n); double b = 0; for (int i = 0; i < k; i++) { Con c; c.k = r.chance(0.3) ? EQ : LE; c.lin = rawAff(r, n); double l = r.uni(0.3, 2) * (c.k == EQ ? r.sgn() : 1); s += l * c.lin.a; b += l * c.lin.b; p.cons.push_back(c); }
      Con c; c.k = LE; c.lin.a = -s; c.lin.b = -b + mg; p.cons.push_back(c); break; }
    case 1: { kind = "ball-vs-halfspace"; VectorXd ctr = rvec(r, n); double rad = r.uni(0.3, 1.5); ball(r, p, ctr, rad, r.chance(0.5)); Con c; c.k = LE; VectorXd a = rvec(r, n); a.normalize(); c.lin.a = -a; c.lin.b = a.dot(ctr) + rad + mg; p.cons.push_back(c); break; }
    case 2: { kind = "disjoint-balls"; VectorXd c1 = rvec(r, n), dir = rvec(r, n); dir.normalize(); double r1 = r.uni(0.3, 1.5), r2 = r.uni(0.3, 1.5); ball(r, p, c1, r1, r.chance(0.5)); ball(r, p, c1 + (r1 + r2 + mg) * dir, r2, r.chance(0.5)); break; }
    case 3: { kind = "positive-quadratic"; Con c; c.k = QUA; c.q.l = zeroAff(n); int k = r.irange(1, 3); for (int j = 0; j < k; j++) { c.q.t.push_back(rawAff(r, n)); c.q.c.push_back(r.uni(0.3, 2)); } c.q.l.b = mg; p.cons.push_back(c); ball(r, p, VectorXd::Zero(n), 3, true); break; }
    case 4: { kind = "inconsistent-equalities"; Con c; c.k = EQ; c.lin = rawAff(r, n); p.cons.push_back(c); c.lin.a *= 2; c.lin.b = 2 * c.lin.b + mg; p.cons.push_back(c); break; }
    default: { kind = "negative-norm-bound"; Con c; c.k = SOC; int k = r.irange(1, 3); for (int j = 0; j < k; j++) c.s.t.push_back(rawAff(r, n)); c.s.l = zeroAff(n); c.s.l.b = mg; p.cons.push_back(c); break; }
  }
  // keep the dual side clean: bounded variables
  for (int i = 0; i < n; i++) for (int s = -1; s <= 1; s += 2) { Con c; c.k = LE; c.lin = zeroAff(n); c.lin.a[i] = s; c.lin.b = -50; p.cons.push_back(c); }
  noise(r, p, r.irange(0, 2));
  p.obj.l.a = rvec(r, n); if (r.chance(0.3)) { p.obj.t.push_back(rawAff(r, n)); p.obj.c.push_back(1); }
  r.shuffle(p.cons); return kind;
}
static std::string unbounded(vk::Rng& r, Prog& p) {
  int n = p.n = r.irange(1, 7); VectorXd d = rvec(r, n); d.normalize(); p.obj.l = zeroAff(n);
  int k = r.irange(1, 6); std::string kind = "ray";
  for (int i = 0; i < k; i++) { Con c; int t = r.irange(0, n > 1 ? 3 : 1);
    if (t == 0) { c.k = LE; c.lin.a = rvec(r, n); double s = c.lin.a.dot(d); if (s > 0) c.lin.a = -c.lin.a; c.lin.a -= 0.2 * d; c.lin.b = -r.uni(0.5, 3); }
    else if (t == 1) { c.k = SOC; Aff f; f.a = rvec(r, n) * 0.5; f.b = 0.3 * r.normal(); c.s.t.push_back(f); c.s.l.a = rvec(r, n) * 0.3; double s = c.s.l.a.dot(d); c.s.l.a -= (s + std::abs(f.a.dot(d)) + 0.3) * d; c.s.l.b = -r.uni(1, 3); }
    else if (t == 2) { c.k = EQ; c.lin.a = rvec(r, n); c.lin.a -= c.lin.a.dot(d) * d; c.lin.b = 0; if (i > 0 || c.lin.a.norm() < 0.1) continue; }
    else { c.k = QUA; Aff f; f.a = rvec(r, n); f.a -= f.a.dot(d) * d; f.b = 0.3 * r.normal(); c.q.t.push_back(f); c.q.c.push_back(r.uni(0.3, 1)); c.q.l.a = -r.uni(0.3, 0.8) * d; c.q.l.b = -r.uni(1, 3); }
    p.cons.push_back(c); }
  if (p.cons.empty()) { Con c; c.k = LE; c.lin.a = -d; c.lin.b = -1; p.cons.push_back(c); }
  p.obj.l.a = rvec(r, n); p.obj.l.a -= (p.obj.l.a.dot(d) + r.uni(0.5, 1.5)) * d;
  if (r.chance(0.3) && n > 1) { Aff f; f.a = rvec(r, n); f.a -= f.a.dot(d) * d; f.b = r.normal(); if (f.a.norm() > 0.1) { p.obj.t.push_back(f); p.obj.c.push_back(1); kind = "ray+quadratic"; } }
  r.shuffle(p.cons); return kind;
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; int mode = (int)(c.id % 4); Prog p; Planted P; std::string kind; double mv = 0;
  if (mode == 0) kind = infeasible(r, p); else if (mode == 1) kind = unbounded(r, p); else { P = plant(r, 6); p = P.p; kind = "feasible"; if (r.chance(0.1)) { Con k; k.k = LE; k.lin = zeroAff(p.n); k.lin.b = -r.uni(0.1, 2); p.cons.push_back(k); } }
  Model m; config(m); auto v = addVars(m, p); for (auto& k : p.cons) addCon(m, k, v, r); setObj(m, p.obj, v, r);
  int lim = 100; if (mode == 3) { lim = r.irange(1, 14); m.getSetting().set(solver::SolverIntParam_SolverMaxIters, lim); kind = "iteration-limited"; }
  ExitCode e = m.optimize(); VectorXd x = values(v); mv = p.maxviol(x);
  c.sig = kind + ":" + p.sig(); c.nontrivial = true; c.count(kind + " -> " + ecName(e));
  c.sample = VKS(kind << " " << p.sig() << " limit " << lim << " -> " << ecName(e) << " viol=" << mv);
  bool opt = e == ExitCode::Optimal || e == ExitCode::OptimalInacc, pinf = e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc, dinf = e == ExitCode::DualInf || e == ExitCode::DualInfInacc;
  if (mode == 0) { c.require("infeasible_not_optimal", !opt, c.sample); c.require("infeasible_not_unbounded_verdict", !dinf, c.sample); c.count("obs:infeasible_verdict"); if (!pinf) c.count("infeasible_verdict_missed"); }
  else if (mode == 1) { c.require("unbounded_not_optimal", !opt, c.sample); c.require("unbounded_not_infeasible_verdict", !pinf, c.sample); bool cone = false; bool strict = p.obj.t.empty(); for (auto& k : p.cons) { cone = true; strict &= k.k == LE || k.k == SOC; } if (cone && strict) { c.count("obs:unbounded_verdict"); if (!dinf) c.count("unbounded_verdict_missed"); } }
  else {
    c.require("feasible_no_false_infeasible", !pinf, c.sample); c.require("bounded_no_false_unbounded", !dinf, c.sample);
    if (opt) { double lo = e == ExitCode::Optimal ? 1 : 2e4, xs = 1 + std::max(x.norm(), P.x.norm()); c.check("limited_optimal_is_feasible", mv / xs, 2e-6 * lo, c.sample); c.check("limited_optimal_is_optimal", std::abs(p.obj(x) - P.f) / (1 + std::abs(P.f) + p.obj.l.a.norm() * xs), 2e-6 * lo, c.sample); }
    else if (mode == 3) c.count("limit_reached_without_claim");
  }
}
int main(int argc, char** argv) { return vk::run(argc, argv, "s02", one); }
