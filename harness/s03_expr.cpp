// Expression programs against a shadow interpreter; constraint senses against a closed-form LP; variable blocks against a map.
#include "conic.hpp"
#include <solver/interface/OptVar.hpp>
#include <set>
using namespace cp;
using solver::OptimizationVariable;
struct Sh { VectorXd a; double b; };
static void exprProgram(vk::Case& c) {
  vk::Rng& r = c.rng; int n = r.irange(1, 6); Model m; config(m); std::vector<Var> v; VectorXd x(n);
  for (int i = 0; i < n; i++) { v.push_back(m.addVar(VarType::Continuous, -1e3, 1e3, 0.0)); x[i] = r.uni(-2, 2); }
  std::vector<LinExpr> e; std::vector<Sh> s; int ops = 0;
  auto zero = [&]() { Sh q; q.a = VectorXd::Zero(n); q.b = 0; return q; };
  auto unit = [&](int i, double k) { Sh q = zero(); q.a[i] = k; return q; };
  for (int k = 0; k < 4; k++) { int i = r.irange(0, n - 1); double w = r.uni(-2, 2); switch (r.irange(0, 3)) { case 0: e.push_back(LinExpr(v[i], w)); s.push_back(unit(i, w)); break; case 1: e.push_back(LinExpr(w)); s.push_back(zero()); s.back().b = w; break; case 2: e.push_back(v[i]); s.push_back(unit(i, 1)); break; default: e.push_back(LinExpr()); s.push_back(zero()); } }
  int L = r.irange(5, c.tier == "thorough" ? 120 : 40); std::string trace;
  for (int k = 0; k < L; k++) {
    int p = r.irange(0, (int)e.size() - 1), q = r.irange(0, (int)e.size() - 1), i = r.irange(0, n - 1), j = r.irange(0, n - 1); double w = r.chance(0.1) ? 0.0 : r.uni(-1.5, 1.5), nz = r.sgn() * r.uni(0.4, 2); int op = r.irange(0, 32); ops++; c.count("op:" + std::to_string(op));
    trace += std::to_string(op) + (p == q ? "=" : "") + " "; LinExpr R; Sh S = zero(); bool push = true;
    switch (op) {
      case 0: e[p] += e[q]; { Sh t = s[q]; s[p].a += t.a; s[p].b += t.b; } push = false; break;
      case 1: e[p] -= e[q]; { Sh t = s[q]; s[p].a -= t.a; s[p].b -= t.b; } push = false; break;
      case 2: e[p] += w; s[p].b += w; push = false; break;
      case 3: e[p] -= w; s[p].b -= w; push = false; break;
      case 4: e[p] *= w; s[p].a *= w; s[p].b *= w; push = false; break;
      case 5: e[p] /= nz; s[p].a /= nz; s[p].b /= nz; push = false; break;
      case 6: R = e[p] + e[q]; S.a = s[p].a + s[q].a; S.b = s[p].b + s[q].b; break;
      case 7: R = e[p] - e[q]; S.a = s[p].a - s[q].a; S.b = s[p].b - s[q].b; break;
      case 8: R = e[p] * w; S.a = s[p].a * w; S.b = s[p].b * w; break;
      case 9: R = w * e[p]; S.a = s[p].a * w; S.b = s[p].b * w; break;
      case 10: R = e[p] / nz; S.a = s[p].a / nz; S.b = s[p].b / nz; break;
      case 11: R = e[p] + w; S = s[p]; S.b += w; break;
      case 12: R = e[p] - w; S = s[p]; S.b -= w; break;
      case 13: R = w + e[p]; S = s[p]; S.b += w; break;
      case 14: R = w - e[p]; S.a = -s[p].a; S.b = w - s[p].b; break;
      case 15: R = e[p] + v[i]; S = s[p]; S.a[i] += 1; break;
      case 16: R = e[p] - v[i]; S = s[p]; S.a[i] -= 1; break;
      case 17: R = v[i] - e[p]; S.a = -s[p].a; S.b = -s[p].b; S.a[i] += 1; break;
      case 18: R = -e[p]; S.a = -s[p].a; S.b = -s[p].b; break;
      case 19: R = +e[p]; S = s[p]; break;
      case 20: R = v[i] + v[j]; S.a[i] += 1; S.a[j] += 1; break;
      case 21: R = v[i] - v[j]; S.a[i] += 1; S.a[j] -= 1; break;
      case 22: R = v[i] * w; S.a[i] = w; break;
      case 23: R = w * v[i]; S.a[i] = w; break;
      case 24: R = v[i] / nz; S.a[i] = 1 / nz; break;
      case 25: R = w + v[i]; S.a[i] = 1; S.b = w; break;
      case 26: R = v[i] + w; S.a[i] = 1; S.b = w; break;
      case 27: R = w - v[i]; S.a[i] = -1; S.b = w; break;
      case 28: R = v[i] - w; S.a[i] = 1; S.b = -w; break;
      case 29: R = -v[i]; S.a[i] = -1; break;
      case 30: R = LinExpr::clean(e[p]); S = s[p]; break;
      case 31: e[p].clear(); s[p] = zero(); push = false; break;
      default: R = e[p]; S = s[p]; e[p] = e[q]; s[p] = s[q]; break;
    }
    if (push) { if (e.size() < 12) { e.push_back(R); s.push_back(S); } else { e[q] = R; s[q] = S; } }
    for (auto& t : s) if (t.a.cwiseAbs().maxCoeff() > 1e4 || std::abs(t.b) > 1e4) { for (size_t z = 0; z < s.size(); z++) if (&s[z] == &t) { e[z] = LinExpr(v[0]); s[z] = unit(0, 1); } }
  }
  // coefficients as stored
  for (size_t k = 0; k < e.size(); k++) { VectorXd a = VectorXd::Zero(n); for (size_t t = 0; t < e[k].size(); t++) a[e[k].getVar(t).get(solver::SolverIntParam_ColNum)] += e[k].getCoeff(t);
    c.check("coefficients", (a - s[k].a).cwiseAbs().maxCoeff() / (1 + s[k].a.cwiseAbs().maxCoeff()), 1e-9, trace); c.check("constant", std::abs(e[k].getConstant() - s[k].b) / (1 + std::abs(s[k].b)), 1e-9, trace); }
  // quadratic expression value = its quadratic part
  DCPQuadExpr q; std::vector<std::pair<double, Sh>> qs; int nq = r.irange(1, 4); for (int k = 0; k < nq; k++) { int p = r.irange(0, (int)e.size() - 1); double w = r.chance(0.15) ? 0.0 : r.uni(-2, 2); q.addQuaTerm(w, e[p]); qs.push_back({w, s[p]}); }
  // pin the variables through constraints, in a random form, and read the values back at the solution
  for (int i = 0; i < n; i++) { LinExpr R = x[i] * 0.5; if (r.chance(0.5)) m.addLinConstr(LinExpr(v[i], 0.5), "=", R); else m.addLinConstr(R, "=", LinExpr(v[i], 0.5)); }
  if (r.chance(0.5)) m.addLinConstr(LinExpr(v[0]), "<", 1e2);
  DCPQuadExpr o; for (int i = 0; i < n; i++) o.addQuaTerm(1.0, LinExpr(v[i])); m.setObjective(o, LinExpr(v[0]));
  ExitCode ec = m.optimize(); if (!c.require("pinned_program_solved", ec == ExitCode::Optimal || ec == ExitCode::OptimalInacc, ecName(ec))) return;
  double loose = ec == ExitCode::Optimal ? 1 : 1e3;
  VectorXd y = values(v); c.check("pinned_values", (y - x).cwiseAbs().maxCoeff(), 1e-5 * loose, "");
  for (size_t k = 0; k < e.size(); k++) { double want = s[k].a.dot(y) + s[k].b; c.check("linear_value_at_solution", std::abs(e[k].getValue() - want) / (1 + s[k].a.cwiseAbs().sum() + std::abs(s[k].b)), 1e-9, trace); }
  double want = 0, sc = 1; for (auto& p : qs) { double t = p.second.a.dot(y) + p.second.b; want += p.first * t * t; sc += std::abs(p.first) * t * t; }
  c.check("quadratic_value_at_solution", std::abs(q.getValue() - want) / sc, 1e-8, trace);
  c.sig = "expr" + trace; c.nontrivial = true; c.sample = VKS("expression program, " << n << " variables, " << ops << " operations: " << trace.substr(0, 60));
}
// variables of very different magnitude: coefficients w / S_i meet values y_i * S_i, so no coefficient may be dropped for being small
static void scaled(vk::Case& c) {
  vk::Rng& r = c.rng; int n = r.irange(1, 5); Model m; config(m); std::vector<Var> v; VectorXd y(n), S(n);
  for (int i = 0; i < n; i++) { v.push_back(m.addVar(VarType::Continuous, -1e3, 1e3, 0.0)); y[i] = r.uni(-2, 2); S[i] = std::ldexp(1.0, r.irange(-60, 60)); v[i].set(solver::SolverDoubleParam_X, y[i] * S[i]); }
  std::vector<LinExpr> e; std::vector<Sh> s; std::string trace;
  auto leaf = [&]() { int i = r.irange(0, n - 1); double w = r.uni(-2, 2); Sh q; q.a = VectorXd::Zero(n); q.b = 0; q.a[i] = w; if (r.chance(0.3)) { q.b = r.uni(-2, 2); e.push_back(LinExpr(v[i], w / S[i]) + q.b); } else e.push_back(r.chance(0.5) ? LinExpr(v[i], w / S[i]) : LinExpr((w / S[i]) * v[i])); s.push_back(q); };
  for (int k = 0; k < 3; k++) leaf();
  int L = r.irange(1, 25);
  for (int k = 0; k < L; k++) { int p = r.irange(0, (int)e.size() - 1), q = r.irange(0, (int)e.size() - 1), op = r.irange(0, 8); double w = r.sgn() * r.uni(0.3, 2); Sh t = s[q]; trace += "S" + std::to_string(op);
    switch (op) {
      case 0: e[p] += LinExpr(e[q]); s[p].a += t.a; s[p].b += t.b; break;
      case 1: e[p] -= LinExpr(e[q]); s[p].a -= t.a; s[p].b -= t.b; break;
      case 2: e[p] *= w; s[p].a *= w; s[p].b *= w; break;
      case 3: e[p] = e[p] / w; s[p].a /= w; s[p].b /= w; break;
      case 4: e[p] = e[p] + e[q]; s[p].a += t.a; s[p].b += t.b; break;
      case 5: e[p] = e[q] - e[p]; s[p].a = t.a - s[p].a; s[p].b = t.b - s[p].b; break;
      case 6: e[p] = LinExpr::clean(e[p]); break;
      case 7: e[p] = -e[p]; s[p].a = -s[p].a; s[p].b = -s[p].b; break;
      default: if (e.size() < 8) leaf(); break; }
    if (s[p].a.cwiseAbs().maxCoeff() > 1e4 || std::abs(s[p].b) > 1e4) { e[p] = LinExpr(0.0); s[p].a.setZero(); s[p].b = 0; } }
  DCPQuadExpr q; double want = 0, sc = 1;
  for (size_t k = 0; k < e.size(); k++) { double t = s[k].a.dot(y) + s[k].b; c.check("linear_value_any_magnitude", std::abs(e[k].getValue() - t) / (1 + s[k].a.cwiseAbs().sum() + std::abs(s[k].b)), 1e-9, trace);
    double w = r.uni(-2, 2) * std::ldexp(1.0, r.irange(-50, 20)); double g = std::ldexp(1.0, r.irange(-30, 30)); q = DCPQuadExpr(); q.addQuaTerm(w / (g * g), e[k] * g); c.check("quadratic_value_any_magnitude", std::abs(q.getValue() - w * t * t) / (std::abs(w) * (1 + t * t)), 1e-8, trace); }
  c.sig = "scaled" + trace; c.nontrivial = true; c.sample = VKS("expression program over variables of magnitude " << S.transpose());
}
// min c.x  s.t.  a.x + a0 (<,=,>) b.x + b0, -1 <= x <= 1 : closed form through the one-dimensional dual
static void sense(vk::Case& c) {
  vk::Rng& r = c.rng; int n = r.irange(1, 6); Prog p; p.n = n; Aff A, B; A.a = rvec(r, n, 0.7); A.b = r.normal(); B.a = r.chance(0.6) ? rvec(r, n, 0.7) : VectorXd::Zero(n); B.b = r.normal(); VectorXd cc = rvec(r, n), x0(n); for (int i = 0; i < n; i++) x0[i] = r.uni(-0.8, 0.8);
  VectorXd a = A.a - B.a; if (a.norm() < 0.3) { c.count("skipped"); return; }
  int s = r.irange(0, 2); double h = (s == 2 ? -1.0 : 1.0) * a.dot(x0) + (s == 1 ? 0 : r.uni(0.05, 0.5)); if (s == 2) { a = -a; }  // a.x <= h  (or =)
  A.b = 0; B.b = (s == 2 ? -h : h); double sh = r.normal(); A.b += sh; B.b += sh;
  Model m; config(m); std::vector<Var> v; for (int i = 0; i < n; i++) v.push_back(m.addVar(VarType::Continuous, -1, 1));
  for (int i = 0; i < n; i++) { if (r.chance(0.5)) m.addLinConstr(v[i], "<", 1.0); else m.addLinConstr(1.0, ">", v[i]); if (r.chance(0.5)) m.addLinConstr(v[i], ">", -1.0); else m.addLinConstr(-v[i], "<", 1.0); }
  m.addLinConstr(expr(A, v, r), s == 0 ? "<" : s == 1 ? "=" : ">", expr(B, v, r));
  Quad o; o.l.a = cc; o.l.b = r.normal(); setObj(m, o, v, r);
  auto dual = [&](double l) { double f = -l * h; for (int i = 0; i < n; i++) f -= std::abs(cc[i] + l * a[i]); return f; };
  double best = dual(0); for (int i = 0; i < n; i++) if (a[i] != 0) { double l = -cc[i] / a[i]; if (l > 0 || s == 1) best = std::max(best, dual(l)); }
  ExitCode ec = m.optimize(); VectorXd x = values(v); std::string d = VKS("n=" << n << " sense " << "<=>"[s] << " f*=" << best << " -> " << ecName(ec) << " f=" << cc.dot(x));
  c.sig = VKS("sense" << s << "n" << n << "k" << (c.id % 97)); c.nontrivial = true; c.sample = d;
  if (!c.require("sense_program_solved", ec == ExitCode::Optimal || ec == ExitCode::OptimalInacc, d)) return;
  double loose = ec == ExitCode::Optimal ? 1 : 1e3;
  double viol = s == 1 ? std::abs(a.dot(x) - h) : std::max(0.0, a.dot(x) - h); c.check("relation_holds", viol, 3e-6 * loose, d); c.check("box_holds", std::max(0.0, x.cwiseAbs().maxCoeff() - 1), 3e-6 * loose, d);
  c.check("relation_exact", std::abs(cc.dot(x) - best) / (1 + std::abs(best)), 1e-5 * loose, d);
}
static void misuse(vk::Case& c) {
  vk::Rng& r = c.rng; Model m; config(m); int n = r.irange(1, 5); std::vector<Var> v;
  for (int i = 0; i < n; i++) { double lb = r.uni(-3, 0), ub = lb + r.uni(0, 3), g = r.uni(-6, 6); Var x = m.addVar(r.chance(0.3) ? VarType::Binary : VarType::Continuous, lb, ub, g); v.push_back(x);
    c.require("column_numbers_in_order", x.get(solver::SolverIntParam_ColNum) == i, VKS(x.get(solver::SolverIntParam_ColNum) << " for variable " << i));
    c.require("bounds_read_back", x.get(solver::SolverDoubleParam_LB) == lb && x.get(solver::SolverDoubleParam_UB) == ub, VKS(lb << " " << ub << " read " << x.get(solver::SolverDoubleParam_LB) << " " << x.get(solver::SolverDoubleParam_UB)));
    double gc = std::min(std::max(g, lb), ub); c.require("guess_clamped_into_bounds", x.get(solver::SolverDoubleParam_Guess) == gc, VKS(g << " in [" << lb << "," << ub << "] -> " << x.get(solver::SolverDoubleParam_Guess))); }
  std::vector<Var> w = v; for (int i = 0; i < n; i++) { double a = r.normal(), b = r.normal(), d = r.normal(), e = r.normal(); v[i].set(solver::SolverDoubleParam_X, a); v[i].set(solver::SolverDoubleParam_LB, b); v[i].set(solver::SolverDoubleParam_UB, d); v[i].set(solver::SolverDoubleParam_Guess, e); Var y = w[i];
    c.require("copies_share_the_variable", y.get(solver::SolverDoubleParam_X) == a && y.get(solver::SolverDoubleParam_LB) == b && y.get(solver::SolverDoubleParam_UB) == d && y.get(solver::SolverDoubleParam_Guess) == e, "Var copy"); }
  auto throws = [&](const char* k, std::function<void()> f) { bool t = false; try { f(); } catch (std::exception&) { t = true; } c.require(std::string("rejected:") + k, t, "no exception"); };
  throws("lb>ub", [&] { m.addVar(VarType::Continuous, 1.0, 0.5); });
  std::string bad = r.pick<std::string>({"<=", ">=", "==", "", "!", "=<"});
  throws("linear sense", [&] { m.addLinConstr(v[0], bad, 1.0); });
  DCPQuadExpr q; q.addQuaTerm(1.0, v[0]); std::string bad2 = r.pick<std::string>({"=", ">", "<=", ""});
  throws("quadratic sense", [&] { m.addQuaConstr(q, bad2, 1.0); });
  throws("cone sense", [&] { m.addSocConstr(q, bad2, 1.0); });
  throws("uninitialised variable read", [&] { Var u; u.get(solver::SolverDoubleParam_X); });
  throws("wrong parameter", [&] { v[0].get(solver::SolverDoubleParam_PrimalCost); });
  c.sig = VKS("misuse" << n << bad << bad2); c.nontrivial = true;
}
static void blocks(vk::Case& c) {
  vk::Rng& r = c.rng; typedef OptimizationVariable::OptVector OV; typedef OptimizationVariable::OptMatrix OM; int nb = r.irange(1, 6), start0 = r.irange(0, 5), start = start0; std::set<int> ids; std::vector<OptimizationVariable> vs(nb); std::string sig = "blocks"; std::vector<OM> g(nb), lo(nb), hi(nb); std::vector<char> ty(nb);
  auto rm = [&](int a, int b) { OM x(a, b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) x(i, j) = r.normal(); return x; };
  for (int k = 0; k < nb; k++) {
    int R = r.irange(1, 7), C = r.irange(1, 9), form = r.irange(0, 6); char t = r.pick<char>({'C', 'B', 'I'}); ty[k] = t; double l = r.uni(-3, 0), u = r.uni(0, 3), gs = r.normal(); OV lv(R), uv(R); for (int i = 0; i < R; i++) { lv[i] = r.uni(-3, 0); uv[i] = r.uni(0, 3); } OM lm = rm(R, C), um = rm(R, C), gm = rm(R, C); int before = start;
    OM Lc = OM::Constant(R, C, l), Uc = OM::Constant(R, C, u), Lv(R, C), Uv(R, C), Z = OM::Zero(R, C); for (int j = 0; j < C; j++) { Lv.col(j) = lv; Uv.col(j) = uv; }
    if (r.chance(0.3)) { int dummy = 77; vs[k].initialize('Z', r.irange(1, 4), r.irange(1, 4), -9, 9, dummy, 5.0); }  // re-initialisation of a used block
    switch (form) {
      case 0: vs[k].initialize(t, R, C, l, u, start); lo[k] = Lc; hi[k] = Uc; g[k] = Z; break;
      case 1: vs[k].initialize(t, R, C, lv, uv, start); lo[k] = Lv; hi[k] = Uv; g[k] = Z; break;
      case 2: vs[k].initialize(t, R, C, lm, um, start); lo[k] = lm; hi[k] = um; g[k] = Z; break;
      case 3: vs[k].initialize(t, R, C, l, u, start, gs); lo[k] = Lc; hi[k] = Uc; g[k] = OM::Constant(R, C, gs); break;
      case 4: vs[k].initialize(t, R, C, l, u, start, gm); lo[k] = Lc; hi[k] = Uc; g[k] = gm; break;
      case 5: vs[k].initialize(t, R, C, lv, uv, start, gm); lo[k] = Lv; hi[k] = Uv; g[k] = gm; break;
      default: vs[k].initialize(t, R, C, lm, um, start, gm); lo[k] = lm; hi[k] = um; g[k] = gm; break;
    }
    sig += VKS("/" << form << ":" << R << "x" << C);
    c.require("start_advances_by_block_size", start == before + R * C && vs[k].getStartIndex() == before && vs[k].getNumRows() == R && vs[k].getNumCols() == C && vs[k].getNumElements() == R * C, sig);
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int id = vs[k].id(i, j); c.require("ids_unique", ids.insert(id).second, VKS(sig << " id " << id)); c.require("ids_column_major", id == before + j * R + i, sig); }
    int bi = r.irange(-3, R + 3), bj = r.irange(-3, C + 3); c.require("out_of_range_indices_clamp", vs[k].id(bi, bj) == vs[k].id(std::min(std::max(bi, 0), R - 1), std::min(std::max(bj, 0), C - 1)), sig);
  }
  c.require("ids_dense", (int)ids.size() == start - start0 && *ids.begin() == start0 && *ids.rbegin() == start - 1, sig);
  for (int step = 0; step < 8; step++) { int k = r.irange(0, nb - 1), R = vs[k].getNumRows(), C = vs[k].getNumCols(), j = r.irange(0, C - 1);
    switch (r.irange(0, 3)) { case 0: g[k] = rm(R, C); vs[k].setGuessValue(g[k]); break; case 1: vs[k].constraintIndexToCurrentValue(j); lo[k].col(j) = g[k].col(j); hi[k].col(j) = g[k].col(j); break;
      case 2: { double x = r.normal(); vs[k].setAndConstraintIndexToCurrentValue(j, x); g[k].col(j).setConstant(x); lo[k].col(j) = g[k].col(j); hi[k].col(j) = g[k].col(j); break; }
      default: { OV x(R); for (int i = 0; i < R; i++) x[i] = r.normal(); vs[k].setAndConstraintIndexToCurrentValue(j, x); g[k].col(j) = x; lo[k].col(j) = x; hi[k].col(j) = x; } }
    for (int q = 0; q < nb; q++) { OM a, b, d, e; int sz; char t; vs[q].getValues(a, b, d, sz, t); vs[q].getGuessValue(e);
      bool ok = a.rows() == lo[q].rows() && a.cols() == lo[q].cols() && a == lo[q] && b == hi[q] && d == g[q] && e == g[q] && sz == (int)g[q].size() && t == ty[q]; for (int j2 = 0; j2 < (int)g[q].cols() && ok; j2++) { OV col; vs[q].getGuessValueByCol(j2, col); ok = col == g[q].col(j2); }
      c.require("block_values_read_back", ok, sig); } }
  c.sig = sig; c.nontrivial = true; c.sample = sig;
}
static void one(vk::Case& c) { switch (c.id % 6) { case 0: case 1: exprProgram(c); break; case 2: sense(c); break; case 3: misuse(c); break; case 4: scaled(c); break; default: blocks(c); } }
int main(int argc, char** argv) { return vk::run(argc, argv, "s03", one); }
