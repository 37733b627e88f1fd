// L01: linear-quadratic problems are solved to the exact optimum.
#include "lqr.hpp"
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; int nx = r.irange(1, 6), nu = r.irange(1, 4), T = r.chance(0.15) ? 1 : r.irange(1, r.chance(0.2) ? 60 : 20); bool rk = r.chance(0.4), cross = r.chance(0.5); int lim = r.irange(0, 5); if (lim > 2) lim = 0; if (lim && T > 8) T = c.tier == "quick" ? 1 + T % 8 : 1 + T % 16;
  SolverLqrSetting s = settings(T, nx, nu); s.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = rk;
  LqOcp o; o.c = &c; o.gen(r, T, nx, nu, cross); o.initialize(s); VectorXd x0 = rnd(r, nx, 1, r.pick(std::vector<double>{0, 1, 3})); int gk = r.irange(0, 2); c.sig = VKS(nx << "x" << nu << "x" << T << (rk ? "rk" : "eu") << (cross ? "c" : "") << "g" << gk << "l" << lim); c.nontrivial = T > 1; c.sample = c.sig;
  MatrixXd H; VectorXd g; o.dense(H, g, x0); VectorXd us = -H.ldlt().solve(g); double um = us.cwiseAbs().maxCoeff();
  VectorXd lo, hi; guess(r, o, x0, gk, 1);
  if (lim) { lo.resize(nu); hi.resize(nu); for (int i = 0; i < nu; ++i) { if (lim == 1) { lo(i) = -3 * um - 8; hi(i) = 3 * um + 8; } else { double a = r.uni(-1, 1) * um * 0.4, w = r.uni(0.05, 0.6) * um + 0.05; lo(i) = a - w; hi(i) = a + w; } } s.get(SolverLqrBoolParam_HasControlLimits) = true; s.get(SolverLqrVectorParam_MinControlLimits) = lo; s.get(SolverLqrVectorParam_MaxControlLimits) = hi; }
  std::vector<VectorXd> ini = ffs(o);   // cost of the initial guess as the library first executes it
  { ForwardPass fp; fp.initialize(&o, s); StateSequence ss = o.stateSeq(); fp.applyController(ss, o.controlSeq()); }
  double J0; { std::vector<VectorXd> u; VectorXd x = x0; for (int t = 0; t < T; ++t) { VectorXd v = ini[t] + o.controlSeq().control(t).feedback() * (x - o.stateSeq().state(t).stateVector()); if (lim) v = v.cwiseMax(lo).cwiseMin(hi); u.push_back(v); x = o.step(x, v, t); } J0 = o.cost(u, x0); }
  bool limited1 = lim == 1 && r.chance(0.5); if (limited1) { s.get(SolverLqrIntParam_LqrMaxIterations) = 2; }
  SolverLqr lqr; lqr.initialize(&o, s); lqr.optimize(); c.count("optimised");
  auto u = ffs(o); std::vector<VectorXd> xs; double J = o.cost(u, x0, &xs); double dx = 0, du = 0; for (int t = 0; t <= T; ++t) dx = std::max(dx, (xs[t] - o.stateSeq().state(t).stateVector()).cwiseAbs().maxCoeff()); 
  c.check("states_are_the_rollout", dx / (1 + x0.norm() + um), 1e-10, c.sig);
  c.check("cost_not_above_guess", (J - J0) / (1 + std::abs(J0)), 1e-9, c.sig);
  VectorXd uv(T * nu); for (int t = 0; t < T; ++t) uv.segment(t * nu, nu) = u[t];
  if (lim == 2) {
    bool in = true; for (auto& v : u) in = in && (v - hi).maxCoeff() <= 0 && (lo - v).maxCoeff() <= 0; c.require("inside_limits", in, c.sig); bool act = (uv.array() != us.array()).any();
    if (T == 1) {  // one step: the box-constrained minimiser, by projected coordinate descent
      VectorXd b = us.cwiseMax(lo).cwiseMin(hi); for (int k = 0; k < 4000; ++k) for (int i = 0; i < nu; ++i) { double gi = H.row(i).dot(b) + g(i); b(i) = std::min(hi(i), std::max(lo(i), b(i) - gi / H(i, i))); }
      double jb = 0.5 * b.dot(H * b) + g.dot(b), ju = 0.5 * uv.dot(H * uv) + g.dot(uv); c.check("box_optimum", (ju - jb) / (1 + std::abs(jb)), 1e-5, VKS(c.sig << " u " << uv.transpose() << " best " << b.transpose()));
    }
    (void)act; return;
  }
  if (J0 > 1e5) { c.count("badly_scaled"); return; }
  double scale = 1 + um, tol = lim ? (limited1 ? 1e-3 : 1e-4) : 1e-5;
  c.check("optimal_controls", (uv - us).cwiseAbs().maxCoeff() / scale, tol, VKS(c.sig << " J " << J << " guess " << J0)); std::vector<VectorXd> best; for (int t = 0; t < T; ++t) best.push_back(us.segment(t * nu, nu)); double Jb = o.cost(best, x0);
  c.check("optimal_cost", (J - Jb) / (1 + std::abs(Jb)), lim ? 1e-6 : 1e-9, c.sig);
  // the gains belong to the last accepted pass, which rejected steps may have left regularised: bounded rate; the first pass is not regularised
  if (lim || J0 > 300 || J0 - Jb < 1e-3 * (1 + std::abs(Jb))) return;
  std::vector<MatrixXd> K; o.riccati(K); double cm = 0; for (int t = 0; t <= T; ++t) cm = std::max(cm, std::abs(o.l(xs[t], t < T ? u[t] : VectorXd::Zero(nu), t, t == T)));
  auto err = [&]() { double e = 0, km = 0; for (int t = 0; t < T; ++t) { e = std::max(e, (K[t] - o.controlSeq().control(t).feedback()).cwiseAbs().maxCoeff()); km = std::max(km, K[t].cwiseAbs().maxCoeff()); } return e / (1 + km) / (1 + 0.1 * cm + 0.02 * std::abs(J0)); };
  c.count("gains"); if (err() > 1e-4) c.count("gains_regularised");
  vk::Rng g2(c.id, 77); guess(g2, o, x0, gk, 1); s.get(SolverLqrIntParam_LqrMaxIterations) = 1; SolverLqr q1; q1.initialize(&o, s); q1.optimize(); double e = err(); if (std::abs(o.cost(ffs(o), x0) - Jb) < 1e-3 * (1 + std::abs(Jb))) c.check("riccati_gains", e, 1e-3, VKS(c.sig << " stage cost up to " << cm));
  else c.require("one_pass_reaches_optimum", false, VKS(c.sig << " J " << o.cost(ffs(o), x0) << " best " << Jb));
}
int main(int argc, char** argv) { return vk::run(argc, argv, "l01_lq", one); }
