// L03: finite differences against analytic derivatives.
#include "lqr.hpp"
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; FiniteDifferences fd; int rounds = r.irange(1, 2); std::vector<std::unique_ptr<SinOcp>> alive; SolverLqrSetting keep[2];
  for (int k = 0; k < rounds; ++k) {
    int nx = r.irange(1, 6), nu = r.irange(1, 4), T = r.irange(1, 8); keep[k] = settings(T, nx, nu); SolverLqrSetting& s = keep[k]; bool rk = r.chance(0.5); s.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = rk;
    alive.push_back(std::make_unique<SinOcp>()); SinOcp& o = *alive.back(); o.c = &c; o.gen(r, T, nx, nu); o.initialize(s); guess(r, o, rnd(r, nx, 1), 2, 1); bool b1 = r.chance(0.8), b2 = r.chance(0.8), b3 = r.chance(0.8), b4 = r.chance(0.5);
    if (r.chance(0.5)) { ForwardPass fp; fp.initialize(&o, s); StateSequence x = o.stateSeq(); ControlSequence u = o.controlSeq(); fp.applyController(x, u); o.stateSeq() = fp.stateSeq(); o.controlSeq() = fp.controlSeq(); }
    c.sig += VKS(nx << "x" << nu << "x" << T << (rk ? "rk" : "eu") << b1 << b2 << b3 << b4 << " "); c.nontrivial = true; std::string sg = c.sig;
    std::vector<VectorXd> X, U; std::vector<MatrixXd> FB; for (int t = 0; t <= T; ++t) { X.push_back(o.stateSeq().state(t).stateVector()); if (t < T) { U.push_back(o.controlSeq().control(t).feedforward()); FB.push_back(o.controlSeq().control(t).feedback()); } }
    fd.initialize(&o, b1, b2, b3, b4); int reps = r.irange(1, 2); for (int q = 0; q < reps; ++q) fd.computeDerivatives(); c.require("describes_the_problem", fd.getOcpDescription() == &o, sg); if (k) c.count("reinitialised"); if (fd.getOcpDescription() != &o) return;
    bool same = true; for (int t = 0; t <= T; ++t) same = same && X[t] == o.stateSeq().state(t).stateVector() && (t == T || (U[t] == o.controlSeq().control(t).feedforward() && FB[t] == o.controlSeq().control(t).feedback())); c.require("trajectory_unchanged", same, sg);
    const FiniteDifferences& cfd = fd;
    for (int t = 0; t <= T; ++t) {
      VectorXd x = X[t], u = t < T ? U[t] : VectorXd(VectorXd::Zero(nu)); bool fin = t == T; VectorXd z = SinOcp::cat(x, u);
      if (t < T && b2) { MatrixXd D = o.stepz(x, u, t); double sc = 1 + x.norm() + u.norm(); if (c.require("sizes", cfd.fx(t).rows() == nx && cfd.fx(t).cols() == nx && cfd.fu(t).rows() == nx && cfd.fu(t).cols() == nu, sg)) { c.check("fx", (cfd.fx(t) - D.leftCols(nx)).cwiseAbs().maxCoeff() / sc, 1e-8, VKS(sg << " t " << t)); c.check("fu", (cfd.fu(t) - D.rightCols(nu)).cwiseAbs().maxCoeff() / sc, 1e-8, VKS(sg << " t " << t)); } }
      if (t < T && b4 && !rk) { double sc = 1 + x.norm() + u.norm(), e1 = 0, e2 = 0, e3 = 0; for (int i = 0; i < nx; ++i) { MatrixXd h = o.fzz(z, t, i); for (int a = 0; a < nx; ++a) for (int b = 0; b < nx; ++b) e1 = std::max(e1, std::abs(cfd.fxx(t)[a](i, b) - h(a, b))); for (int a = 0; a < nu; ++a) for (int b = 0; b < nx; ++b) e2 = std::max(e2, std::abs(cfd.fxu(t)[a](i, b) - h(nx + a, b))); for (int a = 0; a < nu; ++a) for (int b = 0; b < nu; ++b) e3 = std::max(e3, std::abs(cfd.fuu(t)[a](i, b) - h(nx + a, nx + b))); } c.check("fxx", e1 / sc, 1e-4, sg); c.check("fxu", e2 / sc, 1e-4, sg); c.check("fuu", e3 / sc, 1e-4, sg); }
      double cm = 1 + std::abs(o.l(x, u, t, fin)) + o.quad * z.squaredNorm();
      if (b1) { VectorXd g = o.lz(x, u, t, fin); c.check("cx", (cfd.cx(t) - g.head(nx)).cwiseAbs().maxCoeff() / cm, 1e-8, VKS(sg << " t " << t)); c.check("cu", (cfd.cu(t) - g.tail(nu)).cwiseAbs().maxCoeff() / cm, 1e-8, VKS(sg << " t " << t)); }
      if (b3) { MatrixXd h = o.lzz(x, u, t, fin); c.check("cxx", (cfd.cxx(t) - h.topLeftCorner(nx, nx)).cwiseAbs().maxCoeff() / cm, 1e-4, VKS(sg << " t " << t)); c.check("cuu", (cfd.cuu(t) - h.bottomRightCorner(nu, nu)).cwiseAbs().maxCoeff() / cm, 1e-4, VKS(sg << " t " << t)); c.check("cxu", (cfd.cxu(t) - h.topRightCorner(nx, nu)).cwiseAbs().maxCoeff() / cm, 1e-4, VKS(sg << " t " << t)); }
    }
  }
  c.sample = c.sig.substr(0, 60);
}
int main(int argc, char** argv) { return vk::run(argc, argv, "l03_fd", one); }
