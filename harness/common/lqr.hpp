// Optimal control problems with known mathematics for the LQR monitors.
#pragma once
#include "vk.hpp"
#include <solver_lqr/SolverLqr.hpp>
using namespace solverlqr; using Eigen::MatrixXd; using Eigen::VectorXd;
inline MatrixXd rnd(vk::Rng& r, int a, int b, double s = 1) { MatrixXd m(a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) m(i, j) = s * r.normal(); return m; }
inline MatrixXd spd(vk::Rng& r, int n, double lo, double hi) { MatrixXd m = rnd(r, n, n); Eigen::HouseholderQR<MatrixXd> q(m); MatrixXd Q = q.householderQ(); VectorXd d(n); for (int i = 0; i < n; ++i) d(i) = r.uni(lo, hi); MatrixXd s = Q * d.asDiagonal() * Q.transpose(); return 0.5 * (s + s.transpose()); }
inline SolverLqrSetting settings(int T, int nx, int nu) {
  static SolverLqrSetting base; static bool once = (base.initialize(std::string(VK_VERIF) + "/harness/common/lqr_stgs.yaml", "solverlqr_variables"), true); (void)once;
  SolverLqrSetting s = base; s.get(SolverLqrIntParam_TimeDimension) = T; s.get(SolverLqrIntParam_StateDimension) = nx; s.get(SolverLqrIntParam_ControlDimension) = nu; s.get(SolverLqrDoubleParam_TimeHorizon) = T * s.get(SolverLqrDoubleParam_TimeStep); return s;
}
// Watches how the library calls the user's callbacks.
struct Watched : OcpBase { virtual ~Watched() {}
  vk::Case* c = nullptr; long dyn_calls = 0, obj_calls = 0;
  virtual VectorXd f(const VectorXd& x, const VectorXd& u, int t) = 0; virtual double l(const VectorXd& x, const VectorXd& u, int t, bool fin) = 0;
  void configure(const YAML::Node&) override {}
  StateBase dynamics(const StateBase& s, const ControlBase& a, int t) override {
    ++dyn_calls; if (c && (t < 0 || t >= tdim() || s.stateVector().size() != xdim() || a.feedforward().size() != udim())) c->require("callback_arguments", false, VKS("dynamics at step " << t << " of " << tdim() << " sizes " << s.stateVector().size() << "," << a.feedforward().size()));
    StateBase d(xdim()); d.stateVector() = f(s.stateVector(), a.feedforward(), t); return d;
  }
  double objective(const StateBase& s, const ControlBase& a, int t, bool fin) override {
    ++obj_calls; if (c && (t < 0 || t > tdim() || fin != (t == tdim()) || s.stateVector().size() != xdim() || a.feedforward().size() != udim())) c->require("callback_arguments", false, VKS("objective at step " << t << " of " << tdim() << " final " << fin));
    return l(s.stateVector(), a.feedforward(), t, fin);
  }
  VectorXd step(const VectorXd& x, const VectorXd& u, int t) {   // own integration
    VectorXd k1 = f(x, u, t); if (!getLqrSetting().get(SolverLqrBoolParam_UseRungeKuttaIntegration)) return x + k1;
    VectorXd k2 = f(x + 0.5 * k1, u, t), k3 = f(x + 0.5 * k2, u, t), k4 = f(x + k3, u, t); return x + (k1 + 2 * k2 + 2 * k3 + k4) / 6;
  }
  double cost(const std::vector<VectorXd>& u, const VectorXd& x0, std::vector<VectorXd>* xs = nullptr) {
    VectorXd x = x0; double J = 0; if (xs) xs->assign(1, x); for (int t = 0; t < tdim(); ++t) { J += l(x, u[t], t, false); x = step(x, u[t], t); if (xs) xs->push_back(x); } return J + l(x, VectorXd::Zero(udim()), tdim(), true);
  }
};
inline std::vector<VectorXd> ffs(const OcpBase& o) { std::vector<VectorXd> u; for (int t = 0; t < o.tdim(); ++t) u.push_back(o.controlSeq().control(t).feedforward()); return u; }
// x+ = x + A x + B u + c,  cost 0.5 x'Qx + x'Pu + 0.5 u'Ru + q'x + r'u, everything time-varying
struct LqOcp : Watched {
  std::vector<MatrixXd> A, B, Q, R, P; std::vector<VectorXd> cc, q, rr;
  void gen(vk::Rng& r, int T, int nx, int nu, bool cross) {
    bool tv = r.chance(0.7);
    for (int t = 0; t <= T; ++t) {
      if (t && !tv && t < T) { A.push_back(A[0]); B.push_back(B[0]); Q.push_back(Q[0]); R.push_back(R[0]); P.push_back(P[0]); cc.push_back(cc[0]); q.push_back(q[0]); rr.push_back(rr[0]); continue; }
      A.push_back(rnd(r, nx, nx, 0.2 / std::sqrt(nx)) - r.uni(0.2, 0.5) * MatrixXd::Identity(nx, nx)); B.push_back(rnd(r, nx, nu, 0.6)); cc.push_back(rnd(r, nx, 1, 0.1)); q.push_back(rnd(r, nx, 1, 0.3)); rr.push_back(rnd(r, nu, 1, 0.3));
      MatrixXd W = spd(r, nx + nu, 0.5, 3); Q.push_back(W.topLeftCorner(nx, nx)); R.push_back(W.bottomRightCorner(nu, nu)); P.push_back(cross ? MatrixXd(W.topRightCorner(nx, nu)) : MatrixXd(MatrixXd::Zero(nx, nu)));
    }
  }
  VectorXd f(const VectorXd& x, const VectorXd& u, int t) override { return A[t] * x + B[t] * u + cc[t]; }
  double l(const VectorXd& x, const VectorXd& u, int t, bool fin) override { double v = 0.5 * x.dot(Q[t] * x) + q[t].dot(x); if (!fin) v += x.dot(P[t] * u) + 0.5 * u.dot(R[t] * u) + rr[t].dot(u); return v; }
  void lin(int t, MatrixXd& Ad, MatrixXd& Bd, VectorXd& cd) {
    int n = xdim(); MatrixXd I = MatrixXd::Identity(n, n), F = A[t], S = I; if (getLqrSetting().get(SolverLqrBoolParam_UseRungeKuttaIntegration)) S = I + F / 2 + F * F / 6 + F * F * F / 24;
    Ad = I + S * F; Bd = S * B[t]; cd = S * cc[t];
  }
  // Riccati recursion: gains (feedback added to the feedforward), and the optimum as a dense program
  void riccati(std::vector<MatrixXd>& K) { int T = tdim(); K.resize(T); MatrixXd S = Q[T]; for (int t = T - 1; t >= 0; --t) { MatrixXd Ad, Bd; VectorXd cd; lin(t, Ad, Bd, cd); MatrixXd H = R[t] + Bd.transpose() * S * Bd, G = P[t].transpose() + Bd.transpose() * S * Ad; K[t] = -H.ldlt().solve(G); S = Q[t] + Ad.transpose() * S * Ad + G.transpose() * K[t]; S = 0.5 * (S + S.transpose()).eval(); } }
  void dense(MatrixXd& H, VectorXd& g, const VectorXd& x0) {
    int T = tdim(), n = xdim(), m = udim(); H = MatrixXd::Zero(T * m, T * m); g = VectorXd::Zero(T * m); MatrixXd X = MatrixXd::Zero(n, T * m); VectorXd x = x0;
    for (int t = 0; t <= T; ++t) {
      H += X.transpose() * Q[t] * X; g += X.transpose() * (Q[t] * x + q[t]); if (t == T) break;
      MatrixXd XP = X.transpose() * P[t]; H.middleCols(t * m, m) += XP; H.middleRows(t * m, m) += XP.transpose(); g.segment(t * m, m) += P[t].transpose() * x + rr[t]; H.block(t * m, t * m, m, m) += R[t];
      MatrixXd Ad, Bd; VectorXd cd; lin(t, Ad, Bd, cd); X = Ad * X; X.middleCols(t * m, m) += Bd; x = Ad * x + cd;
    }
  }
};
// smooth nonlinear problem with known derivatives: f = s * sum_k a_k sin(w_k.z + p_k), z = [x;u]
struct SinOcp : Watched {
  struct Term { MatrixXd a; MatrixXd w; VectorXd p; };   // a: outputs x K, w: K x (nx+nu)
  std::vector<Term> F, L; double s = 0.2, quad = 0.5; int nx, nu; double goal = 0; int kind = 0;
  Term term(vk::Rng& r, int out, int K, int nz, double sc) { Term t; t.a = rnd(r, out, K, sc); t.w = rnd(r, K, nz, 1.0 / std::sqrt(nz)); t.p = rnd(r, K, 1); return t; }
  void gen(vk::Rng& r, int T, int nx_, int nu_) { nx = nx_; nu = nu_; s = r.pick(std::vector<double>{0.05, 0.2, 0.6}); quad = r.pick(std::vector<double>{0.02, 0.5, 2}); goal = r.pick(std::vector<double>{0, 1, 3}); kind = r.irange(0, 2); bool tv = r.chance(0.5); for (int t = 0; t <= T; ++t) { if (t && !tv) { F.push_back(F[0]); L.push_back(L[0]); } else { F.push_back(term(r, nx, 3, nx + nu, 1)); L.push_back(term(r, 1, 3, nx + nu, kind == 2 ? 2 : 0.5)); } } }
  static VectorXd cat(const VectorXd& a, const VectorXd& b) { VectorXd z(a.size() + b.size()); z << a, b; return z; }
  VectorXd f(const VectorXd& x, const VectorXd& u, int t) override { VectorXd z = cat(x, u), y = (F[t].w * z + F[t].p).array().sin(); return s * (F[t].a * y); }
  double l(const VectorXd& x, const VectorXd& u, int t, bool fin) override {
    VectorXd z = cat(x, u), y = (L[t].w * z + L[t].p).array().sin(); double v = (L[t].a * y)(0), gx = (x.array() - goal).matrix().squaredNorm() * (fin ? 4 : 1); v += 0.5 * quad * (gx + u.squaredNorm());
    if (kind == 1) v += 0.05 * x.array().pow(4).sum(); return v;
  }
  MatrixXd fz(const VectorXd& z, int t) { VectorXd y = (F[t].w * z + F[t].p).array().cos(); return s * F[t].a * y.asDiagonal() * F[t].w; }
  MatrixXd fzz(const VectorXd& z, int t, int i) { VectorXd y = (F[t].w * z + F[t].p).array().sin(); return -s * F[t].w.transpose() * (F[t].a.row(i).transpose().cwiseProduct(y)).asDiagonal() * F[t].w; }
  MatrixXd stepz(const VectorXd& x, const VectorXd& u, int t) {  // derivative of the integrated step
    int n = nx + nu; MatrixXd E = MatrixXd::Identity(n, n), Ex = E.topRows(nx); auto full = [&](const MatrixXd& dx) { MatrixXd m = E; m.topRows(nx) = dx; return m; };
    VectorXd k1 = f(x, u, t); MatrixXd d1 = fz(cat(x, u), t); if (!getLqrSetting().get(SolverLqrBoolParam_UseRungeKuttaIntegration)) return Ex + d1;
    VectorXd x2 = x + 0.5 * k1, k2 = f(x2, u, t); MatrixXd d2 = fz(cat(x2, u), t) * full(Ex + 0.5 * d1); VectorXd x3 = x + 0.5 * k2, k3 = f(x3, u, t); MatrixXd d3 = fz(cat(x3, u), t) * full(Ex + 0.5 * d2); VectorXd x4 = x + k3; MatrixXd d4 = fz(cat(x4, u), t) * full(Ex + d3);
    return Ex + (d1 + 2 * d2 + 2 * d3 + d4) / 6;
  }
  VectorXd lz(const VectorXd& x, const VectorXd& u, int t, bool fin) { VectorXd z = cat(x, u), y = (L[t].w * z + L[t].p).array().cos(); VectorXd g = L[t].w.transpose() * (L[t].a.row(0).transpose().cwiseProduct(y)); g.head(nx) += quad * (fin ? 4 : 1) * (x.array() - goal).matrix(); g.tail(nu) += quad * u; if (kind == 1) g.head(nx) += (0.2 * x.array().cube()).matrix(); return g; }
  MatrixXd lzz(const VectorXd& x, const VectorXd& u, int t, bool fin) { VectorXd z = cat(x, u), y = (L[t].w * z + L[t].p).array().sin(); MatrixXd h = -L[t].w.transpose() * (L[t].a.row(0).transpose().cwiseProduct(y)).asDiagonal() * L[t].w; for (int i = 0; i < nx; ++i) h(i, i) += quad * (fin ? 4 : 1) + (kind == 1 ? 0.6 * x(i) * x(i) : 0); for (int i = 0; i < nu; ++i) h(nx + i, nx + i) += quad; return h; }
};
inline void guess(vk::Rng& r, OcpBase& o, const VectorXd& x0, int kind, double sc) {
  int T = o.tdim(), n = o.xdim(), m = o.udim(); ControlSequence u(T, n, m); for (int t = 0; t < T; ++t) { if (kind >= 1) u.control(t).feedforward() = rnd(r, m, 1, sc); if (kind == 2) u.control(t).feedback() = rnd(r, m, n, 0.1); }
  o.controlSeq() = u; o.stateSeq().state(0).stateVector() = x0; for (int t = 1; t <= T; ++t) if (kind == 2) o.stateSeq().state(t).stateVector() = rnd(r, n, 1, sc);
}
