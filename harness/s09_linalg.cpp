// Sparse factorisation, KKT solver, equilibration and cone algebra: every defining identity is recomputed densely.
#include <Eigen/Dense>
#include <Eigen/OrderingMethods>
#include "vk.hpp"
#include <solver/interface/Cone.hpp>
#include <solver/optimizer/SparseCholesky.hpp>
#include <solver/optimizer/LinSolver.hpp>
#include <solver/optimizer/EqRoutine.hpp>
using namespace solver; using Eigen::VectorXd; using Eigen::MatrixXd; using Eigen::VectorXi;
typedef Eigen::SparseMatrix<double> Sp;
static SolverSetting settings() { SolverSetting s; s.initialize(std::string(VK_VERIF) + "/harness/common/solver_stgs.yaml"); return s; }
static VectorXd rv(vk::Rng& r, int n, double sc = 1) { VectorXd v(n); for (int i = 0; i < n; i++) v[i] = r.normal() * sc; return v; }
static MatrixXd sparseRand(vk::Rng& r, int m, int n, double dens) { MatrixXd A = MatrixXd::Zero(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (r.chance(dens)) A(i, j) = r.chance(0.2) ? r.irange(-3, 3) : r.normal(); return A; }
static MatrixXd spd(vk::Rng& r, int n, double dens) { MatrixXd B = sparseRand(r, n, n, dens); MatrixXd H = r.chance(0.4) ? MatrixXd::Zero(n, n) : MatrixXd(B * B.transpose() * r.uni(0, 1)); for (int i = 0; i < n; i++) H(i, i) += r.logu(0.2, 5); return H; }
static void cholesky(vk::Case& c) {
  vk::Rng& r = c.rng; int n = r.chance(0.1) ? 1 : r.irange(1, r.chance(0.1) ? 60 : 25), m = r.irange(0, r.chance(0.1) ? 50 : 20), N = n + m; double dens = r.pick<double>({0, 0.05, 0.15, 0.4, 1}); SolverSetting st = settings();
  int order = r.irange(0, 2); VectorXi p(N); { std::vector<int> q(N); for (int i = 0; i < N; i++) q[i] = i; if (order) r.shuffle(q); for (int i = 0; i < N; i++) p[i] = q[i]; }
  linalg::SparseCholesky ch; int rounds = r.irange(1, 3); MatrixXd pat; Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> P(p);
  for (int k = 0; k < rounds; k++) {
    MatrixXd K = MatrixXd::Zero(N, N); VectorXd sg(N); K.topLeftCorner(n, n) = spd(r, n, dens); K.bottomRightCorner(m, m) = -spd(r, m, dens * 0.5); MatrixXd A = sparseRand(r, m, n, dens); K.bottomLeftCorner(m, n) = A; K.topRightCorner(n, m) = A.transpose(); sg.head(n).setOnes(); sg.tail(m).setConstant(-1);
    if (k > 0) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j && pat(i, j) == 0) K(i, j) = 0;
    if (k > 0 ) { for (int i = 0; i < N; i++) { double off = 0; for (int j = 0; j < N; j++) if (j != i) off += std::abs(K(i, j)); K(i, i) = sg[i] * std::max(std::abs(K(i, i)), off + 0.1); } }
    if (k == 0 && order == 2) { Eigen::AMDOrdering<int> amd; Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic, int> pp; Sp S = K.sparseView(); Sp U = S.triangularView<Eigen::Upper>(); amd(U.selfadjointView<Eigen::Upper>(), pp); P = pp.inverse(); }
    if (k == 0) pat = K; MatrixXd PK = P * K * P.transpose(); VectorXd ps = P * sg; Sp S(N, N); std::vector<Eigen::Triplet<double>> T; for (int j = 0; j < N; j++) for (int i = 0; i <= j; i++) { bool nz = (P * pat * P.transpose())(i, j) != 0 || i == j; if (nz) T.push_back({i, j, PK(i, j)}); } S.setFromTriplets(T.begin(), T.end()); S.makeCompressed();
    if (k == 0 || r.chance(0.2)) ch.analyzePattern(S, st); int rc = ch.factorize(S, ps); c.require("factorisation_completes", rc == N);
    for (int q = r.irange(1, 3); q > 0; q--) { VectorXd b = rv(r, N, r.logu(1e-3, 1e3)); if (r.chance(0.1)) b.setZero(); VectorXd x(N); ch.solve(b, x.data()); VectorXd y = ch.solve(b); double sc = PK.cwiseAbs().rowwise().sum().maxCoeff() * x.lpNorm<Eigen::Infinity>() + b.lpNorm<Eigen::Infinity>() + 1e-300;
      c.check("factor_solve_residual", (PK * x - b).lpNorm<Eigen::Infinity>() / sc, 1e-13, VKS("N=" << N << " round " << k)); c.check("both_solves_agree", (x - y).lpNorm<Eigen::Infinity>(), 1e-10 * (1e-300 + x.lpNorm<Eigen::Infinity>()), VKS(N)); } }
  c.sig = VKS("chol:" << N << ":" << dens << ":" << order << ":" << rounds); c.nontrivial = m > 0 && dens > 0; }
struct Shape { int n, p, l; VectorXi q; Shape(vk::Rng& r, bool small = false) { n = r.irange(1, 10); p = r.irange(0, std::min(5, n)); l = r.irange(0, 6); int k = r.irange(0, 3); q.resize(k); for (int i = 0; i < k; i++) q[i] = r.chance(0.15) ? 1 : r.irange(2, 7); if (l + k == 0) l = 1; }
  std::string str() const { std::string s = VKS(n << "," << p << "," << l); for (int i = 0; i < q.size(); i++) s += ":" + std::to_string(q[i]); return s; } };
static VectorXd interior(vk::Rng& r, const Shape& s, double margin) { VectorXd v(s.l + s.q.sum()); for (int i = 0; i < s.l; i++) v[i] = r.logu(margin, 10); int k = s.l; for (int i = 0; i < s.q.size(); i++) { VectorXd t = rv(r, s.q[i], r.pick<double>({0.0, 0.1, 1, 5})); t[0] = t.tail(s.q[i] - 1).norm() * (1 + r.logu(margin, 3)) + r.logu(margin, 3); v.segment(k, s.q[i]) = t; k += s.q[i]; } return v; }
static MatrixXd arrow(const Shape& s, const VectorXd& u) { int N = u.size(); MatrixXd M = MatrixXd::Zero(N, N); for (int i = 0; i < s.l; i++) M(i, i) = u[i]; int k = s.l; for (int i = 0; i < s.q.size(); i++) { int d = s.q[i]; for (int j = 0; j < d; j++) { M(k + j, k + j) = u[k]; M(k, k + j) = u[k + j]; M(k + j, k) = u[k + j]; } k += d; } return M; }
static VectorXd ident(const Shape& s) { VectorXd e = VectorXd::Zero(s.l + s.q.sum()); e.head(s.l).setOnes(); int k = s.l; for (int i = 0; i < s.q.size(); i++) { e[k] = 1; k += s.q[i]; } return e; }
static void cones(vk::Case& c) {
  vk::Rng& r = c.rng; Shape s(r); for (int i = 0; i < s.q.size(); i++) if (s.q[i] < 2) s.q[i] = 2; Cone cone; cone.initialize(s.n, s.p, s.l, s.q); int N = cone.sizeCone(); std::string w = s.str();
  c.require("sizes", N == s.l + s.q.sum() && cone.sizeProb() == s.n + s.p + N && cone.extSizeProb() == s.n + s.p + N + 2 * s.q.size() && cone.numSoc() == s.q.size() && cone.sizeLpc() == s.l && cone.numVars() == s.n && cone.numLeq() == s.p && cone.sizeSoc() == s.q.sum(), w);
  double margin = r.pick<double>({0.3, 0.05, 1e-3}); auto cv = [&](const VectorXd& x) { ConicVector v; v.initialize(cone); v.z() = x; return v; };
  VectorXd u = interior(r, s, margin), v = r.chance(0.5) ? interior(r, s, margin) : rv(r, N), e = ident(s); MatrixXd U = arrow(s, u); double amp = 1; { double t = u.head(s.l).size() ? 1.0 : 1; int k = s.l; for (int i = 0; i < s.q.size(); i++) { double res = u[k] - u.segment(k + 1, s.q[i] - 1).norm(); t = std::max(t, (u[k] + 1) / res); k += s.q[i]; } for (int i = 0; i < s.l; i++) t = std::max(t, 1 / u[i]); amp = t; }
  VectorXd uv = cv(u) * cv(v); c.check("cone_product", (uv - U * v).lpNorm<Eigen::Infinity>(), 1e-12 * (1 + U.cwiseAbs().maxCoeff() * v.cwiseAbs().maxCoeff() * N), w); c.check("product_commutes", (uv - VectorXd(cv(v) * cv(u))).lpNorm<Eigen::Infinity>(), 1e-12 * (1 + uv.norm()), w); c.check("product_identity", (VectorXd(cv(u) * cv(e)) - u).lpNorm<Eigen::Infinity>(), 1e-13 * (1 + u.norm()), w);
  VectorXd out(N); double mu = cone.conicProduct(u, v, out); double emu = 0; for (int i = 0; i < s.l; i++) emu += std::abs(uv[i]); { int k = s.l; for (int i = 0; i < s.q.size(); i++) { emu += std::abs(uv[k]); k += s.q[i]; } } c.check("product_measure", std::abs(mu - emu), 1e-12 * (1 + emu), w);
  VectorXd d = cv(u) / cv(uv); c.check("division_inverts_product", (d - v).lpNorm<Eigen::Infinity>(), 1e-14 * amp * amp * (1 + v.norm()), VKS(w << " amp " << amp)); VectorXd d2 = cv(u) / cv(v); c.check("product_inverts_division", (U * d2 - v).lpNorm<Eigen::Infinity>(), 1e-14 * amp * amp * (1 + v.norm() + d2.norm()), w);
  double k1 = r.normal(); c.check("scalar_shift", std::max({(VectorXd(cv(u) + k1) - (u + k1 * e)).norm(), (VectorXd(cv(u) - k1) - (u - k1 * e)).norm(), (VectorXd(-cv(u)) + u).norm(), (VectorXd(cv(u) + cv(v)) - u - v).norm()}), 1e-13 * (1 + u.norm() + v.norm() + std::abs(k1)), w); { ConicVector t = cv(u); t += k1; c.check("scalar_shift_inplace", (VectorXd(t) - (u + k1 * e)).norm(), 1e-13 * (1 + u.norm()), w); }
  // projection moves into the interior along the identity
  VectorXd x = rv(r, N, r.pick<double>({0.1, 1, 10})), y = x; cone.conicProjection(y); double shift = N ? (y - x).dot(e) / e.squaredNorm() : 0; c.check("projection_direction", (y - x - shift * e).norm(), 1e-12 * (1 + x.norm() + std::abs(shift)), w); { double worst = 1e300; int k = s.l; for (int i = 0; i < s.l; i++) worst = std::min(worst, y[i]); for (int i = 0; i < s.q.size(); i++) { worst = std::min(worst, y[k] - y.segment(k + 1, s.q[i] - 1).norm()); k += s.q[i]; } if (N) c.check("projection_interior", 1 - worst, 1e-12 * (1 + y.norm()), w); }
  // Nesterov-Todd scaling
  VectorXd sv = interior(r, s, margin), zv = interior(r, s, margin), lam(N); ConeStatus stt = cone.updateNTScalings(sv, zv, lam); double a2 = 1; auto ampOf = [&](const VectorXd& t) { int k = s.l; for (int i = 0; i < s.q.size(); i++) { double n1 = t.segment(k + 1, s.q[i] - 1).norm(); a2 = std::max(a2, (t[k] + n1) / (t[k] - n1)); k += s.q[i]; } }; ampOf(sv); ampOf(zv);
  if (c.require("scaling_exists", stt == ConeStatus::Inside, w)) { double tol = 1e-13 * a2 * a2 * (1 + sv.norm() + zv.norm()); VectorXd Wz = cone.W() * zv, Wl = cone.W() * VectorXd(lam); c.check("scaled_dual_is_lambda", (Wz - lam).norm(), tol, w); c.check("scaled_lambda_is_primal", (Wl - sv).norm(), tol * (1 + std::sqrt(a2)), VKS(w << " a2 " << a2));
    c.check("gap_preserved", std::abs(lam.squaredNorm() - sv.dot(zv)), tol * (1 + sv.norm() * zv.norm()), w); VectorXd a = rv(r, N), b = rv(r, N); VectorXd Wa = cone.W() * a, Wb = cone.W() * b; c.check("scaling_symmetric", std::abs(Wa.dot(b) - a.dot(Wb)), tol * (1 + Wa.norm() + Wb.norm()), w);
    VectorXd WWa = cone.W() * Wa; int E = cone.extSizeCone(); VectorXd xe = VectorXd::Zero(E), ye = VectorXd::Zero(E), y0 = rv(r, E); int k = s.l, ke = s.l; xe.head(s.l) = a.head(s.l); std::vector<int> core; for (int i = 0; i < s.l; i++) core.push_back(i);
    for (int i = 0; i < s.q.size(); i++) { int dd = s.q[i]; xe.segment(ke, dd) = a.segment(k, dd); VectorXd qv = cone.soc(i).scalingSoc().tail(dd - 1); double qa = qv.dot(a.segment(k + 1, dd - 1)); xe[ke + dd] = -cone.soc(i).v1() * qa; xe[ke + dd + 1] = cone.soc(i).u0() * a[k] + cone.soc(i).u1() * qa; for (int j = 0; j < dd; j++) core.push_back(ke + j); k += dd; ke += dd + 2; }
    ye = y0; cone.conicNTScaling2(xe, ye); VectorXd diff = ye - y0, exp = VectorXd::Zero(E); for (int i = 0; i < N; i++) exp[core[i]] = WWa[i]; c.check("squared_scaling", (diff - exp).norm(), tol * (1 + WWa.norm()) * a2, VKS(w << " a2 " << a2)); }
  { VectorXd o = interior(r, s, 0.1); if (s.q.size()) { int k = s.l; int id = r.irange(0, s.q.size() - 1); for (int i = 0; i < id; i++) k += s.q[i]; { double n1 = o.segment(k + 1, s.q[id] - 1).norm(); if (n1 < 1e-3) { o[k + 1] = 1; n1 = 1; } o[k] = n1 * r.uni(0.01, 0.999); } VectorXd l2(N); Cone c2; c2.initialize(s.n, s.p, s.l, s.q); bool first = r.chance(0.5); c.require("outside_detected", (first ? c2.updateNTScalings(o, zv, l2) : c2.updateNTScalings(sv, o, l2)) == ConeStatus::Outside, w); } }
  // views of the optimisation vectors
  OptimizationVector opt; opt.initialize(cone); for (int i = 0; i < opt.size(); i++) opt[i] = i; const OptimizationVector& k = opt; int z0 = s.n + s.p, t0 = z0 + N; bool ok = opt.size() == t0 + 2 + N; auto at = [&](const VectorXd& a, int st, int n) { if (a.size() != n) { ok = false; return; } for (int i = 0; i < n; i++) if (a[i] != st + i) ok = false; };
  at(opt.x(), 0, s.n); at(opt.y(), s.n, s.p); at(opt.z(), z0, N); at(opt.yz(), s.n, s.p + N); at(opt.yztau(), s.n, s.p + N + 1); at(opt.xyz(), 0, t0); at(opt.s(), t0 + 2, N); at(opt.zLpc(), z0, s.l); at(opt.xyztau(), 0, t0 + 1); ok = ok && opt.tau() == t0 && opt.kappa() == t0 + 1; c.require("vector_layout", ok, w);
  at(k.x(), 0, s.n); at(k.y(), s.n, s.p); at(k.z(), z0, N); at(k.yz(), s.n, s.p + N); at(k.yztau(), s.n, s.p + N + 1); at(k.xyz(), 0, t0); at(k.s(), t0 + 2, N); at(k.zLpc(), z0, s.l); ok = ok && k.tau() == t0 && k.kappa() == t0 + 1; int kk = z0 + s.l; for (int i = 0; i < s.q.size(); i++) { at(opt.zSoc(i), kk, s.q[i]); at(k.zSoc(i), kk, s.q[i]); kk += s.q[i]; } c.require("vector_layout_readonly", ok, w);
  ExtendedVector ex; ex.initialize(cone); VectorXd rz = rv(r, N); ex.setOnes(); ex.zRtoE(rz); { bool good = true; for (int i = 0; i < s.l; i++) good = good && ex[z0 + i] == rz[i]; int a = s.l, b = z0 + s.l; for (int i = 0; i < s.q.size(); i++) { for (int j = 0; j < s.q[i]; j++) good = good && ex[b + j] == rz[a + j]; good = good && ex[b + s.q[i]] == 0 && ex[b + s.q[i] + 1] == 0; a += s.q[i]; b += s.q[i] + 2; } c.require("extended_layout", good, w); }
  c.sig = VKS("cone:" << w << ":" << margin); c.nontrivial = s.q.size() > 0; }
static void fill(vk::Rng& r, const Shape& s, SolverStorage& g, MatrixXd& A, MatrixXd& G, double dens, bool wide) { A = sparseRand(r, s.p, s.n, std::max(dens, 0.3)); int N = s.l + s.q.sum(); G = sparseRand(r, N, s.n, dens);
  if (wide) { for (int i = 0; i < s.p; i++) A.row(i) *= r.logu(1e-2, 1e2); for (int i = 0; i < N; i++) G.row(i) *= r.logu(1e-2, 1e2); }
  g.cleanCoeffs(); for (int i = 0; i < s.p; i++) for (int j = 0; j < s.n; j++) if (A(i, j) != 0) { if (r.chance(0.1)) { double t = r.normal(); g.addCoeff(Eigen::Triplet<double>(i, j, A(i, j) - t), true); g.addCoeff(Eigen::Triplet<double>(i, j, t), true); } else g.addCoeff(Eigen::Triplet<double>(i, j, A(i, j)), true); } for (int i = 0; i < N; i++) for (int j = 0; j < s.n; j++) if (G(i, j) != 0) g.addCoeff(Eigen::Triplet<double>(i, j, G(i, j)), false); g.initializeMatrices(); }
static void equil(vk::Case& c) {
  vk::Rng& r = c.rng; Shape s(r); Cone cone; cone.initialize(s.n, s.p, s.l, s.q); SolverSetting st = settings(); st.set(SolverIntParam_EquilibrationIters, r.irange(0, 5)); SolverStorage g; g.initialize(cone, st); MatrixXd A, G; fill(r, s, g, A, G, r.pick<double>({0.2, 0.6, 1}), r.chance(0.5)); VectorXd cbh = rv(r, cone.sizeProb(), r.logu(0.1, 10)); g.cbh() = cbh; std::string w = s.str(); int N = cone.sizeCone();
  EqRoutine eq; eq.setEquilibration(cone, st, g); VectorXd E = eq.equilVec(); MatrixXd Ae = MatrixXd(g.Amatrix()), Ge = MatrixXd(g.Gmatrix()); VectorXd be = g.cbh(); c.require("scaling_positive", E.size() == cone.sizeProb() && E.minCoeff() > 0 && E.allFinite(), w); int k = s.n + s.p + s.l; for (int i = 0; i < s.q.size(); i++) { VectorXd t = E.segment(k, s.q[i]); c.check("cone_kept_by_scaling", t.maxCoeff() - t.minCoeff(), 0, w); k += s.q[i]; }
  VectorXd Dx = E.head(s.n), Dy = E.segment(s.n, s.p), Dz = E.tail(N); auto rel = [](const MatrixXd& a, const MatrixXd& b) { return a.size() ? (a - b).cwiseAbs().maxCoeff() / (1e-300 + std::max(b.cwiseAbs().maxCoeff(), 1e-30)) : 0.0; };
  c.check("scaled_matrices", std::max(rel(Dy.asDiagonal() * Ae * Dx.asDiagonal(), A), rel(Dz.asDiagonal() * Ge * Dx.asDiagonal(), G)), 1e-12, w); c.check("scaled_vectors", rel(E.cwiseProduct(be), cbh), 1e-12, w);
  // a point of the scaled problem maps to a point of the original one with the scaled residuals
  OptimizationVector o; o.initialize(cone); for (int i = 0; i < o.size(); i++) o[i] = r.normal(); o.tau() = r.logu(0.1, 10); VectorXd xe = o.x(), ye = o.y(), ze = o.z(), se = o.s(); double tau = o.tau(); eq.scaleVariables(o); VectorXd x = o.x(), y = o.y(), z = o.z(), sv = o.s(); VectorXd cc = cbh.head(s.n), b = cbh.segment(s.n, s.p), h = cbh.tail(N), ce = be.head(s.n), bbe = be.segment(s.n, s.p), he = be.tail(N);
  auto cmp = [&](const char* key, const VectorXd& a, const VectorXd& bb) { if (a.size()) c.check(key, (a - bb).lpNorm<Eigen::Infinity>(), 1e-13 * (1 + a.lpNorm<Eigen::Infinity>() + x.norm() * 1e2 + sv.norm() + y.norm() * 1e2 + z.norm() * 1e2 + cbh.norm()), w); };
  cmp("equality_residual_maps", A * x - b, Dy.cwiseProduct(Ae * xe / tau - bbe)); cmp("cone_residual_maps", G * x + sv - h, Dz.cwiseProduct((Ge * xe + se) / tau - he)); cmp("dual_residual_maps", A.transpose() * y + G.transpose() * z + cc, Dx.cwiseProduct((Ae.transpose() * ye + Ge.transpose() * ze) / tau + ce)); c.check("objective_maps", std::abs(cc.dot(x) - ce.dot(xe) / tau), 1e-11 * (1 + cc.norm() * x.norm()), w); c.check("gap_maps", std::abs(sv.dot(z) - se.dot(ze) / (tau * tau)), 1e-11 * (1 + sv.norm() * z.norm()), w);
  eq.unsetEquilibration(g); c.check("matrices_restored", std::max(rel(MatrixXd(g.Amatrix()), A), rel(MatrixXd(g.Gmatrix()), G)), 1e-12, w); c.check("vectors_restored", rel(VectorXd(g.cbh()), cbh), 1e-12, w); if (r.chance(0.3)) { eq.setEquilibration(cone, st, g); c.check("equilibration_repeatable", rel(MatrixXd(g.Gmatrix()), Ge), 1e-9, w); }
  c.sig = VKS("eq:" << w); c.nontrivial = N > 1; }
static void kkt(vk::Case& c) {
  vk::Rng& r = c.rng; Shape s(r); for (int i = 0; i < s.q.size(); i++) if (s.q[i] < 2) s.q[i] = 2; Cone cone; cone.initialize(s.n, s.p, s.l, s.q); SolverSetting st = settings(); double reg = st.get(SolverDoubleParam_StaticRegularization); SolverStorage g; g.initialize(cone, st); MatrixXd A, G; int N = cone.sizeCone(); std::string w = s.str();
  fill(r, s, g, A, G, r.pick<double>({0.3, 0.7, 1}), false); // full column rank of [A;G] by planting an identity part
  { MatrixXd A1 = s.p ? A : MatrixXd(MatrixXd::Identity(1, s.n)); Eigen::JacobiSVD<MatrixXd> sa(A1), sg((MatrixXd(s.p + N, s.n) << A, G).finished()); if ((s.p && sa.singularValues().minCoeff() < 0.3) || sg.singularValues().size() < s.n || sg.singularValues().minCoeff() < 0.3) { c.sig = "kkt:degenerate"; c.count("degenerate"); return; } }
  g.Atmatrix() = g.Amatrix().transpose(); g.Gtmatrix() = g.Gmatrix().transpose(); LinSolver ls; ls.initialize(cone, st, g); int M = cone.extSizeProb(); const int* ip = ls.invPerm().indices().data(); { std::vector<int> seen(M, 0); bool ok = true; for (int i = 0; i < M; i++) { if (ip[i] < 0 || ip[i] >= M) { ok = false; break; } seen[ip[i]]++; } for (int t : seen) ok = ok && t == 1; c.require("ordering_is_permutation", ok, w); }
  int rounds = r.irange(1, 4); for (int k = 0; k < rounds; k++) { bool init = k == 0; MatrixXd W2 = MatrixXd::Identity(N, N); if (init) ls.initializeMatrix(); else { VectorXd sv = interior(r, s, 0.1), zv = interior(r, s, 0.1), lam(N); if (cone.updateNTScalings(sv, zv, lam) != ConeStatus::Inside) { c.require("scaling_exists", false, w); return; } for (int j = 0; j < N; j++) { VectorXd ej = VectorXd::Unit(N, j); VectorXd t = cone.W() * ej; W2.col(j) = cone.W() * t; } ls.updateMatrix(); }
    c.require("factorised", ls.numericFactorization() == FactStatus::Optimal, w); VectorXd bx = rv(r, s.n), by = rv(r, s.p), bz = rv(r, N); ExtendedVector rhs; rhs.initialize(cone); for (int i = 0; i < s.n; i++) rhs[ip[i]] = bx[i]; for (int i = 0; i < s.p; i++) rhs[ip[s.n + i]] = by[i]; for (int i = 0; i < s.l; i++) rhs[ip[s.n + s.p + i]] = bz[i]; { int a = s.l, e = s.n + s.p + s.l; for (int i = 0; i < s.q.size(); i++) { for (int j = 0; j < s.q[i]; j++) rhs[ip[e + j]] = bz[a + j]; a += s.q[i]; e += s.q[i] + 2; } }
    OptimizationVector d; d.initialize(cone); int it = ls.solve(rhs, d, init); VectorXd dx = d.x(), dy = d.y(), dz = d.z(); double size = 1 + dx.norm() + dy.norm() + dz.norm(), tol = 4 * reg * size * (1 + 0) + 1e-9 * size * (1 + W2.norm());
    c.check("kkt_stationarity", (A.transpose() * dy + G.transpose() * dz - bx).lpNorm<Eigen::Infinity>(), tol, VKS(w << " round " << k)); if (s.p) c.check("kkt_equality", (A * dx - by).lpNorm<Eigen::Infinity>(), tol, VKS(w << " round " << k)); c.check("kkt_cone_rows", (G * dx - W2 * dz - bz).lpNorm<Eigen::Infinity>(), tol, VKS(w << " round " << k)); c.require("refinement_budget", it >= -1 && it <= st.get(SolverIntParam_NumIterRefinementsLinSolve), VKS(it)); }
  c.sig = VKS("kkt:" << w << ":" << rounds); c.nontrivial = true; }
static void one(vk::Case& c) { switch (c.id % 4) { case 0: cholesky(c); break; case 1: cones(c); break; case 2: equil(c); break; default: kkt(c); } }
int main(int argc, char** argv) { return vk::run(argc, argv, "s09_linalg", one); }
