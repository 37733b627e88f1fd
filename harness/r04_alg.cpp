// The fixed-capacity matrix toolbox (part of R04): substitution, norms, resizing.
#include "rtmat.hpp"
using namespace rt_solver;
template <int R, int C> static void algs(vk::Case& c) {
  vk::Rng& r = c.rng; typedef typename RtMatrix<R, C>::d M; typedef typename RtVector<R>::d V; typedef typename RtMatrix<C, C>::d N;
  for (int rep = 0; rep < 3; ++rep) {
    int a = r.irange(1, R), b = r.irange(1, C), k = r.irange(0, std::min(a, b)); c.sig += VKS(a << "x" << b << "r" << k << " ");
    MatrixXd A = MatrixXd::Zero(a, b); if (k) { VectorXd s(k); for (int i = 0; i < k; ++i) s(i) = r.logu(0.01, 10); A = ortho(r, a).leftCols(k) * s.asDiagonal() * ortho(r, b).topRows(k); }
    if (r.chance(0.2)) { A.setZero(); for (int i = 0; i < k; ++i) A(i, i) = i + 1; }
    // substitution of x = T y + s in affine and quadratic forms
    int y = r.irange(1, C); MatrixXd T = randn(r, b, y); VectorXd s = randn(r, b, 1), t = randn(r, y, 1); VectorXd x = T * t + s;
    { M z = A; V zv = randn(r, a, 1); VectorXd w0 = zv, w = A * x + zv; RtAffineUtils::substitute(z, zv, T, s); c.check("substitute", z.cols() == y ? (z * t + zv - w).norm() / (1 + w.norm()) : 1e9, 1e-12); M z2 = A; RtAffineUtils::substitute(z2, T); c.check("substitute_linear", (MatrixXd(z2) - A * T).norm(), 1e-10); (void)w0; }
    { N q; q = randn(r, b, b); q = (q * q.transpose()).eval(); typename RtVector<C>::d h = randn(r, b, 1); double f0 = 0.5 * x.dot(q * x) + VectorXd(h).dot(x), c0 = 0.5 * s.dot(q * s) + VectorXd(h).dot(s); RtQuadraticUtils::substitute(q, h, T, s);
      double f1 = q.rows() == y && h.size() == y ? 0.5 * t.dot(q * t) + VectorXd(h).dot(t) + c0 : 1e9; c.check("quadratic_substitute", std::abs(f1 - f0) / (1 + std::abs(f0) + std::abs(c0)), 1e-11); }
    { N q; RtMatrixUtils::setZero(q, b, b); typename RtVector<C>::d h; RtVectorUtils::setZero(h, b); VectorXd w = randn(r, a, 1); MatrixXd W = randn(r, a, a); W = (W * W.transpose()).eval(); VectorXd xx = randn(r, b, 1);
      RtQuadraticUtils::addFromNorm(q, h, A, w); double f = 0.5 * xx.dot(q * xx) + VectorXd(h).dot(xx) + 0.5 * w.squaredNorm(), e = 0.5 * (A * xx + w).squaredNorm(); c.check("add_from_norm", std::abs(f - e) / (1 + e), 1e-12);
      RtMatrixUtils::setZero(q, b, b); RtVectorUtils::setZero(h, b); RtQuadraticUtils::addFromWeightedNorm(q, h, A, w, W); f = 0.5 * xx.dot(q * xx) + VectorXd(h).dot(xx) + 0.5 * w.dot(W * w); e = 0.5 * (A * xx + w).dot(W * (A * xx + w)); c.check("add_from_weighted_norm", std::abs(f - e) / (1 + e), 1e-11); }
    { M z; RtMatrixUtils::setConstant(z, a, b, 2.5); c.require("set_constant", z.rows() == a && z.cols() == b && z.minCoeff() == 2.5 && z.maxCoeff() == 2.5, ""); RtMatrixUtils::setOnes(z, a, b); c.require("set_ones", MatrixXd(z) == MatrixXd::Ones(a, b), ""); RtMatrixUtils::setZero(z); c.require("set_zero", z.rows() == std::max(2, R) && z.cols() == std::max(2, C) && z.isZero(0), "");
      M w = A; int a2 = r.irange(0, R), b2 = r.irange(0, C); RtMatrixUtils::conservativeResize(w, a2, b2); int ra = std::min(a, a2), rb = std::min(b, b2); c.require("conservative_resize", w.rows() == a2 && w.cols() == b2 && MatrixXd(w.topLeftCorner(ra, rb)) == A.topLeftCorner(ra, rb), VKS(a << "x" << b << " to " << a2 << "x" << b2));
      V u = randn(r, a, 1); VectorXd u0 = u; RtVectorUtils::conservativeResize(u, a2); c.require("vector_conservative_resize", u.size() == a2 && VectorXd(u.head(ra)) == u0.head(ra), ""); N id; RtMatrixUtils::setIdentity(id, b); c.require("identity", MatrixXd(id) == MatrixXd::Identity(b, b), ""); }
  }
}
void alg76(vk::Case& c) { algs<7, 6>(c); }
void alg15(vk::Case& c) { algs<1, 5>(c); }
