// The fixed-capacity matrix toolbox (part of R04): decompositions and row handling.
#include "rtmat.hpp"
using namespace rt_solver;
template <int R, int C> static void mats(vk::Case& c) {
  vk::Rng& r = c.rng; typedef typename RtMatrix<R, C>::d M; typedef typename RtVector<R>::d V; typedef typename RtMatrix<C, C>::d N;
  for (int rep = 0; rep < 3; ++rep) {
    int a = r.irange(1, R), b = r.irange(1, C), k = r.irange(0, std::min(a, b)); c.sig += VKS(a << "x" << b << "r" << k << " ");
    MatrixXd A = MatrixXd::Zero(a, b); if (k) { VectorXd s(k); for (int i = 0; i < k; ++i) s(i) = r.logu(0.01, 10); A = ortho(r, a).leftCols(k) * s.asDiagonal() * ortho(r, b).topRows(k); }
    if (r.chance(0.2)) { A.setZero(); for (int i = 0; i < k; ++i) A(i, i) = i + 1; }
    M m = A; { Eigen::JacobiSVD<M> svd; svd.compute(m, Eigen::ComputeFullV); N K; int rk = RtMatrixUtils::computeNullspaceMap(m, K, svd, 1e8);
      c.require("rank", rk == k, VKS("rank " << rk << " of a " << a << "x" << b << " matrix of rank " << k)); c.require("nullspace_size", K.rows() == b && K.cols() == b - k, VKS(K.rows() << "x" << K.cols()));
      if (K.cols() && K.rows() == b) { c.check("nullspace", (A * K).norm() / (1 + A.norm()), 1e-12); c.check("nullspace_orthonormal", (K.transpose() * K - MatrixXd::Identity(b - k, b - k)).norm(), 1e-12); } }
    if (k == std::min(a, b) && k) { Eigen::JacobiSVD<MatrixXd> s(A); double w = s.singularValues()(0) / s.singularValues()(k - 1); c.check("condition_number", std::abs(RtMatrixUtils::conditionNumber(A) - w) / w, 1e-6); }
    // growing and shrinking
    M g; RtMatrixUtils::resize(g, 0, b); V v; RtVectorUtils::resize(v, 0); MatrixXd mg(0, b); VectorXd mv(0);
    while (mg.rows() < R && r.chance(0.8)) {
      int h = r.irange(1, std::max(1, (R - (int)mg.rows()) / 2)); if (mg.rows() + h > R) break; int w = r.irange(1, b), col = r.irange(0, b - w); MatrixXd S = randn(r, h, w); VectorXd t = randn(r, h, 1); int kind = r.irange(0, 3);
      for (int i = 0; i < h; ++i) if (r.chance(0.3)) { S.row(i).setZero(); }
      MatrixXd full = MatrixXd::Zero(h, b);
      if (kind == 0) { full.leftCols(w) = S; RtAffineUtils::append(g, v, full, t); } else if (kind == 1) { full.leftCols(w) = S; t.setZero(); RtAffineUtils::append(g, v, full); }
      else if (kind == 2) { full.middleCols(col, w) = S; RtAffineUtils::appendAtColumn(g, v, S, t, col); } else { full.middleCols(col, w) = S; t.setZero(); RtAffineUtils::appendAtColumn(g, v, S, col); }
      MatrixXd n2(mg.rows() + h, b); n2 << mg, full; mg = n2; VectorXd v2(mv.size() + h); v2 << mv, t; mv = v2;
      c.require("append", g.rows() == mg.rows() && g.cols() == b && v.size() == mv.size() && MatrixXd(g) == mg && VectorXd(v) == mv, VKS("after append kind " << kind << " to " << mg.rows() << " rows"));
    }
    std::vector<int> keep; for (int i = 0; i < mg.rows(); ++i) if (mg.row(i).norm() > 0) keep.push_back(i);
    MatrixXd kg(keep.size(), b); VectorXd kv(keep.size()); for (size_t i = 0; i < keep.size(); ++i) { kg.row(i) = mg.row(keep[i]); kv(i) = mv(keep[i]); }
    { M z = g; V zv = v; RtAffineUtils::removeZeroRows(z, zv); c.require("remove_zero_rows", MatrixXd(z) == kg && VectorXd(zv) == kv && z.rows() == kg.rows() && z.cols() == b, VKS(mg.rows() << " rows, " << kg.rows() << " non-zero")); }
    { M z = g; V zv = v; RtAffineUtils::removeZeroRows<R, C>(z, zv, 1e-9); c.require("remove_zero_rows_threshold", MatrixXd(z) == kg && VectorXd(zv) == kv, VKS(mg.rows() << " rows, " << kg.rows() << " non-zero")); }
    { M z = g; RtMatrixUtils::removeZeroRows<R, C>(z, 1e-9); c.require("matrix_remove_zero_rows", MatrixXd(z) == kg && z.cols() == b, VKS(mg.rows() << " rows, " << kg.rows() << " non-zero")); }
  }
}
void mats76(vk::Case& c) { mats<7, 6>(c); }
void mats15(vk::Case& c) { mats<1, 5>(c); }
