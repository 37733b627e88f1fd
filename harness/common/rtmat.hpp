#pragma once
#include "hqp.hpp"
#include <solver/rt_optimizer/RtMatrix.hpp>
using Eigen::MatrixXd; using Eigen::VectorXd;
static MatrixXd randn(vk::Rng& r, int a, int b) { MatrixXd m(a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) m(i, j) = r.normal(); return m; }
static MatrixXd ortho(vk::Rng& r, int n) { return Eigen::HouseholderQR<MatrixXd>(randn(r, n, n)).householderQ() * MatrixXd::Identity(n, n); }
