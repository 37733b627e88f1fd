// Stand-in for the (absent) yaml_utils package: Eigen conversions. Vectors are flat sequences, matrices sequences of rows.
#pragma once
#include <Eigen/Dense>
#include <iomanip>
#include <yaml-cpp/yaml.h>
namespace YAML {
template <typename S, int R, int C, int O, int MR, int MC> struct convert<Eigen::Matrix<S, R, C, O, MR, MC>> {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> M;
  static Node encode(const M& m) {
    Node n(NodeType::Sequence);
    if (R == 1 || C == 1) { for (int i = 0; i < m.size(); i++) n.push_back(m(i)); }
    else for (int i = 0; i < m.rows(); i++) { Node r(NodeType::Sequence); for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); n.push_back(r); }
    return n;
  }
  static bool decode(const Node& n, M& m) {
    if (!n.IsSequence()) return false;
    if (R == 1 || C == 1) {
      int k = (int)n.size(); const int fixed = R == 1 ? C : R; if (fixed != Eigen::Dynamic && fixed != k) return false;
      if (fixed == Eigen::Dynamic) m.resize(R == 1 ? 1 : k, R == 1 ? k : 1);
      for (int i = 0; i < k; i++) m(i) = n[i].as<S>();
      return true;
    }
    int rows = (int)n.size(), cols = rows ? (int)n[0].size() : 0; if (rows == 0 && C != Eigen::Dynamic) cols = C;
    if ((R != Eigen::Dynamic && R != rows) || (C != Eigen::Dynamic && C != cols)) return false;
    m.resize(rows, cols);
    for (int i = 0; i < rows; i++) { if ((int)n[i].size() != cols) return false; for (int j = 0; j < cols; j++) m(i, j) = n[i][j].as<S>(); }
    return true;
  }
};
}  // namespace YAML
