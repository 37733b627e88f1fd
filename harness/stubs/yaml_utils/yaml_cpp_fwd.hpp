// Stand-in for the (absent) yaml_utils package: only the reading interface the repository uses.
#pragma once
#include <array>
#include <exception>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include <yaml-cpp/yaml.h>
#include <yaml_utils/yaml_eigen.hpp>
namespace YAML {
template <typename T> inline T ReadParameter(const Node& node, const std::string& name) {
  Node p = node[name.c_str()];
  if (!p) throw std::runtime_error("Error: reading parameter [" + name + "]");
  return p.as<T>();
}
template <typename T> inline void ReadParameter(const Node& node, const std::string& name, T& out) {
  Node p = node[name.c_str()];
  if (!p) throw std::runtime_error("Error: reading parameter [" + name + "]");
  out = p.as<T>();
}
}  // namespace YAML
