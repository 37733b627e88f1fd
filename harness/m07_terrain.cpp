// M07: terrain regions against an independent point-in-polygon test; terrain files against what was written.
#include "common/mom.hpp"
using namespace momentumopt; using namespace mom;
struct Poly { V3 c; M3 R; std::vector<Eigen::Vector2d> u; bool ccw; double size; };
static std::vector<V3> verts(const Poly& p) { std::vector<V3> v; for (auto& q : p.u) v.push_back(p.c + p.R.col(0) * q[0] + p.R.col(1) * q[1]); return v; }
// convex polygon in its plane: points on an ellipse in angular order, pairwise well apart
static Poly gen(vk::Rng& r) {
  for (;;) { Poly p; p.size = r.logu(0.05, 10); p.c = rv(r, 5); p.R = rq(r, 3.2).toRotationMatrix(); if (r.chance(0.3)) p.R = M3::Identity(); int n = r.irange(3, 9); p.ccw = !r.chance(0.25); double a = p.size, b = p.size * r.uni(0.2, 1);
    if (n == 4 && r.chance(0.5)) { double ph = r.uni(0, 6.28); Eigen::Vector2d x(std::cos(ph), std::sin(ph)), y(-x[1], x[0]); p.u = {a * x + b * y, -a * x + b * y, -a * x - b * y, a * x - b * y}; }
    else { std::vector<double> t; for (int i = 0; i < n; ++i) t.push_back(r.uni(0, 2 * M_PI)); std::sort(t.begin(), t.end()); bool ok = true; for (int i = 0; i < n; ++i) { double d = i + 1 < n ? t[i + 1] - t[i] : t[0] + 2 * M_PI - t[i]; if (d < 0.15) ok = false; } if (!ok) continue; for (double q : t) p.u.push_back(Eigen::Vector2d(a * std::cos(q), b * std::sin(q))); }
    if (!p.ccw) std::reverse(p.u.begin(), p.u.end()); std::rotate(p.u.begin(), p.u.begin() + r.irange(0, p.u.size() - 1), p.u.end()); return p; }
}
// signed distance to the polygon boundary in the plane, positive outside (independent of the code: per-edge cross products)
static double outside(const Poly& p, const Eigen::Vector2d& x) { double m = -1e300; int n = p.u.size(); for (int i = 0; i < n; ++i) { Eigen::Vector2d a = p.u[i], b = p.u[(i + 1) % n], e = b - a; double s = (e[0] * (x[1] - a[1]) - e[1] * (x[0] - a[0])) / e.norm(); m = std::max(m, p.ccw ? -s : s); } return m; }
static void verify(vk::Case& c, const std::string& w, const Poly& p, const TerrainRegion& t, int id) {
  vk::Rng& r = c.rng; std::vector<V3> v = verts(p); int n = v.size(); V3 nrm = p.R.col(2); double S = p.size, tol = 1e-9 * (S + p.c.norm()), at = 1e-7;
  c.require("id", t.terrainId() == id, VKS(w << " id " << t.terrainId() << " expected " << id)); c.require("one_inequality_per_edge", t.terrainDescriptionMatrix().rows() == n && t.terrainDescriptionVector().size() == n, w); if (c.nviol) return;
  c.check("unit_normal", std::abs(t.normalToTerrain().norm() - 1), 1e-9, w); c.check("normal_perpendicular", t.normalToTerrain().cross(nrm).norm(), at, VKS(w << " normal " << t.normalToTerrain().transpose() << " plane normal " << nrm.transpose()));
  V3 mean = V3::Zero(); for (auto& q : v) mean += q / n; c.check("point_is_centre", (t.pointOnTerrain() - mean).norm(), tol, w); for (auto& q : v) c.check("vertices_on_plane", std::abs(t.normalToTerrain().dot(q - t.pointOnTerrain())), S * at + tol, w);
  M3 R = t.terrainRotation(); c.check("rotation_orthonormal", (R * R.transpose() - M3::Identity()).norm(), 1e-7, VKS(w << " rotation " << R)); c.check("rotation_right_handed", std::abs(R.determinant() - 1), 1e-7, w); double along = 1e9; for (int i = 0; i < 3; ++i) along = std::min(along, V3(R.row(i)).cross(nrm).norm()); c.check("rotation_has_normal_axis", along, at, w); c.check("orientation_is_rotation", (t.terrainOrientation().toRotationMatrix() - R).norm(), 1e-7, w); if (c.nviol) return;
  const auto& A = t.terrainDescriptionMatrix(); const auto& b = t.terrainDescriptionVector(); for (int i = 0; i < n; ++i) c.check("inequality_normalised", std::abs(A.row(i).norm() - 1), 1e-9, w);
  auto slack = [&](const V3& x) { return (A * x - b).maxCoeff(); };   // <= 0: satisfies every inequality
  for (int k = 0; k < 30; ++k) { Eigen::Vector2d x; int m = r.irange(0, 4);
    if (m == 0) { x.setZero(); double s = 0; for (auto& q : p.u) { double z = -std::log(r.uni(1e-6, 1)); x += z * q; s += z; } x /= s; }
    else if (m == 1) x = p.u[r.irange(0, n - 1)]; else if (m == 2) { int i = r.irange(0, n - 1); x = p.u[i] + r.uni(0, 1) * (p.u[(i + 1) % n] - p.u[i]); } else if (m == 3) { int i = r.irange(0, n - 1); Eigen::Vector2d e = p.u[(i + 1) % n] - p.u[i], o(p.ccw ? e[1] : -e[1], p.ccw ? -e[0] : e[0]); x = p.u[i] + r.uni(-0.2, 1.2) * e + o / o.norm() * r.sgn() * r.logu(1e-6, 1) * S; } else x = Eigen::Vector2d(r.uni(-1.5, 1.5), r.uni(-1.5, 1.5)) * S;
    double d = outside(p, x); V3 X = p.c + p.R.col(0) * x[0] + p.R.col(1) * x[1]; std::string ww = VKS(w << " vertices " << n << " distance outside " << d << " largest excess " << slack(X));
    if (d <= 0) { c.check("inside_satisfies_all", slack(X), tol, ww); c.count("inside_points"); } else if (d > 10 * tol) { c.require("outside_violates_some", slack(X) > 0, ww); c.count("outside_points"); } if (d < -10 * tol) c.check("inside_strictly", slack(X) / d < 0.999 ? 1 : 0, 0, ww); if (c.nviol) return; }
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; int n = r.irange(0, 5); std::vector<Poly> ps; TerrainDescription t; c.sig = VKS("n" << n); for (int i = 0; i < n; ++i) { ps.push_back(gen(r)); c.sig += VKS(ps[i].u.size() << (ps[i].ccw ? "+" : "-") << int(std::log2(ps[i].size))); } bool file = r.chance(0.5); std::string w = file ? "from file" : "added";
  if (file) { Cfg g; for (auto& p : ps) g.regions.push_back(verts(p)); Hush h; t.loadFromFile(dir().put("t.yaml", g.text())); c.require("terrain_loads", h.str().empty(), h.str()); c.count("files"); } else for (auto& p : ps) { Eigen::Matrix<double, Eigen::Dynamic, 3> m(p.u.size(), 3); auto v = verts(p); for (size_t i = 0; i < v.size(); ++i) m.row(i) = v[i].transpose(); t.addTerrainRegion(m); }
  if (!c.require("one_region_per_surface", t.numRegions() == n, VKS(w << " " << t.numRegions() << " of " << n))) return; for (int i = 0; i < n; ++i) { verify(c, VKS(w << " region " << i << " of " << n), ps[i], t.terrainRegion(i), i); if (c.nviol) return; } c.count("regions", n); c.nontrivial = n > 0;
}
int main(int argc, char** argv) { dir(); return vk::run(argc, argv, "m07_terrain", one); }
