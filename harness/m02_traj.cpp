// M02: interpolated trajectories against an independent Hermite interpolation in long double on normalised time.
#include "common/vk.hpp"
#include <Eigen/Eigen>
#include <momentumopt/utilities/TrajectoryGenerator.hpp>
using namespace momentumopt; typedef long double ld; typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> ML; typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> VLd;
struct Poly { ld t0, T; VLd c; ld at(ld t, int d) const { ld s = (t - t0) / T, v = 0; for (int i = d; i < c.size(); ++i) { ld f = 1; for (int k = 0; k < d; ++k) f *= i - k; v += c[i] * f * std::pow(s, (ld)(i - d)); } return v / std::pow(T, (ld)d); } };
struct Con { int d; double t, v; };
static Poly fit(const std::vector<Con>& k, double t0, double t1) {
  int n = k.size(); Poly p; p.t0 = t0; p.T = (ld)t1 - t0; ML A = ML::Zero(n, n); VLd b(n);
  for (int i = 0; i < n; ++i) { ld s = (k[i].t - p.t0) / p.T; b[i] = k[i].v * std::pow(p.T, (ld)k[i].d); for (int j = k[i].d; j < n; ++j) { ld f = 1; for (int q = 0; q < k[i].d; ++q) f *= j - q; A(i, j) = f * std::pow(s, (ld)(j - k[i].d)); } }
  p.c = A.fullPivLu().solve(b); return p;
}
static double tini(vk::Rng& r) { switch (r.irange(0, 4)) { case 0: return 0; case 1: return r.uni(0, 1); case 2: return r.uni(0, 10); case 3: return -r.uni(0, 3); default: return r.uni(10, 60); } }
static double dur(vk::Rng& r) { return r.chance(0.3) ? r.pick(std::vector<double>{0.1, 0.2, 0.25, 0.5, 1, 2}) : r.logu(0.05, 5); }
// everything the interpolation reports is checked on a time grid including both ends, the constraint times and outside times
template <class F> static void grid(vk::Case& c, const std::string& w, const std::vector<double>& times, double t0, double t1, const Poly& p, F eval) {
  double T = t1 - t0, S = 0, sv = 0, sa = 0; for (int i = 0; i <= 40; ++i) { double t = t0 + T * i / 40; S = std::max(S, std::abs((double)p.at(t, 0))); sv = std::max(sv, std::abs((double)p.at(t, 1))); sa = std::max(sa, std::abs((double)p.at(t, 2))); } double u = std::max(S, (double)p.c.cwiseAbs().maxCoeff()) + 1e-12, eps = 1e-10 + 1e-15 * std::max(std::abs(t0), std::abs(t1)) / T;   // rounding of the query time itself
  for (double t : times) {
    double q = std::min(std::max(t, t0), t1), x, v, a; eval(t, x, v, a); std::string ww = VKS(w << " query " << t);
    if (!c.require("finite", std::isfinite(x) && std::isfinite(v) && std::isfinite(a), ww)) return;
    c.check("position", std::abs(x - (double)p.at(q, 0)), 50 * eps * u, ww); c.check("velocity_is_derivative", std::abs(v - (double)p.at(q, 1)), 1e3 * eps * u / T, ww); c.check("acceleration_is_derivative", std::abs(a - (double)p.at(q, 2)), 1e4 * eps * u / T / T, ww); if (c.nviol) return;
  }
}
static void interp(vk::Case& c) {
  vk::Rng& r = c.rng; double t0 = tini(r), T = dur(r), t1 = t0 + T; int n = r.irange(2, 4); std::vector<double> ts{t0}; for (int i = 1; i < n - 1; ++i) ts.push_back(t0 + T * (i + r.uni(-0.2, 0.2)) / (n - 1)); ts.push_back(t1); double s = r.logu(1e-2, 1e2);
  std::vector<Con> k; int tot = 0, cnt[3] = {0, 0, 0}; c.sig = "h"; for (int i = 0; i < n; ++i) { int m = r.irange(0, 2); if (i == 0) m = 2; if (tot + m + 1 + (n - 1 - i) > 9) m = 0; c.sig += char('0' + m); for (int d = 0; d <= m; ++d) { k.push_back(Con{d, ts[i], r.chance(0.2) ? 0.0 : r.uni(-1, 1) * s / std::pow(T, d)}); cnt[d]++; tot++; } }
  r.shuffle(k); Interpolator::InterpMat M[3]; for (int d = 0; d < 3; ++d) { M[d].resize(cnt[d], 2); int row = 0; for (auto& q : k) if (q.d == d) M[d].row(row++) << q.t, q.v; }
  Interpolator it; if (r.chance(0.3)) { Interpolator::InterpMat A(1, 2); A << 3, 1; Interpolator::InterpMat B(2, 2); B << 3, 1, 4, 2; it.initialize(B, A, A); c.sig += "r"; } it.initialize(M[0], M[1], M[2]); Poly p = fit(k, t0, t1); std::string w = VKS("interval [" << t0 << "," << t1 << "] " << k.size() << " conditions");
  std::vector<double> q = ts; for (int i = 0; i < 12; ++i) q.push_back(r.uni(t0, t1)); q.push_back(t0 - r.uni(0, 2)); q.push_back(t1 + r.uni(0, 2)); if (t0 <= 0 && t1 >= 0) q.push_back(0);
  // the reference itself meets the conditions
  double e = 0; for (auto& x : k) e = std::max(e, (double)(std::abs(p.at(x.t, x.d) - x.v) * std::pow((ld)T, (ld)x.d) / (p.c.cwiseAbs().maxCoeff() + 1e-12L))); if (e > 1e-9) { c.count("reference_ill_conditioned"); return; }
  grid(c, w, q, t0, t1, p, [&](double t, double& x, double& v, double& a) { x = v = a = 1e9; it.interpolate(t, x, v, a); }); c.nontrivial = true; c.count("interpolations"); if (t0 <= 0) c.count("time_zero");
}
static void traj(vk::Case& c) {
  vk::Rng& r = c.rng; double t0 = tini(r), T = dur(r), t1 = t0 + T, s = r.logu(1e-2, 10); auto vec = [&]() { Eigen::Vector3d v; for (int i = 0; i < 3; ++i) v[i] = r.chance(0.1) ? 0 : s * r.uni(-1, 1); return v; };
  TrajectoryGenerator g; if (r.chance(0.3)) { g.initialize(1, vec(), 2, vec(), vec()); g.update(1.3); } Eigen::Vector3d a = vec(), b = vec(), via = vec(); if (r.chance(0.1)) b = a; g.initialize(t0, a, t1, b, via); c.sig = VKS("t" << (t0 == 0) << (t0 < 0) << int(t0 / T)); std::string w = VKS("swing [" << t0 << "," << t1 << "]");
  std::vector<double> q{t0, 0.5 * (t0 + t1), t1, t0 - 1, t1 + 1}; for (int i = 0; i < 8; ++i) q.push_back(r.uni(t0, t1)); if (t0 <= 0 && t1 >= 0) q.push_back(0);
  for (int d = 0; d < 3; ++d) { Poly p = fit({{0, t0, a[d]}, {0, 0.5 * (t0 + t1), via[d]}, {0, t1, b[d]}, {1, t0, 0}, {1, t1, 0}, {2, t0, 0}, {2, t1, 0}}, t0, t1); grid(c, VKS(w << " axis " << d), q, t0, t1, p, [&](double t, double& x, double& v, double& ac) { g.update(t); x = g.desPos()[d]; v = g.desVel()[d]; ac = g.desAcc()[d]; }); if (c.nviol) return; }
  // rest at both ends, through the via point (stated without the reference)
  auto at = [&](double t, const Eigen::Vector3d& p, bool rest, const char* key) { g.update(t); c.check(VKS("through_" << key).c_str(), (g.desPos() - p).norm(), 1e-8 * (s + p.norm()), w); if (rest) { c.check("rest_velocity", g.desVel().norm() * T, 1e-7 * s, w); c.check("rest_acceleration", g.desAcc().norm() * T * T, 1e-6 * s, w); } };
  at(t0, a, true, "start"); at(0.5 * (t0 + t1), via, false, "via"); at(t1, b, true, "end"); c.nontrivial = true; c.count("trajectories");
}
static void one(vk::Case& c) { if (c.rng.chance(0.5)) interp(c); else traj(c); }
int main(int argc, char** argv) { return vk::run(argc, argv, "m02_traj", one); }
