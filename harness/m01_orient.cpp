// M01: orientation utilities against an independent rotation algebra in long double.
#include "common/vk.hpp"
#include <Eigen/Eigen>
#include <momentumopt/utilities/OrientationUtils.hpp>
typedef Eigen::Quaternion<double> Q; typedef Eigen::Vector3d V; typedef Eigen::Quaternion<long double> QL; typedef Eigen::Matrix<long double, 3, 1> VL;
static QL up(const Q& q) { QL p((long double)q.w(), (long double)q.x(), (long double)q.y(), (long double)q.z()); p.normalize(); return p; }
static VL logq(QL q) { if (q.w() < 0) q.coeffs() *= -1; long double s = q.vec().norm(); if (s < 1e-18L) return 2 * q.vec(); return 2 * std::atan2(s, q.w()) / s * q.vec(); }   // rotation vector, at most a half turn
static QL expv(const VL& v) { long double a = v.norm(); QL q; q.w() = std::cos(a / 2); q.vec() = (a < 1e-9L ? VL(v / 2) : VL(std::sin(a / 2) / a * v)); q.normalize(); return q; }
static double angle(const QL& a, const QL& b) { return double(logq(a * b.conjugate()).norm()); }   // angle between two orientations
static double approx(double th) { return th < 0.295 ? 1e-9 + th * th * th / 20 : 1e-9; }           // the documented small-angle form of the logarithm
static V dir(vk::Rng& r) { V v; do v = V(r.normal(), r.normal(), r.normal()); while (v.norm() < 1e-3); v.normalize(); if (r.chance(0.3)) { v.setZero(); v[r.irange(0, 2)] = r.sgn(); } return v; }
static double ang(vk::Rng& r) { switch (r.irange(0, 6)) { case 0: return 0; case 1: return r.logu(1e-12, 1e-2); case 2: return r.uni(0.005, 0.02); case 3: return r.uni(0.2, 0.4); case 4: return M_PI - r.logu(1e-6, 0.1); case 5: return 0.2831 + r.uni(-2e-3, 2e-3); default: return r.uni(0, M_PI - 1e-3); } }
static Q quat(vk::Rng& r) { double a = r.chance(0.15) ? ang(r) : r.uni(0, M_PI); V d = dir(r); QL q = expv(VL((d * a).cast<long double>())); Q p((double)q.w(), (double)q.x(), (double)q.y(), (double)q.z()); if (r.chance(0.4)) p.coeffs() *= -1; return p; }
using namespace momentumopt;
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; Q cur = quat(r), des; double th = ang(r); V d = dir(r); QL dl = expv(VL((d * th).cast<long double>()));
  { QL q = dl * up(cur); des = Q((double)q.w(), (double)q.x(), (double)q.y(), (double)q.z()); } if (r.chance(0.3)) { des = quat(r); }
  if (r.chance(0.4)) des.coeffs() *= -1;
  VL e = logq(up(des) * up(cur).conjugate()); th = double(e.norm()); bool half = th > M_PI - 1e-5; double tol = approx(th) * (half ? 1e3 : 1);
  c.sig = VKS(std::floor(std::log10(th + 1e-13)) << (half ? "h" : "") << (cur.w() < 0) << (des.w() < 0) << (cur.dot(des) < 0)); std::string w = VKS("cur " << cur.coeffs().transpose() << " des " << des.coeffs().transpose() << " angle " << th);
  // error: the rotation vector from current to desired
  V err = orientationError(des, cur); c.require("error_finite", err.allFinite(), w); if (c.nviol) return;
  c.check("error_magnitude_is_angle", std::abs(err.norm() - th), tol, w);
  c.check("error_rotates_current_to_desired", angle(expv(err.cast<long double>()) * up(cur), up(des)), tol, w);
  if (!half) c.check("error_vector", double((err.cast<long double>() - e).norm()), tol, w);
  c.check("error_zero_for_equal", orientationError(cur, cur).norm(), 1e-14, w); { Q n = cur; n.coeffs() *= -1; c.check("error_zero_for_negated", orientationError(n, cur).norm() + orientationError(cur, n).norm(), 1e-14, w); }
  if (th > 1e-7) c.require("error_nonzero_for_different", err.norm() > 0.5 * th, w);
  { Q m = des, n = cur; m.coeffs() *= -1; n.coeffs() *= -1; if (!half) c.check("sign_invariance", (orientationError(m, cur) - err).norm() + (orientationError(des, n) - err).norm() + (orientationError(m, n) - err).norm(), 1e-9, w); }
  { double s = r.logu(0.1, 10); Q m = des; m.coeffs() *= s; if (!half) c.check("scaled_input", (orientationError(m, cur) - err).norm(), 1e-9, w); }
  // angular velocity: reaches the desired orientation in the given time
  double dt = r.pick(std::vector<double>{1e-3, 0.01, 0.1, 1, r.logu(1e-4, 10)});
  for (int body = 0; body < 2; ++body) {
    V av = requiredAngularVelocity(des, cur, dt, body); std::string ww = VKS(w << " dt " << dt << " body " << body); c.require("velocity_finite", av.allFinite(), ww); if (c.nviol) return;
    Q n = integrateAngularVelocity(cur, av, dt, body); c.check("integrated_unit", std::abs(n.norm() - 1), 1e-9, ww); c.check("integration_arrives", angle(up(n), up(des)), 2 * tol + (th < 0.011 ? 2e-7 : 1e-8), ww);
    // the velocity is the constant rate of rotation about the axis between the two, in the chosen coordinates
    VL wl = e / (long double)dt; if (body) wl = up(cur).conjugate() * wl; if (!half) c.check("velocity_vector", double((av.cast<long double>() - wl).norm()) * dt, tol, ww);
    if (!half) { Q a = cur, b = des; a.coeffs() *= -1; c.check("velocity_sign_invariance", (requiredAngularVelocity(des, a, dt, body) - av).norm() * dt, 1e-8, ww); b.coeffs() *= -1; c.check("velocity_sign_invariance", (requiredAngularVelocity(b, cur, dt, body) - av).norm() * dt, 1e-8, ww); }
  }
  // integration: any angular velocity for any time
  V av = dir(r) * (ang(r) / dt) * (r.chance(0.1) ? 3 : 1); bool body = r.chance(0.5); Q n = integrateAngularVelocity(cur, av, dt, body); VL wl = av.cast<long double>() * (long double)dt; QL ref = body ? up(cur) * expv(wl) : expv(wl) * up(cur); std::string ww = VKS("cur " << cur.coeffs().transpose() << " rate " << av.transpose() << " dt " << dt << " body " << body);
  c.check("integration_unit", std::abs(n.norm() - 1), 1e-9, ww); c.check("integration_rotates", angle(up(n), ref), 1e-7 + (av.norm() * dt < 0.011 ? 2e-7 : 0), ww);
  { Q still = integrateAngularVelocity(cur, V::Zero(), dt, body); c.check("no_velocity_no_motion", angle(up(still), up(cur)), 1e-9, ww); }
  c.nontrivial = th > 1e-6; c.count("pairs"); c.sample = w;
}
int main(int argc, char** argv) { return vk::run(argc, argv, "m01_orient", one); }
