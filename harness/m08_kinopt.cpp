// M08: kinematics optimizer on random articulated robots behind the kinematics interface, against an own robot model and an own bounded least-squares solver.
#include "common/mom.hpp"
#include <yaml-cpp/yaml.h>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
using namespace mom; using namespace momentumopt; typedef Eigen::MatrixXd MX;
static Q qexp(const V3& w) { double a = w.norm(); return a < 1e-300 ? Q::Identity() : Q(Eigen::AngleAxisd(a, w / a)); }
static V3 qlog(Q q) { if (q.w() < 0) q.coeffs() *= -1; double s = q.vec().norm(); return s < 1e-12 ? V3(2 * q.vec()) : V3(2 * std::atan2(s, q.w()) / s * q.vec()); }
struct Post { V3 p = V3::Zero(); Q R = Q::Identity(); V q; };
// a floating base carrying point masses and serial legs with point masses at the link ends
struct Joint { int parent; V3 off, axis; double m; }; // parent -1: base; off: joint location in the frame of the parent; its own link mass sits at `end`
struct Robot {
  int n, ne; std::vector<Joint> j; std::vector<V3> end; std::vector<int> tip; std::vector<V3> bp; std::vector<double> bm; double mass = 0; V3 sway;
  struct Kin { V3 com = V3::Zero(); MX Jc, A; std::vector<V3> eff; std::vector<MX> Je; };
  Robot(vk::Rng& r, int n_, int ne_) : n(n_), ne(ne_) { for (int i = 0; i < 4; ++i) { bp.push_back(rv(r, 0.3)); bm.push_back(r.uni(.5, 2)); } std::vector<int> last(ne, -1); tip.assign(ne, -1); for (int i = 0; i < n; ++i) { int e = i % ne; Joint k; k.parent = last[e]; k.axis = V3(r.normal(), r.normal(), r.normal()).normalized(); k.off = last[e] < 0 ? V3(e % 2 ? -.2 : .2, e / 2 ? -.3 : .3, -.05) : end[last[e]]; k.m = r.uni(.1, .6); end.push_back(V3(r.uni(-.05, .05), r.uni(-.05, .05), -r.uni(.15, .3))); j.push_back(k); last[e] = i; tip[e] = i; } for (double m : bm) mass += m; for (auto& k : j) mass += k.m; }
  Kin kin(const Post& s) const { Kin k; int nv = 6 + n; std::vector<M3> F(n); std::vector<V3> o(n), ax(n), ep(n); M3 B = s.R.toRotationMatrix();
    for (int i = 0; i < n; ++i) { const Joint& a = j[i]; M3 P = a.parent < 0 ? B : F[a.parent]; V3 po = a.parent < 0 ? s.p : o[a.parent]; o[i] = po + P * a.off; ax[i] = P * a.axis; F[i] = P * Eigen::AngleAxisd(s.q[i], a.axis).toRotationMatrix(); ep[i] = o[i] + F[i] * end[i]; }
    auto jac = [&](const V3& x, int leaf) { MX J = MX::Zero(3, nv); J.leftCols(3).setIdentity(); for (int c = 0; c < 3; ++c) J.col(3 + c) = V3::Unit(c).cross(x - s.p); for (int i = leaf; i >= 0; i = j[i].parent) J.col(6 + i) = ax[i].cross(x - o[i]); return J; };
    std::vector<V3> x; std::vector<MX> J; std::vector<double> m; for (size_t i = 0; i < bp.size(); ++i) { x.push_back(s.p + B * bp[i]); J.push_back(jac(x.back(), -1)); m.push_back(bm[i]); } for (int i = 0; i < n; ++i) { x.push_back(ep[i]); J.push_back(jac(ep[i], i)); m.push_back(j[i].m); }
    k.Jc = MX::Zero(3, nv); for (size_t i = 0; i < x.size(); ++i) { k.com += m[i] / mass * x[i]; k.Jc += m[i] / mass * J[i]; } k.A = MX::Zero(6, nv); k.A.topRows(3) = mass * k.Jc; for (size_t i = 0; i < x.size(); ++i) for (int c = 0; c < nv; ++c) k.A.block<3, 1>(3, c) += V3(x[i] - k.com).cross(V3(m[i] * J[i].col(c)));
    for (int e = 0; e < ne; ++e) { k.eff.push_back(tip[e] < 0 ? V3(s.p + B * V3(.1, .1, -.3)) : ep[tip[e]]); k.Je.push_back(jac(k.eff.back(), tip[e])); } return k; }
  Post add(const Post& s, const V& v, double h) const { Post r = s; r.p += h * v.head<3>(); r.R = (qexp(h * v.segment<3>(3)) * s.R).normalized(); r.q += h * v.tail(n); return r; }
  V diff(const Post& a, const Post& b, double dt) const { V v(6 + n); v << b.p - a.p, qlog(b.R * a.R.conjugate()), b.q - a.q; return v / dt; }
};
static Post post(const KinematicsState& s) { Post p; p.p = s.robotPosture().basePosition(); p.R = s.robotPosture().baseOrientation(); p.q = s.robotPosture().jointPositions(); return p; }
struct Ev { char k; Post a, b; V v; double dt; };
struct Iface : public KinematicsInterface {
  const Robot& R; std::vector<Ev> ev; bool byref, con; double floor; int inits = 0; Iface(const Robot& r, bool b, bool c, double f) : R(r), byref(b), con(c), floor(f) {}
  void initialize(PlannerSetting&) override { ++inits; }
  V3 logarithmicMap(const Eigen::Vector4d w) override { return qlog(Q(w[0], w[1], w[2], w[3])); }
  KinematicsState integratePosture(KinematicsState& s, double dt) override { Post a = post(s), b = R.add(a, s.robotVelocity().generalizedJointVelocities(), dt); ev.push_back({'I', a, b, s.robotVelocity().generalizedJointVelocities(), dt}); KinematicsState o = s; o.robotPosture().basePosition() = b.p; o.robotPosture().baseOrientation() = b.R; o.robotPosture().jointPositions() = b.q; if (byref) s = o; return o; }
  void displayPosture(const KinematicsState& s, double t) override { ev.push_back({'P', post(s), Post(), V(), t}); }
  MX G(const Robot::Kin& k, V& h) const { MX g(R.ne, 6 + R.n); h.resize(R.ne); for (int e = 0; e < R.ne; ++e) { g.row(e) = -k.Je[e].row(2); h[e] = k.eff[e][2] - floor; } return g; }
  KinematicsState updateJacobiansAndState(KinematicsState& s, double dt) override { Post a = post(s); auto k = R.kin(a); ev.push_back({'U', a, Post(), s.robotVelocity().generalizedJointVelocities(), dt}); centerOfMassJacobian(k.Jc); centroidalMomentumMatrix(k.A); centroidalMomentumMatrixVariation(0.1 * k.A); std::vector<MX> J; for (int e = 0; e < 4; ++e) J.push_back(e < R.ne ? k.Je[e] : MX::Zero(3, 6 + R.n)); endeffectorJacobians(J); if (con) { V h; MX g = G(k, h); constraintsMatrix(dt * g); constraintsVector(h); }
    KinematicsState o = s; o.centerOfMass() = k.com; V6 m = k.A * s.robotVelocity().generalizedJointVelocities(); o.linearMomentum() = m.head<3>(); o.angularMomentum() = m.tail<3>(); for (int e = 0; e < R.ne; ++e) o.endeffectorPosition(e) = k.eff[e]; if (byref) s = o; return o; }
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double dt) override { V v = R.diff(post(a), post(b), dt); ev.push_back({'D', post(a), post(b), v, dt}); KinematicsState o = b; o.robotVelocity().generalizedJointVelocities() = v; if (byref) b = o; return o; }
  typedef Eigen::Matrix<double, 6, 1> V6;
};
// min sum_r w_r (a_r z - b_r)^2 + sum_s om_s max(0, c_s z - d_s)^2, lb <= z <= ub
struct Bls { int n; MX H; V g; double c = 0; std::vector<V> cs; std::vector<double> ds, om; V lb, ub; Bls(int n_) : n(n_), H(MX::Zero(n_, n_)), g(V::Zero(n_)), lb(V::Constant(n_, -1e30)), ub(V::Constant(n_, 1e30)) {}
  void row(double w, const V& a, double b) { H += w * a * a.transpose(); g -= w * b * a; c += w * b * b; }
  double f(const V& z) const { double v = z.dot(H * z) + 2 * g.dot(z) + c; for (size_t i = 0; i < cs.size(); ++i) { double t = cs[i].dot(z) - ds[i]; if (t > 0) v += om[i] * t * t; } return v; }
  V grad(const V& z) const { V v = 2 * (H * z + g); for (size_t i = 0; i < cs.size(); ++i) { double t = cs[i].dot(z) - ds[i]; if (t > 0) v += 2 * om[i] * t * cs[i]; } return v; }
  V solve(V z) const { z = z.cwiseMax(lb).cwiseMin(ub); double reg = 1e-12 * (1e-30 + H.diagonal().maxCoeff()); for (int it = 0; it < 200; ++it) { V G = grad(z); MX K = 2 * H; for (size_t i = 0; i < cs.size(); ++i) if (cs[i].dot(z) - ds[i] > 0) K += 2 * om[i] * cs[i] * cs[i].transpose(); std::vector<int> fr; for (int i = 0; i < n; ++i) if (!((z[i] <= lb[i] + 1e-12 && G[i] > 0) || (z[i] >= ub[i] - 1e-12 && G[i] < 0))) fr.push_back(i); int m = fr.size(); if (!m) break; MX S(m, m); V q(m); for (int a = 0; a < m; ++a) { q[a] = G[fr[a]]; for (int b = 0; b < m; ++b) S(a, b) = K(fr[a], fr[b]); } S.diagonal().array() += reg; V d = S.ldlt().solve(-q); double t = 1, f0 = f(z); V best = z; bool ok = false; for (int k = 0; k < 40; ++k, t *= .5) { V y = z; for (int a = 0; a < m; ++a) y[fr[a]] += t * d[a]; y = y.cwiseMax(lb).cwiseMin(ub); if (f(y) < f0) { best = y; ok = true; break; } } if (!ok) break; double ch = f0 - f(best); z = best; if (ch < 1e-15 * (1e-30 + std::abs(f0))) break; } return z; } };
struct Prob { int n, ne, T, pit, tit; std::vector<int> act; double h, tol, lam, slk, floor; V lo, hi, def; V3 wc, wl, wa, wld, wad, we, wn; double wd, wv, wac; Robot* R; DynamicsState ini; DynamicsSequence seq; bool byref, con, first, disp, store; };
static void refs(vk::Rng& r, Prob& p) { // references taken from a smooth motion of the robot itself
  std::vector<Post> s(p.T + 1); s[0].q = p.def; V dir = V::Zero(6 + p.n); for (int i = 0; i < 6; ++i) dir[i] = (i < 3 ? .1 : .2) * r.uni(-1, 1); for (int a : p.act) dir[6 + a] = .4 * r.uni(-1, 1); p.seq = DynamicsSequence(); p.seq.resize(p.T); p.ini = DynamicsState(); double off = r.chance(0.3) ? r.uni(0, .1) : 0; for (int i = 0; i < 6 + p.n; ++i) if (i < 6) s[0] = p.R->add(s[0], V::Unit(6 + p.n, i), off * r.uni(-.5, .5));
  for (int t = 0; t < p.T; ++t) p.seq.dynamicsState(t).time() = 0.1 * (1 + 0.05 * (t + 1) + r.uni(0, .02));
  p.ini.time() = 0.1; for (int t = 0; t <= p.T; ++t) { DynamicsState& d = t ? p.seq.dynamicsState(t - 1) : p.ini; double dt = d.time(); if (t) { s[t] = p.R->add(s[t - 1], dir * dt, 1); for (int i = 0; i < 6 + p.n; ++i) dir[i] *= r.uni(.8, 1.2); } auto k = p.R->kin(s[t]); d.centerOfMass() = k.com; V m = V::Zero(6); if (t) m = k.A * p.R->diff(s[t - 1], s[t], dt); d.linearMomentum() = m.head<3>(); d.angularMomentum() = m.tail<3>(); for (int e = 0; e < 4; ++e) { d.endeffectorActivation(e) = r.chance(0.7); if (e < p.ne) d.endeffectorPosition(e) = k.eff[e]; } }
}
static Robot::Kin kinof(const Prob& p, const Post& s) { return p.R->kin(s); }
static double terr(const Prob& p, const Post& s, const DynamicsState& d) { auto k = kinof(p, s); double v = p.wc.dot((k.com - d.centerOfMass()).cwiseAbs2().matrix()); for (int e = 0; e < p.ne; ++e) v += (d.endeffectorActivation(e) ? p.we : p.wn).dot((k.eff[e] - d.endeffectorPosition(e)).cwiseAbs2().matrix()); return v; }
// the documented posture problem around posture s
static Bls postureQp(const Prob& p, const Post& s, const DynamicsState& d) {
  int na = p.act.size(), n = 6 + na; auto k = kinof(p, s); Bls b(n); auto cols = [&](const MX& J, int i) { V a(n); for (int c = 0; c < n; ++c) a[c] = J(i, c < 6 ? c : 6 + p.act[c - 6]); return a; };
  for (int i = 0; i < 3; ++i) { b.row(p.wc[i], cols(k.Jc, i), (d.centerOfMass()[i] - k.com[i]) / p.h); for (int e = 0; e < p.ne; ++e) b.row((d.endeffectorActivation(e) ? p.we : p.wn)[i], cols(k.Je[e], i), (d.endeffectorPosition(e)[i] - k.eff[e][i]) / p.h); }
  for (int c = 0; c < n; ++c) b.row(p.lam, V::Unit(n, c), 0); for (int c = 0; c < na; ++c) { b.row(p.wd, p.h * V::Unit(n, 6 + c), p.def[p.act[c]] - s.q[p.act[c]]); b.lb[6 + c] = (p.lo[p.act[c]] - s.q[p.act[c]]) / p.h; b.ub[6 + c] = (p.hi[p.act[c]] - s.q[p.act[c]]) / p.h; }
  if (p.con) for (int e = 0; e < p.ne; ++e) { b.cs.push_back(-p.h * cols(k.Je[e], 2)); b.ds.push_back(k.eff[e][2] - p.floor); b.om.push_back(p.slk); } return b;
}
static V actv(const Prob& p, const V& v) { V z(6 + p.act.size()); z.head(6) = v.head(6); for (size_t i = 0; i < p.act.size(); ++i) z[6 + i] = v[6 + p.act[i]]; return z; }
// the documented trajectory problem around the postures s (variables: generalized velocities of all steps)
static Bls trajQp(const Prob& p, const Post& ini, const std::vector<Post>& s) {
  int na = p.act.size(), n = 6 + na, T = p.T, N = n * T; Bls b(N); auto base = [&](const Post& x) { V q(n); q << x.p, qlog(x.R), V::Zero(na); for (int c = 0; c < na; ++c) q[6 + c] = x.q[p.act[c]]; return q; };
  // q_t = r_t + h z_t, v_t, a_t as affine maps of z: M z + m
  std::vector<MX> Qm(T), Vm(T), Am(T); std::vector<V> q0(T), v0(T), a0(T); for (int t = 0; t < T; ++t) { double dt = p.seq.dynamicsState(t).time(); Qm[t] = MX::Zero(n, N); Qm[t].block(0, n * t, n, n) = p.h * MX::Identity(n, n); q0[t] = base(s[t]); Vm[t] = (Qm[t] - (t ? Qm[t - 1] : MX::Zero(n, N))) / dt; v0[t] = (q0[t] - (t ? q0[t - 1] : base(ini))) / dt; Am[t] = (Vm[t] - (t ? Vm[t - 1] : MX::Zero(n, N))) / dt; a0[t] = (v0[t] - (t ? v0[t - 1] : V::Zero(n))) / dt; }
  std::vector<MX> Lm(T); std::vector<V> L0(T); for (int t = 0; t < T; ++t) { const DynamicsState& d = p.seq.dynamicsState(t); double dt = d.time(); auto k = kinof(p, s[t]); auto sub = [&](const MX& J) { MX S(J.rows(), n); for (int c = 0; c < n; ++c) S.col(c) = J.col(c < 6 ? c : 6 + p.act[c - 6]); return S; }; MX A = sub(k.A), Jc = sub(k.Jc); Lm[t] = A * Vm[t]; L0[t] = A * v0[t];
    V lref(6); lref << d.linearMomentum(), d.angularMomentum(); V l00(6); l00 << p.ini.linearMomentum(), p.ini.angularMomentum(); MX P = t ? Lm[t - 1] : MX::Zero(6, N); V P0 = t ? L0[t - 1] : l00;
    MX C = p.h * Jc * MX(Qm[t] / p.h); for (int i = 0; i < 3; ++i) { b.row(p.wc[i], C.row(i).transpose(), d.centerOfMass()[i] - k.com[i]); b.row(p.wl[i], Lm[t].row(i).transpose(), lref[i] - L0[t][i]); b.row(p.wa[i], Lm[t].row(3 + i).transpose(), lref[3 + i] - L0[t][3 + i]); b.row(p.wld[i], (Lm[t].row(i) - P.row(i)).transpose() / dt, (P0[i] - L0[t][i]) / dt); b.row(p.wad[i], (Lm[t].row(3 + i) - P.row(3 + i)).transpose() / dt, (P0[3 + i] - L0[t][3 + i]) / dt); }
    for (int e = 0; e < p.ne; ++e) { MX E = sub(k.Je[e]) * Qm[t]; for (int i = 0; i < 3; ++i) b.row((d.endeffectorActivation(e) ? p.we : p.wn)[i], E.row(i).transpose(), d.endeffectorPosition(e)[i] - k.eff[e][i]); }
    for (int c = 0; c < n; ++c) { b.row(p.wv, Vm[t].row(c).transpose(), -v0[t][c]); b.row(p.wac, Am[t].row(c).transpose(), -a0[t][c]); } for (int c = 0; c < na; ++c) { b.row(p.wd, Qm[t].row(6 + c).transpose(), p.def[p.act[c]] - q0[t][6 + c]); b.lb[n * t + 6 + c] = (p.lo[p.act[c]] - q0[t][6 + c]) / p.h; b.ub[n * t + 6 + c] = (p.hi[p.act[c]] - q0[t][6 + c]) / p.h; } }
  return b;
}
static std::string conf(const Prob& p, vk::Rng&) { std::string s = "  num_dofs: " + std::to_string(p.n) + "\n  kd_iterations: 1\n  num_subsamples: 3\n  display_motion: " + (p.disp ? "true" : "false") + "\n"; auto kv = [&](const std::string& k, const std::string& v) { s += "  " + k + ": " + v + "\n"; }; auto cst = [&](int n, double v) { return vec(V(V::Constant(n, v))); };
  kv("min_joint_limits", vec(p.lo)); kv("max_joint_limits", vec(p.hi)); kv("default_joint_positions", vec(p.def)); std::string a = "["; for (size_t i = 0; i < p.act.size(); ++i) a += (i ? ", " : "") + std::to_string(p.act[i]); kv("active_dofs", a + "]"); kv("w_kin_com", vec(p.wc)); kv("w_kin_lmom", vec(p.wl)); kv("w_kin_amom", vec(p.wa)); kv("w_kin_lmomd", vec(p.wld)); kv("w_kin_amomd", vec(p.wad)); kv("w_kin_eff_pos", vec(p.we)); kv("w_kin_eff_pos_nonact", vec(p.wn)); kv("w_kin_base_ori", "[1, 1, 1]"); kv("w_kin_joint_vel", cst(6 + p.n, p.wv)); kv("w_kin_joint_acc", cst(6 + p.n, p.wac)); kv("w_kin_default_joints", cst(p.n, p.wd));
  kv("slacks_penalty", num(p.slk)); kv("integration_step", num(p.h)); kv("convergence_tolerance", num(p.tol)); kv("lambda_regularization", num(p.lam)); kv("max_trajectory_iters", std::to_string(p.tit)); kv("max_convergence_iters", std::to_string(p.pit)); kv("use_second_order_inv_kin", "false"); kv("num_joint_viapoints", "0"); kv("num_base_viapoints", "0"); for (const char* k : {"swing_traj_via_z", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_endeff_contact", "w_endeff_tracking", "p_endeff_tracking", "p_com_tracking", "w_joint_regularization", "reg_orientation", "reg_joint_position"}) kv(k, "0.1"); return s; }
struct Run { PlannerSetting st; std::unique_ptr<Iface> f; std::unique_ptr<KinematicsOptimizer> k; ContactPlanFromFile cp; std::string file; };
static void setup(Run& x, const Prob& p, vk::Rng& r, const std::string& name) { Cfg g; g.kin = true; g.nact = p.ne; g.ndofs = p.n; g.N = p.T; g.dt = 0.1; g.dtstr = dec(0.1); g.horstr = dec(p.T * 0.1); g.store = p.store; g.floor = p.floor; g.kintext = conf(p, r); Hush h; x.file = dir().put(name + ".yaml", g.text()); x.st.initialize(x.file); x.cp.initialize(x.st); x.f.reset(new Iface(*p.R, p.byref, p.con, p.floor)); x.k.reset(new KinematicsOptimizer()); x.k->initialize(x.st, x.f.get()); }
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; Prob p; p.ne = r.irange(1, 4); p.n = r.irange(std::max(1, p.ne), 7); p.T = r.irange(1, 5); Robot rb(r, p.n, p.ne); p.R = &rb; for (int i = 0; i < p.n; ++i) if (r.chance(0.6)) p.act.push_back(i); if (r.chance(0.5) || p.act.empty()) { p.act.clear(); for (int i = 0; i < p.n; ++i) p.act.push_back(i); } bool subset = (int)p.act.size() < p.n; if (subset && r.chance(0.3)) for (int i = p.act.size() - 1; i > 0; --i) std::swap(p.act[i], p.act[r.irange(0, i)]);
  p.pit = r.pick(std::vector<int>{1, 2, 5, 20}); p.tit = r.irange(0, 3); p.h = r.pick(std::vector<double>{1, 0.1, 0.1, 0.01}); p.tol = 1e-4; p.lam = r.logu(1e-4, 1e-1) * p.h * p.h; p.slk = r.logu(1e-1, 10); p.floor = -5; p.byref = r.chance(0.5); p.con = r.chance(0.4); p.first = true; p.disp = r.chance(0.2); p.store = r.chance(0.2);
  p.def.resize(p.n); p.lo.resize(p.n); p.hi.resize(p.n); bool tight = r.chance(0.5); for (int i = 0; i < p.n; ++i) { p.def[i] = r.uni(-.6, .6); double a = tight ? r.logu(.005, .3) : 3, b = tight ? r.logu(.005, .3) : 3; p.lo[i] = p.def[i] - a; p.hi[i] = p.def[i] + b; }
  auto w3 = [&](double a) { return V3(a * r.logu(.3, 3), a * r.logu(.3, 3), a * r.logu(.3, 3)); }; p.wc = w3(10); p.wl = w3(1e-2); p.wa = w3(1e-2); p.wld = w3(1e-4); p.wad = w3(1e-4); p.we = w3(30); p.wn = w3(3); p.wd = r.logu(1e-4, 1e-1); p.wv = r.logu(1e-5, 1e-3); p.wac = r.logu(1e-6, 1e-4); if (r.chance(0.15)) p.wl[1] = p.wc[1] = 0;
  refs(r, p); bool noisy = r.chance(0.3); if (noisy) for (int t = 0; t < p.T; ++t) { DynamicsState& d = p.seq.dynamicsState(t); d.centerOfMass() += rv(r, .2); d.linearMomentum() += rv(r, 2); d.angularMomentum() += rv(r, 1); for (int e = 0; e < p.ne; ++e) d.endeffectorPosition(e) += rv(r, .3); } if (p.con && r.chance(0.5)) { p.floor = 1e30; auto k = rb.kin([&] { Post s; s.q = p.def; return s; }()); for (auto& e : k.eff) p.floor = std::min(p.floor, e[2]); p.floor -= r.uni(0, .1); p.tit = 0; }
  std::string ws = VKS("dofs " << p.n << " active " << p.act.size() << " effectors " << p.ne << " steps " << p.T << " iterations " << p.pit << "/" << p.tit << " step " << p.h << (tight ? " tight" : "") << (p.con ? " constraints" : "") << (noisy ? " noisy" : "")); c.sig += VKS(p.n << p.act.size() << p.ne << p.T << p.pit << p.tit << p.h << tight << p.con);
  if (r.chance(0.1)) { std::unique_ptr<KinematicsOptimizer> never(new KinematicsOptimizer()); c.count("never_initialized"); }
  Run x; setup(x, p, r, "a"); bool again = r.chance(0.2); if (again) { Hush h; x.k->initialize(x.st, x.f.get()); } std::string said; { Hush h; x.k->optimize(p.ini, &x.cp, p.seq, true); said = h.str(); } c.require("no_exception_inside", said.find("xception") == std::string::npos, ws + " " + said); c.count("plans");
  auto& seq = x.k->kinematicsSequence(); if (!c.require("sequence_length", seq.size() == p.T, ws)) return; auto ev = x.f->ev;
  // the posture phase alone on a second object (same calls first), then the trajectory phase in rounds of one call per step
  std::vector<Ev> I; for (auto& e : ev) if (e.k == 'I') I.push_back(e); Prob p0 = p; p0.tit = 0; p0.disp = p0.store = false; Run y; setup(y, p0, r, "b"); { Hush h; y.k->optimize(p.ini, &y.cp, p.seq, true); } std::vector<Ev> J; for (auto& e : y.f->ev) if (e.k == 'I') J.push_back(e); size_t np = J.size();
  if (!c.require("rounds_of_integration", I.size() == np + size_t(p.tit) * p.T, VKS(ws << " " << I.size() << " integrations, posture phase " << np))) return; bool same = true; for (size_t i = 0; i < np; ++i) same = same && (I[i].v - J[i].v).norm() <= 1e-9 * (1 + J[i].v.norm()); c.require("deterministic", same, ws);
  // the solver may stop with an inaccurate solution (not visible from outside): rare, and then still a clear improvement
  auto gap = [&](const std::string& k, const Bls& b, const V& z, const V& o, double s0, double ab) { double g = b.f(z) - b.f(o); std::string q = k + (noisy ? "_noisy" : ""); c.count(q + "_problems"); if (g > 1e-4 * s0 + ab) c.count(q + "_inaccurate"); c.check(q + "_step_is_optimal", g, noisy ? (k[0] == 'p' ? 1e-2 : 1.0) * s0 + 10 * ab : 2e-3 * (s0 - b.f(o)) + 10 * ab, ws); };
  // posture phase: each velocity solves the documented problem at the posture it starts from; the target is recognised by the step duration of the following difference
  { int hit = 0; std::vector<double> tm; std::vector<Ev>& E = y.f->ev; for (size_t i = 0; i < E.size(); ++i) if (E[i].k == 'I') { const DynamicsState* d = nullptr; for (size_t k = i + 1; k < E.size() && E[k].k != 'I'; ++k) if (E[k].k == 'D') { if (E[k].dt == p.ini.time()) d = &p.ini; for (int t = 0; t < p.T; ++t) if (E[k].dt == p.seq.dynamicsState(t).time()) d = &p.seq.dynamicsState(t); break; } if (!c.require("posture_duration_is_a_step", d != nullptr, ws)) return;
      Bls b = postureQp(p, E[i].a, *d); V z = actv(p, E[i].v), o = b.solve(z); double s0 = b.f(V::Zero(z.size()).cwiseMax(b.lb).cwiseMin(b.ub)) ; gap("posture", b, z, o, s0, 1e-9 * 30 / (p.h * p.h)); for (int q = 0; q < p.n; ++q) if (std::find(p.act.begin(), p.act.end(), q) == p.act.end()) c.check("inactive_joint_at_rest", std::abs(E[i].v[6 + q]) * p.h, 1e-9, ws); ++hit; c.check("integration_step", std::abs(E[i].dt - p.h), 0, ws); } c.count("posture_qps", hit); if (subset) c.count("subset_posture_qps", hit); }
  // trajectory phase
  if (p.tit) { Post ini; bool found = false; for (size_t i = 0, k = 0; i < ev.size(); ++i) { if (ev[i].k == 'I') ++k; if (ev[i].k == 'D' && k == np + 1) { ini = ev[i].a; found = true; break; } } if (!c.require("first_step_differenced", found, ws)) return;
    for (int it = 0; it < p.tit; ++it) { std::vector<Post> s; int n = 6 + p.act.size(); V z(n * p.T); for (int t = 0; t < p.T; ++t) { s.push_back(I[np + it * p.T + t].a); z.segment(n * t, n) = actv(p, I[np + it * p.T + t].v); } Bls b = trajQp(p, ini, s); V o = b.solve(z); double s0 = b.f(V::Zero(z.size()).cwiseMax(b.lb).cwiseMin(b.ub)) ; gap("trajectory", b, z, o, s0, 1e-7 * 30); c.count("trajectory_qps"); if (subset) c.count("subset_trajectory_qps"); bool act = false; for (int i = 0; i < z.size(); ++i) act |= o[i] <= b.lb[i] + 1e-9 || o[i] >= b.ub[i] - 1e-9; if (act) c.count("limits_active"); } 
    V a0 = V::Zero(6 + p.n), vp = a0; for (int t = 0; t < p.T; ++t) { Post a = t ? post(seq.kinematicsState(t - 1)) : ini, b = post(seq.kinematicsState(t)); V v = rb.diff(a, b, p.seq.dynamicsState(t).time()); c.check("velocity_is_difference", (v - seq.kinematicsState(t).robotVelocity().generalizedJointVelocities()).norm(), 1e-8 * (1 + v.norm()), ws); V ac = (v - vp) / p.seq.dynamicsState(t).time(), got = seq.kinematicsState(t).robotAcceleration().generalizedJointAccelerations(); for (int i = 0; i < 6 + p.n; ++i) if (i < 3 || i >= 6) c.check("acceleration_is_difference", std::abs(ac[i] - got[i]), 1e-4 * (1 + ac.norm()), ws); vp = v; } }
  double e0 = 0, e1 = 0; Post d0; d0.q = p.def; for (int t = 0; t < p.T; ++t) { const KinematicsState& k = seq.kinematicsState(t); Post s = post(k); auto m = rb.kin(s); c.check("unit_quaternion", std::abs(s.R.norm() - 1), 1e-9, ws);
    for (int i = 0; i < p.n; ++i) { bool a = std::find(p.act.begin(), p.act.end(), i) != p.act.end(); if (a && (p.pit || p.tit)) { double lim = std::max(p.lo[i] - s.q[i], s.q[i] - p.hi[i]); c.check("joint_limits", lim, 1e-3, ws); c.count("joint_steps"); if (lim > 1e-5) c.count("limits_loose"); } if (!a) c.check("inactive_joint_stays", std::abs(s.q[i] - p.def[i]), 1e-9, ws); }
    V mo = m.A * k.robotVelocity().generalizedJointVelocities(); c.check("com_of_the_posture", (m.com - k.centerOfMass()).norm(), 1e-9, ws); c.check("lmom_of_the_posture", (mo.head<3>() - k.linearMomentum()).norm(), 1e-8 * (1 + mo.norm()), ws); c.check("amom_of_the_posture", (mo.tail<3>() - k.angularMomentum()).norm(), 1e-8 * (1 + mo.norm()), ws); for (int e = 0; e < p.ne; ++e) c.check("effector_of_the_posture", (m.eff[e] - k.endeffectorPosition(e)).norm(), 1e-9, ws); e0 += terr(p, d0, p.seq.dynamicsState(t)); e1 += terr(p, s, p.seq.dynamicsState(t)); }
  if (!noisy && !p.con) { c.count("reachable"); c.check("tracking_improves", (e1 - e0) / (e0 + 1e-4), p.tit ? 0.5 : 0.05, ws); if (e1 <= 0.1 * e0) c.count("tracking_good"); if (!tight && !p.tit && p.pit >= 20 && e1 > 0.5 * e0 && e0 > 1e-4) c.count("tracking_poor"); }
  if (p.disp) { std::vector<Ev> P; for (auto& e : ev) if (e.k == 'P') P.push_back(e); c.require("displayed_samples", (int)P.size() == 3 * p.T, VKS(ws << " " << P.size())); double tt = 0, want = 0; for (auto& e : P) { tt += e.dt; c.check("displayed_unit_quaternion", std::abs(e.a.R.norm() - 1), 1e-9, ws); } for (int t = 0; t < p.T; ++t) want += p.seq.dynamicsState(t).time(); c.check("displayed_time", std::abs(tt - want), 1e-9, ws); if ((int)P.size() == 3 * p.T) for (int t = 1; t < p.T; ++t) for (int s = 0; s < 3; ++s) { Post a = post(seq.kinematicsState(t - 1)), b = post(seq.kinematicsState(t)); double f = s / 3.; c.check("displayed_interpolation", ((1 - f) * a.q + f * b.q - P[3 * t + s].a.q).norm() + ((1 - f) * a.p + f * b.p - P[3 * t + s].a.p).norm(), 1e-9, ws); } c.count("displayed"); }
  if (p.store) { YAML::Node y = YAML::LoadFile(x.file.substr(0, x.file.size() - 5) + "_kin_results.yaml"); double er = 0; for (int t = 0; t < p.T; ++t) { const KinematicsState& k = seq.kinematicsState(t); YAML::Node d = y["dyn_state_" + std::to_string(t)]; auto cmp = [&](const char* n, const V& v) { if (!d[n] || (int)d[n].size() != v.size()) { er = 1e9; return; } for (int i = 0; i < v.size(); ++i) er = std::max(er, std::abs(d[n][i].as<double>() - v[i]) / (1 + std::abs(v[i]))); }; cmp("generalized_joint_positions", k.robotPosture().generalizedJointPositions()); cmp("generalized_joint_velocities", k.robotVelocity().generalizedJointVelocities()); cmp("generalized_joint_accelerations", k.robotAcceleration().generalizedJointAccelerations()); er = std::max(er, std::abs(d["time"].as<double>() - p.seq.dynamicsState(t).time())); } c.check("stored_file", er, 1e-5, ws); c.count("stored"); }
  // the same object again
  if (r.chance(0.4)) { { Hush h; Prob q = p; q.first = true; x.k->optimize(p.ini, &x.cp, p.seq, true); } double df = 0; Run w; setup(w, p, r, "c"); { Hush h; w.k->optimize(p.ini, &w.cp, p.seq, true); } for (int t = 0; t < p.T; ++t) df = std::max(df, rb.diff(post(seq.kinematicsState(t)), post(w.k->kinematicsSequence().kinematicsState(t)), 1).norm()); c.check("reused_like_new", df, 1e-9, ws); 
    if (p.tit) { std::vector<Post> b; for (int t = 0; t < p.T; ++t) b.push_back(post(seq.kinematicsState(t))); x.f->ev.clear(); { Hush h; x.k->optimize(p.ini, &x.cp, p.seq, false); } std::vector<Ev> K; for (auto& e : x.f->ev) if (e.k == 'I') K.push_back(e); size_t off = K.size() - size_t(p.tit) * p.T; double d2 = K.size() >= size_t(p.tit) * p.T ? 0 : 1e9; if (!d2) for (int t = 0; t < p.T; ++t) d2 = std::max(d2, rb.diff(b[t], K[off + t].a, 1).norm()); c.check("later_call_continues_from_the_plan", d2, 1e-9, ws); c.count("continued"); } }
  c.nontrivial = true; c.sample = ws;
}
int main(int argc, char** argv) { return vk::run(argc, argv, "m08_kinopt", one); }
