// X01: the public interfaces used in every order and with every size and number; nothing is asked of the answers but that they arrive (or an exception does) without touching foreign memory.
#include <Eigen/Dense>
#include <memory>
#include <fstream>
#include "vk.hpp"
#include <solver/interface/Model.hpp>
#include <solver/interface/OptVar.hpp>
#include <solver/optimizer/LbfgsSolver.hpp>
#include <solver_lqr/SolverLqr.hpp>
using namespace solver;
struct Hush { std::stringstream s; std::streambuf *o, *e; Hush() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); } ~Hush() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
static double wild(vk::Rng& r) { int k = r.irange(0, 19); double n = std::nan(""), i = INFINITY; switch (k) { case 0: return 0; case 1: return r.chance(.3) ? n : 1; case 2: return r.chance(.5) ? r.sgn() * i : 1; case 3: return r.sgn() * r.logu(1e-320, 1e-10); case 4: return r.sgn() * r.logu(1e10, 1e300); case 5: return r.irange(-3, 3); default: return r.normal(); } }
static double tame(vk::Rng& r, double w) { return r.chance(w) ? wild(r) : r.normal(); }
static LinExpr lin(vk::Rng& r, const std::vector<Var>& v, double w) { LinExpr e; int n = v.empty() ? 0 : r.irange(0, 4); for (int i = 0; i < n; ++i) { const Var& x = r.pick(v); if (r.chance(.5)) e += LinExpr(x) * tame(r, w); else e = e + LinExpr(x, tame(r, w)); } if (r.chance(.7)) e += tame(r, w); return e; }
static DCPQuadExpr qua(vk::Rng& r, const std::vector<Var>& v, double w) { DCPQuadExpr q; int n = r.irange(0, 3); for (int i = 0; i < n; ++i) { double c = std::abs(tame(r, w)); if (r.chance(.7)) q.addQuaTerm(c, lin(r, v, w)); else q.addQuaTerm(c, LinExpr()); } return q; }
static const char* CODES[] = {"<", ">", "=", "==", "<=", ""};
static void model(vk::Case& c) {
  vk::Rng& r = c.rng; std::vector<std::string> h; double w = r.chance(.4) ? 0 : r.pick<double>({.02, .1, .4}); std::unique_ptr<Model> m(new Model()); std::vector<Var> v; bool configured = false; int opts = 0, rows = 0, bins = 0; std::ostringstream tr; Hush hush;
  int steps = r.irange(1, 25); for (int k = 0; k < steps; ++k) { int a = r.irange(0, 15); try {
    if (!configured && r.chance(.85)) { m->configSetting(std::string(VK_VERIF) + "/harness/common/solver_stgs.yaml"); m->getSetting().set(SolverIntParam_SolverMaxIters, r.irange(1, 30)); configured = true; tr << "C"; }
    if (a < 5) { bool b = r.chance(.1) && bins < 4; bins += b; v.push_back(m->addVar(b ? VarType::Binary : VarType::Continuous, tame(r, w) - 2, tame(r, w) + 2, tame(r, w))); tr << (b ? "B" : "V"); }
    else if (a < 8) { m->addLinConstr(lin(r, v, w), CODES[r.irange(0, r.chance(.1) ? 5 : 3)], lin(r, v, w)); tr << "L"; ++rows; }
    else if (a == 8) { m->addSocConstr(qua(r, v, w), "<", lin(r, v, w)); tr << "S"; ++rows; }
    else if (a == 9) { auto ap = r.pick<QuadConstrApprox>({QuadConstrApprox::None, QuadConstrApprox::None, QuadConstrApprox::TrustRegion, QuadConstrApprox::SoftConstraint}); m->addQuaConstr(qua(r, v, w), "<", lin(r, v, w), ap); tr << "Q" << int(ap); ++rows; }
    else if (a < 12) { m->setObjective(qua(r, v, w), lin(r, v, w)); tr << "O"; }
    else if (a == 12 && r.chance(.3)) { m->clean(); v.clear(); bins = 0; tr << "x"; }
    else if (a == 13 && r.chance(.2)) { m.reset(new Model()); v.clear(); configured = false; bins = 0; tr << "N"; }
    else if (configured) { ExitCode e = m->optimize(); ++opts; tr << "!"; volatile int ee = int(e); (void)ee; double s = 0; for (auto& x : v) s += x.get(SolverDoubleParam_X); volatile double ss = s; (void)ss; LinExpr le = lin(r, v, 0); volatile double lv = le.getValue(); (void)lv; c.count(VKS("exit_" << int(e))); }
  } catch (const std::exception& e) { tr << "e"; c.count("threw"); } }
  c.sig = tr.str(); c.nontrivial = opts > 0; c.count("optimisations", opts); }

// minimisations through the NLP description, with functions that lie, sizes from one on and any parameters
struct Dsc : NlpDescription { int n, k, kind, ev = 0, done = 0; vk::Rng* r; double w; Eigen::VectorXd a;
  void getNlpParameters(int& nv, int& nc) override { nv = n; nc = k; }
  void getNlpBounds(int nv, int nc, double* l, double* u, double* gl, double* gu) override { for (int i = 0; i < nv; ++i) { l[i] = -10; u[i] = 10; } for (int i = 0; i < nc; ++i) { gl[i] = -1; gu[i] = 1; } }
  void getStartingPoint(int nv, double* x) override { for (int i = 0; i < nv; ++i) x[i] = tame(*r, w); }
  double evaluateObjective(int nv, const double* x) override { ++ev; if (r->chance(w)) return wild(*r); double s = 0; for (int i = 0; i < nv; ++i) s += kind == 0 ? x[i] * x[i] * a[i] : kind == 1 ? std::sin(x[i]) + a[i] * x[i] : a[i]; return s; }
  void evaluateConstraintsVector(int nv, int nc, const double* x, double* g) override { for (int i = 0; i < nc; ++i) g[i] = x[i % nv] * (i + 1); }
  void processSolution(int nv, double f, const double* x) override { ++done; NlpDescription::processSolution(nv, f, x); } };
static void nlp(vk::Case& c) {
  vk::Rng& r = c.rng; Dsc d; d.r = &r; d.n = r.irange(1, 9); d.k = r.irange(0, 3); d.kind = r.irange(0, 2); d.w = r.chance(.6) ? 0 : .05; d.a = Eigen::VectorXd::Zero(d.n); for (int i = 0; i < d.n; ++i) d.a[i] = r.normal(); Hush h; LbfgsSolver s; int rounds = r.irange(1, 3); std::ostringstream tr; tr << "nlp" << d.n << "," << d.k << "," << d.kind;
  for (int i = 0; i < rounds; ++i) { try { s.verbose() = r.chance(.3); s.initialize(&d, r.uni(0, 5)); auto& P = s.opt_params(); if (r.chance(.5)) P.m = r.irange(1, 9); P.max_iterations = r.irange(1, 40); if (r.chance(.4)) P.max_linesearch = r.irange(1, 20); if (r.chance(.5)) P.linesearch = r.irange(0, 3); if (r.chance(.2)) P.past = r.irange(0, 4); s.optimize(); volatile double v = d.optimalVector().size() ? d.optimalVector()[0] : 0; (void)v; } catch (const std::exception& e) { c.count("threw"); } tr << "," << d.ev; }
  c.sig = tr.str(); c.nontrivial = d.ev > 0; c.count("minimisations", rounds); }
// feedback problems of any horizon and dimension, one object used again and again
struct Ocp : solverlqr::OcpBase { double g = 1; vk::Rng* r = nullptr; double w = 0; void configure(const YAML::Node&) override {} solverlqr::StateBase dynamics(const solverlqr::StateBase& x, const solverlqr::ControlBase& u, int) override { solverlqr::StateBase d(int(x.stateVector().size())); d.stateVector() = -g * x.stateVector(); for (int i = 0; i < int(u.feedforward().size()) && i < int(x.stateVector().size()); ++i) d.stateVector()[i] += u.feedforward()[i]; if (w > 0 && int(x.stateVector().size()) && r->chance(w)) d.stateVector()[0] = wild(*r); return d; }
  double objective(const solverlqr::StateBase& x, const solverlqr::ControlBase& u, int, bool) override { return x.stateVector().squaredNorm() + u.feedforward().squaredNorm(); } };
static void lqr(vk::Case& c) {
  vk::Rng& r = c.rng; static std::string f; if (f.empty()) { char b[] = "/tmp/vk-mom-XXXXXX"; f = std::string(mkdtemp(b)) + "/l.yaml"; atexit([] { remove(f.c_str()); rmdir(f.substr(0, f.rfind('/')).c_str()); }); } Hush h; std::unique_ptr<Ocp> o(new Ocp()); o->r = &r; o->w = r.chance(.6) ? 0 : .01; std::unique_ptr<solverlqr::SolverLqr> s(new solverlqr::SolverLqr()); int rounds = r.irange(1, 3); std::ostringstream tr; tr << "lqr"; std::vector<std::unique_ptr<solverlqr::SolverLqrSetting>> keep;
  for (int i = 0; i < rounds; ++i) { int n = r.irange(1, 4), m = r.irange(1, 3), T = r.irange(0, 6); o->g = r.pick<double>({0, 1, -3, 30}); bool lim = r.chance(.4); std::ostringstream y; auto vec = [&](int k, double v) { std::string t = "["; for (int j = 0; j < k; ++j) t += (j ? ", " : "") + std::to_string(v); return t + "]"; };
    y << "solverlqr_dynamics:\n  store_data: false\n  verbosity: 0\n  decimal_digits: 4\n  lqr_max_iters: " << r.irange(0, 6) << "\n  linesearch_coeff: 1.1\n  linesearch_num_coeffs: " << r.irange(1, 12) << "\n  cost_change_tolerance: 1e-9\n  divergence_limit_check: " << r.pick<double>({1e6, 1, 1e-3}) << "\n  bpass_regularization_type: " << r.irange(1, 2) << "\n  bpass_min_regularization: 1e-6\n  bpass_max_regularization: 1e10\n  control_gradient_tolerance: 1e-6\n  bpass_initial_regularization: " << r.pick<double>({0, 1, 100}) << "\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: 1.2\n  bpass_initial_mult_regularization_incr: 1.0\n  problem_name: x\n  time_step: 0.1\n  time_horizon: " << T * 0.1 + 0.01 << "\n  state_dimension: " << n << "\n  control_dimension: " << m << "\n  initial_state: " << vec(n, r.normal()) << "\n  has_control_limits: " << (lim ? "true" : "false") << "\n  min_control_limits: " << vec(m, -r.uni(0, 1)) << "\n  max_control_limits: " << vec(m, r.uni(0, 1)) << "\n  user_parameters:\n    a: 1\n"; std::ofstream(f) << y.str();
    try { keep.emplace_back(new solverlqr::SolverLqrSetting()); keep.back()->initialize(f, "solverlqr_dynamics"); keep.back()->get(solverlqr::SolverLqrBoolParam_UseRungeKuttaIntegration) = r.chance(.3); o->initialize(*keep.back()); s->initialize(o.get(), *keep.back()); for (int k = r.irange(1, 2); k > 0; --k) s->optimize(); double t = 0; for (int k = 0; k < o->controlSeq().size(); ++k) t += o->controlSeq().control(k).feedforward().sum() + o->controlSeq().control(k).feedback().sum(); volatile double tt = t; (void)tt; tr << "," << n << m << T << lim; } catch (const std::exception& e) { c.count("threw"); tr << "e"; } }
  c.sig = tr.str(); c.nontrivial = true; c.count("feedback_problems", rounds); }
int main(int argc, char** argv) { return vk::run(argc, argv, "x01_hostile", [](vk::Case& c) { int k = c.id % 8; if (k < 5) model(c); else if (k < 6) nlp(c); else lqr(c); }); }
