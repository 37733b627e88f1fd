// L04: state and control sequences as values: histories of operations against a shadow of plain matrices; stored gains load back.
#include "lqr.hpp"
#include <fstream>
static std::string DIR;
typedef std::vector<VectorXd> SS; struct CV { VectorXd ff; MatrixXd fb; }; typedef std::vector<CV> CS;
static bool eq(const StateSequence& a, const SS& b) { if (a.size() != (int)b.size()) return false; for (int i = 0; i < a.size(); ++i) if (a.state(i).stateVector() != b[i]) return false; return true; }
static bool eq(const ControlSequence& a, const CS& b) { if (a.size() != (int)b.size()) return false; for (int i = 0; i < a.size(); ++i) if (a.control(i).feedforward() != b[i].ff || a.control(i).feedback() != b[i].fb) return false; return true; }
static bool near(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-14 * (1 + b.cwiseAbs().maxCoeff())); }
struct Nop : Watched { VectorXd f(const VectorXd& x, const VectorXd&, int) override { return 0 * x; } double l(const VectorXd&, const VectorXd&, int, bool) override { return 0; } };
static void store(vk::Case& c) {   // gains stored by an optimisation are loaded back into the same step
  vk::Rng& r = c.rng; int nx = r.irange(1, 4), nu = r.irange(2, 3), T = r.irange(1, 12); SolverLqrSetting s = settings(T, nx, nu); LqOcp o; o.gen(r, T, nx, nu, true); o.initialize(s); guess(r, o, rnd(r, nx, 1), 1, 1); std::string f = DIR + "/r.yaml"; s.get(SolverLqrBoolParam_StoreData) = true; s.get(SolverLqrStringParam_SaveLqrFile) = f; s.get(SolverLqrIntParam_LqrMaxIterations) = r.irange(0, 3);
  SolverLqr q; q.initialize(&o, s); q.optimize(); ControlSequence u = o.controlSeq(); StateSequence x = o.stateSeq(); YAML::Node n = YAML::LoadFile(f)["solverlqr_variables"]; MatrixXd st = n["states"].as<MatrixXd>(), ff = n["control_ff"].as<MatrixXd>(); double e = 0;
  if (c.require("stored_sizes", st.rows() == nx && st.cols() == T + 1 && ff.rows() == nu && ff.cols() == T && n["tdim"].as<int>() == T && n["xdim"].as<int>() == nx && n["udim"].as<int>() == nu, c.sig)) { for (int t = 0; t <= T; ++t) e = std::max(e, (st.col(t) - x.state(t).stateVector()).cwiseAbs().maxCoeff()); for (int t = 0; t < T; ++t) e = std::max(e, (ff.col(t) - u.control(t).feedforward()).cwiseAbs().maxCoeff()); c.check("stored_values", e, 1e-12 * (1 + ff.cwiseAbs().maxCoeff() + st.cwiseAbs().maxCoeff()), c.sig); }
  ControlSequence z(T, nx, nu); o.controlSeq() = z; q.loadSolution(f); bool ok = true; e = 0; for (int t = 0; t < T; ++t) { const MatrixXd &a = o.controlSeq().control(t).feedback(), &b = u.control(t).feedback(); ok = ok && a.rows() == b.rows() && a.cols() == b.cols(); if (ok) e = std::max(e, (a - b).cwiseAbs().maxCoeff() / (1 + b.cwiseAbs().maxCoeff())); } c.require("loaded_sizes", ok, c.sig); c.check("gains_load_back", e, 1e-12, c.sig); c.count("stored"); std::remove(f.c_str()); c.sig = VKS("store" << nx << nu << T); 
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; if (c.id % 8 == 7) { store(c); c.nontrivial = true; return; }
  int nx = r.irange(1, 5), nu = r.irange(1, 4); std::vector<StateSequence> S(3); std::vector<SS> s(3); std::vector<ControlSequence> U(3); std::vector<CS> u(3); SolverLqrSetting st; Nop ocp; std::string h; c.sig = VKS(nx << "," << nu << ":");
  auto newu = [&](int i, int T) { U[i].resize(T, nx, nu); u[i].assign(T, CV{VectorXd::Zero(nu), MatrixXd::Zero(nu, nx)}); }; if (r.chance(0.7)) for (int i = 0; i < 3; ++i) newu(i, 2);
  int ops = r.irange(4, 25);
  for (int k = 0; k < ops; ++k) {
    int a = r.irange(0, 2), b = r.irange(0, 2), op = r.irange(0, 13), T = r.irange(1, 9); double v = r.pick(std::vector<double>{0, 1, -1, 0.5, -2.25, 3}); h += VKS(op << "." << a << b << " "); c.sig += char('a' + op);
    if (op == 0) { S[a].resize(T, nx); s[a].assign(T, VectorXd::Zero(nx)); }
    else if (op == 1) newu(a, T);
    else if (op == 2 && s[a].size()) { int t = r.irange(0, s[a].size() - 1); VectorXd w = rnd(r, nx, 1); S[a].state(t).stateVector() = w; s[a][t] = w; }
    else if (op == 3 && u[a].size()) { int t = r.irange(0, u[a].size() - 1); CV w{rnd(r, nu, 1), rnd(r, nu, nx)}; U[a].control(t).feedforward() = w.ff; U[a].control(t).feedback() = w.fb; u[a][t] = w; }
    else if (op == 4) { S[a] = S[b]; s[a] = SS(s[b]); }
    else if (op == 5) { U[a] = U[b]; u[a] = CS(u[b]); }
    else if (op == 6 && u[a].size() == u[b].size()) { int d = r.irange(0, 2); U[d] = U[a] + U[b]; CS x = u[a]; for (size_t t = 0; t < x.size(); ++t) { x[t].ff = u[a][t].ff + u[b][t].ff; x[t].fb = u[b][t].fb; } u[d] = x; }
    else if (op == 7 && u[a].size() == u[b].size()) { U[a] += U[b]; CS y = u[b]; for (size_t t = 0; t < y.size(); ++t) { u[a][t].ff += y[t].ff; u[a][t].fb = y[t].fb; } }
    else if (op == 8) { int d = r.irange(0, 2); U[d] = r.chance(0.5) ? U[a] * v : v * U[a]; CS x = u[a]; for (auto& q : x) q.ff *= v; u[d] = x; }
    else if (op == 9) { U[a] *= v; for (auto& q : u[a]) q.ff *= v; }
    else if (op == 10) { U[a].setRandom(v); for (size_t t = 0; t < u[a].size(); ++t) { c.check("random_bounded", U[a].control(t).feedforward().cwiseAbs().maxCoeff(), std::abs(v), h); u[a][t].ff = U[a].control(t).feedforward(); } }
    else if (op == 11 && s[a].size()) { S[a].setRandom(v); for (size_t t = 0; t < s[a].size(); ++t) { c.check("random_bounded", S[a].state(t).stateVector().cwiseAbs().maxCoeff(), std::abs(v), h); s[a][t] = S[a].state(t).stateVector(); } }
    else if (op == 12 && s[a].size()) {  // states as vectors
      const StateBase &p = S[a].state(r.irange(0, s[a].size() - 1)), q = S[a].state(0); VectorXd P = p.stateVector(), Q = q.stateVector(); double d = v == 0 ? 2 : v; c.require("state_algebra", (p + q).stateVector() == P + Q && (p - q).stateVector() == P - Q && (p * v).stateVector() == P * v && (v * p).stateVector() == P * v && near((p / d).stateVector(), P / d), h); StateBase w = p; w += q; w *= d; w /= d; w += w; c.require("state_compound", near(w.stateVector(), 2 * (P + Q)), h); }
    else if (op == 13 && u[a].size() && u[a].size() == u[b].size()) { double e = 0; for (size_t t = 0; t < u[a].size(); ++t) { double m = 0; for (int i = 0; i < nu; ++i) m = std::max(m, std::abs(u[a][t].ff(i)) / (std::abs(u[b][t].ff(i)) + 1)); e += m; } e /= u[a].size(); c.check("gradient_norm", std::abs(ControlSequence::controlSequenceGradientNorm(U[a], U[b]) - e), 1e-12 * (1 + e), h); }
    // every sequence holds exactly what its own history gave it
    for (int i = 0; i < 3; ++i) { c.require("state_sequence", eq(S[i], s[i]), VKS(h << " sequence " << i << " has " << S[i].size() << " expected " << s[i].size())); c.require("control_sequence", eq(U[i], u[i]), VKS(h << " sequence " << i)); }
    if (c.nviol) return;
  }
  c.nontrivial = true; c.sample = c.sig;
}
int main(int argc, char** argv) { char t[] = "/tmp/vk-l04-XXXXXX"; DIR = mkdtemp(t); int rc = vk::run(argc, argv, "l04_seq", one); rmdir(DIR.c_str()); return rc; }
