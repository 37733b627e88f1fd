// X01: configuration files damaged in every way a file can be; loading rejects them (message or exception) or takes them, and what was taken is safe to use.
#include "common/dyn.hpp"
#include <solver/interface/SolverSetting.hpp>
#include <solver_lqr/SolverLqrSetting.hpp>
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
using namespace dyn;
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::stringstream t(s); std::string l; while (std::getline(t, l)) v.push_back(l); return v; }
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& l : v) s += l + "\n"; return s; }
static std::string lqrtext(vk::Rng& r, const Cfg& g) { return "solverlqr_dynamics:\n  store_data: " + std::string("false") + "\n  verbosity: 0\n  decimal_digits: 4\n  lqr_max_iters: " + std::to_string(r.irange(0, 3)) + "\n  linesearch_coeff: 1.1\n  linesearch_num_coeffs: 10\n  cost_change_tolerance: 1e-9\n  divergence_limit_check: 1e6\n  bpass_regularization_type: 2\n  bpass_min_regularization: 1e-6\n  bpass_max_regularization: 1e10\n  control_gradient_tolerance: 1e-6\n  bpass_initial_regularization: 0.1\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: 1.2\n  bpass_initial_mult_regularization_incr: 1.0\n  problem_name: DynamicMomentumOptimization\n  time_step: " + num(g.dt) + "\n  time_horizon: " + num(g.N * g.dt) + "\n  state_dimension: 9\n  control_dimension: 12\n  initial_state: [0, 0, 0, 0, 0, 0, 0, 0, 0]\n  has_control_limits: false\n  user_parameters:\n    control_cost: [0.001, 0.001, 0.001]\n    com_tracking: [1, 1, 1]\n    lmom_tracking: [1, 1, 1]\n    amom_tracking: [1, 1, 1]\n    com_final_tracking: [1, 1, 1]\n    lmom_final_tracking: [1, 1, 1]\n    amom_final_tracking: [1, 1, 1]\n"; }
static void damage(vk::Rng& r, std::string& s, std::string& how) {
  auto v = lines(s); if (v.empty()) return; int k = r.irange(0, 9), i = r.irange(0, int(v.size()) - 1); auto pick = [&](const char* needle) { std::vector<int> c; for (size_t j = 0; j < v.size(); ++j) if (v[j].find(needle) != std::string::npos) c.push_back(j); return c.empty() ? i : r.pick(c); };
  auto number = [&](std::string& l, const std::string& w) { std::vector<std::pair<size_t, size_t>> at; for (size_t p = 0; p < l.size();) { if (isdigit(l[p]) || (l[p] == '-' && p + 1 < l.size() && isdigit(l[p + 1]))) { size_t q = p + 1; while (q < l.size() && (isalnum(l[q]) || l[q] == '.' || l[q] == '-' || l[q] == '+')) ++q; if (p && (l[p - 1] == ' ' || l[p - 1] == '[')) at.push_back({p, q}); p = q; } else ++p; } if (at.empty()) return; auto x = r.pick(at); l = l.substr(0, x.first) + w + l.substr(x.second); };
  switch (k) {
    case 0: how += "drop " + v[i].substr(0, 40); v.erase(v.begin() + i); break;
    case 1: how += "twice " + v[i].substr(0, 40); v.insert(v.begin() + i, v[i]); break;
    case 2: case 3: { i = pick(r.chance(.5) ? "[" : ": "); static const char* W[] = {"nan", ".nan", ".inf", "-1", "0", "1e308", "-1e308", "abc", "", "[]", "~", "true", "1e-320", "99999999999999999999", "2.5", "-0", "{}", "3", "1"}; std::string w = W[r.irange(0, 18)]; how += "number " + v[i].substr(0, 40) + " <- " + w; number(v[i], w); break; }
    case 4: case 5: { i = pick("["); size_t a = v[i].find('['), b = v[i].find_last_of(','); if (a == std::string::npos) break; how += "list " + v[i].substr(0, 40); if (r.chance(.6) && b != std::string::npos) v[i] = v[i].substr(0, b) + "]"; else if (r.chance(.5)) v[i] = v[i].substr(0, a) + "[]"; else v[i].insert(a + 1, "0, "); break; }
    case 6: { how += "cut"; std::string t = join(v); s = t.substr(0, r.irange(0, int(t.size()))); return; }
    case 7: { how += "indent " + v[i].substr(0, 40); if (r.chance(.5)) v[i] = "  " + v[i]; else if (!v[i].empty()) v[i] = v[i].substr(1); break; }
    case 8: { how += "bytes in " + v[i].substr(0, 40); int n = r.irange(1, 4); for (int j = 0; j < n; ++j) { size_t p = r.irange(0, int(v[i].size())); v[i].insert(p, 1, char(r.irange(1, 255))); } break; }
    case 9: { size_t c = v[i].find(':'); if (c == std::string::npos) break; how += "value of " + v[i].substr(0, 40); static const char* W[] = {"", " abc", " []", " {}", " [[]]", " [1]", " 0", " -3", " [a, b]", " 1e400", " !!binary x", " &a *a", " {a: 1}", " [[[1]]]"}; v[i] = v[i].substr(0, c + 1) + W[r.irange(0, 13)]; break; }
  }
  how += "; "; s = join(v);
}
// what a loader said: exceptions of the standard library are a rejection
template <class F> static bool accepts(vk::Case& c, const char* what, F f) { bool ok = false; { Hush h; std::stringstream err; std::streambuf* o = std::cerr.rdbuf(err.rdbuf()); try { f(); ok = h.str().empty() && err.str().empty(); } catch (const std::exception& e) { c.count("threw"); } std::cerr.rdbuf(o); } c.count(VKS((ok ? "taken_" : "rejected_") << what)); return ok; }
// the configurations the planner comes with are taken by every loader they are written for
static void shipped(vk::Case& c) {
  static const char* F[] = {"momentumopt/config/cfg_biped.yaml", "momentumopt/config/cfg_bolt_jump.yaml", "momentumopt/config/cfg_solo12_jump.yaml", "momentumopt/config/cfg_solo8_fast_short_trot.yaml", "momentumopt/config/cfg_solo8_jump.yaml", "momentumopt/config/cfg_solo8_trot.yaml"};
  std::string f = std::string(VK_REPO) + "/" + F[c.id]; if (!std::ifstream(f)) { c.count("gone"); return; } c.sig = f; c.nontrivial = true; Hush h; try { PlannerSetting st; st.initialize(f); if (c.id > 0) { DynamicsState ini; ini.fillInitialRobotState(f); ContactPlanFromFile cp; cp.initialize(st); TerrainDescription ter; ter.loadFromFile(f); cp.optimize(ini, ter); } } catch (const std::exception& e) { h.s << "threw " << e.what(); }
  std::string said; std::stringstream t(h.str()); std::string l; while (std::getline(t, l)) if (l.find("rror") != std::string::npos || l.find("threw") != std::string::npos) said += l + "; "; c.require("shipped_configuration_is_taken", said.empty(), VKS(f << ": " << said)); c.count("shipped");
}
static void one(vk::Case& c) {
  if (c.id < 6) { shipped(c); return; }
  vk::Rng& r = c.rng; Cfg g = scenario(r, false); g.N = std::min(g.N, 8); g.horstr = dec(g.N * g.dt); g.kin = r.chance(.5); if (r.chance(.3)) g.regions = {{V3(1, 1, 0), V3(-1, 1, 0), V3(-1, -1, 0), V3(1, -1, 0)}, {V3(1, 1, 1), V3(-1, 1, 1), V3(-1, -1, 1)}}; if (r.chance(.4)) for (int e = 0; e < 4; ++e) g.via[e] = {Via{0, V3(0, 0, 1), Q::Identity()}};
  std::string text = g.text() + lqrtext(r, g), how; int n = c.id % 50 == 0 ? 0 : r.irange(1, 3); for (int i = 0; i < n; ++i) damage(r, text, how);
  std::string f = dir().put(r.chance(.1) ? "a" : r.chance(.1) ? "x.y" : "damaged.yaml", text); c.sig = how; c.nontrivial = n > 0; c.sample = how; if (n && r.chance(.02)) f += ".missing";
  PlannerSetting st; solverlqr::SolverLqrSetting lq; solver::SolverSetting so; DynamicsState ini; TerrainDescription ter; ContactPlanFromFile cp; ViapointSequence vs; ContactSequence cs;
  bool a = accepts(c, "planner", [&] { st.initialize(f); }); bool b = accepts(c, "state", [&] { ini.fillInitialRobotState(f); }); accepts(c, "terrain", [&] { ter.loadFromFile(f); }); bool l = accepts(c, "lqr", [&] { lq.initialize(f, "solverlqr_dynamics"); }); accepts(c, "solver", [&] { so.initialize(f); }); accepts(c, "contacts", [&] { cs.loadFromFile(f); vs.loadFromFile(f); });
  if (n == 0) { c.require("undamaged_is_taken", a && b, text.substr(0, 200)); }
  // regions which were taken answer questions
  { Hush h; for (int i = 0; i < ter.numRegions(); ++i) { V3 p = rv(r, 2); const auto& t = ter.terrainRegion(i); volatile double x = (t.terrainDescriptionMatrix() * p - t.terrainDescriptionVector()).maxCoeff(); (void)x; h.s << ter.terrainRegion(i); } for (int e = 0; e < 4; ++e) for (auto& k : cs.endeffectorContacts(e)) h.s << k; }
  if (!a || !b) return; int N = st.get(PlannerIntParam_NumTimesteps); if (N > 20 || N < 0) { c.count("horizon_out_of_reach"); return; } if (r.chance(.6)) return;
  bool used = accepts(c, "plan", [&] { cp.initialize(st); cp.optimize(ini, ter); DynamicsSequence q; q.resize(N); KinematicsSequence kin; kin.resize(N, 2); DynamicsOptimizer opt; opt.initialize(st); opt.optimize(ini, &cp, kin, r.chance(.3)); if (l && lq.get(solverlqr::SolverLqrIntParam_LqrMaxIterations) < 20 && r.chance(.4)) { DynamicsFeedbackWrapper fb; fb.initialize(lq, st); fb.optimize(ini, opt.dynamicsSequence()); } });
  (void)used; c.count("planned");
}
int main(int argc, char** argv) { dir(); return vk::run(argc, argv, "x01_config", one); }
