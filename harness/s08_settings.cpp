// Configuration files: random files in every legal shape are loaded; a model of the documented key -> parameter map is compared with every parameter after each step.
#include <set>
#include <fstream>
#include "vk.hpp"
#include <momentumopt/setting/PlannerSetting.hpp>
#include <solver_lqr/SolverLqrSetting.hpp>
#include <solver/interface/SolverSetting.hpp>
using namespace momentumopt;
#include "s08_tables.hpp"
using Eigen::VectorXd; using Eigen::VectorXi;
static std::string DIR;
static std::string num(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
template <class V> static std::string vec(const V& v) { std::string s = "["; for (int i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
template <class V> static std::string vecs(const V& v) { std::string s; for (const auto& x : v) s += vec(x) + ";"; return s; }
struct Val { char kind; bool b = false; int i = 0; double d = 0; VectorXd v; VectorXi iv;
  std::string str() const { return kind == 'b' ? (b ? "T" : "F") : kind == 'i' ? std::to_string(i) : kind == 'd' ? num(d) : kind == 'I' ? vec(iv) : vec(v); } };
static double rd(vk::Rng& r) { switch (r.irange(0, 5)) { case 0: return r.irange(-9, 9); case 1: return r.normal() * 10; case 2: return r.logu(1e-14, 1e9) * r.sgn(); case 3: return r.irange(0, 100) * 0.01; case 4: return 0; default: return r.uni(0, 1); } }
static Val rval(vk::Rng& r, char k) { Val v; v.kind = k; switch (k) { case 'b': v.b = r.chance(0.5); break; case 'i': v.i = r.irange(-5, 2000); break; case 'd': v.d = rd(r); break;
    case 'I': v.iv.resize(r.irange(0, 9)); for (int i = 0; i < v.iv.size(); i++) v.iv[i] = r.irange(0, 30); break;
    default: v.v.resize(k == 'X' ? r.irange(1, 9) : k - '0'); for (int i = 0; i < v.v.size(); i++) v.v[i] = rd(r); } return v; }
static std::string ynum(vk::Rng& r, double v) { char b[64]; if (v == std::floor(v) && std::abs(v) < 1e6 && r.chance(0.7)) { snprintf(b, 64, r.chance(0.5) ? "%.0f" : "%.1f", v); return b; } snprintf(b, 64, r.chance(0.5) ? "%.17g" : "%.17e", v); return b; }
template <class V> static std::string yvec(vk::Rng& r, const V& v, const std::string& ind) { std::string s; if (v.size() && r.chance(0.25)) { for (int i = 0; i < v.size(); i++) s += "\n" + ind + "  - " + ynum(r, v[i]); return s; } for (int i = 0; i < v.size(); i++) s += (i ? ", " : "") + ynum(r, v[i]); return "[" + s + "]"; }
static std::string yaml(vk::Rng& r, const Val& v) { switch (v.kind) { case 'b': return r.pick<std::string>(v.b ? std::vector<std::string>{"true", "True", "yes", "on"} : std::vector<std::string>{"false", "False", "no", "off"});
    case 'i': return std::to_string(v.i); case 'd': return ynum(r, v.d); case 'I': { std::string s; for (int i = 0; i < v.iv.size(); i++) s += (i ? ", " : "") + std::to_string(v.iv[i]); return "[" + s + "]"; } default: return yvec(r, v.v, "  "); } }
typedef std::vector<std::pair<std::string, std::string>> Lines; // key -> text
static std::string fileText(vk::Rng& r, const std::string& sec, Lines l, const Lines& decoy) {
  r.shuffle(l); std::string s = r.chance(0.3) ? "# configuration\n" : ""; auto put = [&](const std::string& name, const Lines& x) { s += name + ":\n"; for (auto& p : x) s += "  " + p.first + ": " + p.second + (r.chance(0.1) ? "   # note" : "") + "\n"; };
  bool first = r.chance(0.5); if (first) put("other_variables", decoy); put(sec, l); if (!first) put("other_variables", decoy); return s; }
static std::string writeFile(vk::Case& c, const std::string& text) { std::string f = DIR + "/" + c.rng.pick<std::string>({"cfg", "a", "some.cfg", "cfg_demo01"}) + std::to_string(c.id) + ".yaml"; std::ofstream(f) << text; return f; }
struct Hush { std::stringstream ss; std::streambuf* old; Hush() { old = std::cout.rdbuf(ss.rdbuf()); } ~Hush() { std::cout.rdbuf(old); } };
typedef std::map<std::string, std::string> Snap;
static std::string key(const Row& w) { return std::string(1, w.kind == 'b' || w.kind == 'i' || w.kind == 'd' || w.kind == 'I' ? w.kind : 'v') + std::to_string(w.param); }
// ---- uniform access to the three setting classes
template <class S> static std::string readc(const S& s, const Row& w, int fam);
template <class S> static void write(S& s, const Row& w, const Val& v, int fam);
template <> std::string readc<PlannerSetting>(const PlannerSetting& s, const Row& w, int) { Val v; v.kind = w.kind; switch (w.kind) { case 'b': v.b = s.get((PlannerBoolParam)w.param); break; case 'i': v.i = s.get((PlannerIntParam)w.param); break; case 'd': v.d = s.get((PlannerDoubleParam)w.param); break; case 'I': v.iv = s.get((PlannerIntVectorParam)w.param); break; default: v.v = s.get((PlannerVectorParam)w.param); } return v.str(); }
static std::string readm(PlannerSetting& s, const Row& w) { Val v; v.kind = w.kind; switch (w.kind) { case 'b': v.b = s.get((PlannerBoolParam)w.param); break; case 'i': v.i = s.get((PlannerIntParam)w.param); break; case 'd': v.d = s.get((PlannerDoubleParam)w.param); break; case 'I': v.iv = s.get((PlannerIntVectorParam)w.param); break; default: v.v = s.get((PlannerVectorParam)w.param); } return v.str(); }
template <> void write<PlannerSetting>(PlannerSetting& s, const Row& w, const Val& v, int) { switch (w.kind) { case 'b': s.get((PlannerBoolParam)w.param) = v.b; break; case 'i': s.get((PlannerIntParam)w.param) = v.i; break; case 'd': s.get((PlannerDoubleParam)w.param) = v.d; break; case 'I': s.get((PlannerIntVectorParam)w.param) = v.iv; break; default: s.get((PlannerVectorParam)w.param) = v.v; } }
template <> std::string readc<solver::SolverSetting>(const solver::SolverSetting& s, const Row& w, int) { Val v; v.kind = w.kind; switch (w.kind) { case 'b': v.b = s.get((solver::SolverBoolParam)w.param); break; case 'i': v.i = s.get((solver::SolverIntParam)w.param); break; default: v.d = s.get((solver::SolverDoubleParam)w.param); } return v.str(); }
static std::string readm(solver::SolverSetting& s, const Row& w) { return readc(s, w, 0); }
template <> void write<solver::SolverSetting>(solver::SolverSetting& s, const Row& w, const Val& v, int) { switch (w.kind) { case 'b': s.set((solver::SolverBoolParam)w.param, v.b); break; case 'i': s.set((solver::SolverIntParam)w.param, v.i); break; default: s.set((solver::SolverDoubleParam)w.param, v.d); } }
template <> std::string readc<solverlqr::SolverLqrSetting>(const solverlqr::SolverLqrSetting& s, const Row& w, int) { Val v; v.kind = w.kind; switch (w.kind) { case 'b': v.b = s.get((solverlqr::SolverLqrBoolParam)w.param); break; case 'i': v.i = s.get((solverlqr::SolverLqrIntParam)w.param); break; case 'd': v.d = s.get((solverlqr::SolverLqrDoubleParam)w.param); break; default: v.v = s.get((solverlqr::SolverLqrVectorParam)w.param); } return v.str(); }
static std::string readm(solverlqr::SolverLqrSetting& s, const Row& w) { Val v; v.kind = w.kind; switch (w.kind) { case 'b': v.b = s.get((solverlqr::SolverLqrBoolParam)w.param); break; case 'i': v.i = s.get((solverlqr::SolverLqrIntParam)w.param); break; case 'd': v.d = s.get((solverlqr::SolverLqrDoubleParam)w.param); break; default: v.v = s.get((solverlqr::SolverLqrVectorParam)w.param); } return v.str(); }
template <> void write<solverlqr::SolverLqrSetting>(solverlqr::SolverLqrSetting& s, const Row& w, const Val& v, int) { switch (w.kind) { case 'b': s.get((solverlqr::SolverLqrBoolParam)w.param) = v.b; break; case 'i': s.get((solverlqr::SolverLqrIntParam)w.param) = v.i; break; case 'd': s.get((solverlqr::SolverLqrDoubleParam)w.param) = v.d; break; default: s.get((solverlqr::SolverLqrVectorParam)w.param) = v.v; } }
static double step_pick(vk::Rng& r, Val& dt, Val& T, int& n) { static const double DT[] = {0.1, 0.05, 0.01, 0.02, 0.2, 0.125, 0.03, 0.001, 1}; dt.kind = T.kind = 'd'; dt.d = DT[r.irange(0, 8)]; n = r.irange(1, 120); double frac = r.chance(0.7) ? 0 : r.uni(0.05, 0.95); T.d = frac == 0 ? std::stod(std::to_string(n * dt.d)) : (n + frac) * dt.d; return 0; }
static std::vector<Row> rowsOf(int fam) { if (fam == 0) return std::vector<Row>(std::begin(PLANNER), std::end(PLANNER)); if (fam == 1) return std::vector<Row>(std::begin(SOLVER), std::end(SOLVER)); return std::vector<Row>(std::begin(LQR), std::end(LQR)); }
static const PlannerDoubleParam DERD[] = {PlannerDoubleParam_MassTimesGravity, PlannerDoubleParam_RobotWeight};
template <class S> struct Sess { vk::Case& c; int fam; S s; Snap model; std::set<std::string> unsized; std::vector<Row> rows; std::string hist;
  Sess(vk::Case& cc, int f) : c(cc), fam(f), rows(rowsOf(f)) {}
  void compare(const char* when) { for (auto& w : rows) { auto it = model.find(key(w)); if (it == model.end()) continue; std::string a = readc<S>(s, w, fam), b = readm(s, w); c.require(VKS("parameter_value:" << when), a == it->second, VKS(hist << " " << w.key << " reads " << a << " expected " << it->second)); c.require("mutable_access_agrees", b == a, VKS(w.key << " " << a << " vs " << b)); if (c.nviol > 3) return; } extra(when); }
  void extra(const char* when); };
template <class S> void Sess<S>::extra(const char*) {}
template <> void Sess<PlannerSetting>::extra(const char* when) {
  const PlannerSetting& k = s; auto eq = [&](const char* n, const std::string& got) { auto it = model.find(n); if (it != model.end()) c.require(VKS("derived_value:" << when), got == it->second, VKS(hist << " " << n << " is " << got << " expected " << it->second)); };
  eq("#steps", std::to_string(k.get(PlannerIntParam_NumTimesteps))); eq("#nact", std::to_string(k.get(PlannerIntParam_NumActiveDofs))); eq("#next", std::to_string(k.get(PlannerIntParam_NumExtendedActiveDofs)));
  eq("#mg", num(k.get(PlannerDoubleParam_MassTimesGravity))); eq("#mg", num(k.get(PlannerDoubleParam_RobotWeight))); eq("#g", vec(VectorXd(k.get(PlannerVectorParam_GravityVector)))); eq("#ext", vec(VectorXi(k.get(PlannerIntVectorParam_ExtendedActiveDofs))));
  eq("#heur", std::to_string((int)k.heuristic())); eq("#lincone", k.get(PlannerBoolParam_IsFrictionConeLinear) ? "T" : "F"); eq("#kinfile", k.get(PlannerStringParam_SaveKinematicsFile)); eq("#cfg", k.get(PlannerStringParam_ConfigFile)); eq("#default", k.get(PlannerStringParam_DefaultSolverSettingFile));
  eq("#cop", vecs(k.get(PlannerArrayParam_CenterOfPressureRange))); eq("#off", vecs(k.get(PlannerArrayParam_EndeffectorOffset)));
  eq("#via", vecs(k.get(PlannerCVectorParam_Viapoints))); eq("#jv", vecs(k.get(PlannerCVectorParam_JointViapoints))); eq("#bv", vecs(k.get(PlannerCVectorParam_BaseViapoints))); eq("#jv2", vecs(k.get(PlannerCVectorParam_JointViapoints_Second))); eq("#bv2", vecs(k.get(PlannerCVectorParam_BaseViapoints_Second))); }
template <> void Sess<solverlqr::SolverLqrSetting>::extra(const char* when) {
  const solverlqr::SolverLqrSetting& k = s; auto eq = [&](const char* n, const std::string& got) { auto it = model.find(n); if (it != model.end()) c.require(VKS("derived_value:" << when), got == it->second, VKS(hist << " " << n << " is " << got << " expected " << it->second)); };
  eq("#steps", std::to_string(k.get(solverlqr::SolverLqrIntParam_TimeDimension))); eq("#save", k.get(solverlqr::SolverLqrStringParam_SaveLqrFile)); eq("#cfg", k.get(solverlqr::SolverLqrStringParam_ConfigFile)); eq("#rk", k.get(solverlqr::SolverLqrBoolParam_UseRungeKuttaIntegration) ? "T" : "F");
  if (model.count("#alpha_n")) { const VectorXd& a = k.get(solverlqr::SolverLqrVectorParam_LineSearchCoeffs); int n = std::stoi(model["#alpha_n"]); double b = std::stod(model["#alpha_c"]); c.require("derived_value:steps_of_line_search", a.size() == n, VKS(a.size() << " vs " << n)); for (int i = 0; i < a.size(); i++) { double e = std::pow(b, -double(i) * i); c.check("line_search_coefficients", std::abs(a[i] - e), 1e-12 * e + 1e-300, VKS(i)); } }
  if (model.count("#user")) { const YAML::Node& u = k.get(solverlqr::SolverLqrYamlParam_UserParameters); c.require("user_parameters", u["gain"] && u["gain"].as<std::string>() == model["#user"], hist); } }
struct Load { Lines lines; Snap set; bool kin = false, to = false, second = false; };
template <class S> static Load make(vk::Rng& r, int fam, int force);
static Lines decoys(vk::Rng& r, const std::vector<Row>& rows) { Lines d; for (int k = r.irange(1, 6); k > 0; k--) { const Row& w = r.pick(rows); bool dup = false; for (auto& p : d) if (p.first == w.key) dup = true; if (!dup) d.push_back({w.key, yaml(r, rval(r, w.kind))}); } return d; }
template <> Load make<PlannerSetting>(vk::Rng& r, int fam, int force) {
  Load L; auto rows = rowsOf(0); L.kin = force >= 0 ? true : r.chance(0.6); L.second = force >= 0 ? force == 1 : r.chance(0.5); int heur = force >= 0 ? 2 : r.irange(0, 3); L.to = heur == 2;
  static const char* H[] = {"TrustRegion", "SoftConstraint", "TimeOptimization", "Something"}; L.lines.push_back({"heuristic", H[heur]}); L.set["#heur"] = std::to_string((int)(heur == 0 ? Heuristic::TrustRegion : heur == 2 ? Heuristic::TimeOptimization : Heuristic::SoftConstraint));
  bool lin = r.chance(0.5); L.lines.push_back({"friction_cone", lin ? "LinearCone" : "SocCone"}); L.set["#lincone"] = lin ? "T" : "F";
  Val dt, T; int n; step_pick(r, dt, T, n); int ndof = r.irange(1, 5), nv = r.irange(0, 4), nj = r.irange(0, 3), nb = r.irange(0, 3); double mass = 0, grav = 0;
  for (auto& w : rows) { std::string k = w.key; bool on = w.gate == '-' || (w.gate == 'k' && L.kin) || (w.gate == 't' && L.to) || (w.gate == '2' && L.kin && L.second) || (w.gate == '1' && L.kin && !L.second);
    if (!on && r.chance(0.6)) continue;                                // a key the configuration does not call for may still be there: it must not matter
    Val v = rval(r, w.kind); if (on || true) { if (k == "load_kinematics") v.b = L.kin; if (k == "use_second_order_inv_kin" && on) v.b = L.second; if (k == "time_step") v = dt; if (k == "time_horizon") v = T; if (k == "num_dofs") v.i = ndof; if (k == "num_com_viapoints") v.i = nv; if (k == "num_joint_viapoints" || k == "num_joint_viapoints_second") v.i = nj; if (k == "num_base_viapoints" || k == "num_base_viapoints_second") v.i = nb; }
    L.lines.push_back({k, yaml(r, v)}); if (!on) continue; L.set[key(w)] = v.str(); if (k == "gravity") grav = v.d; if (k == "robot_mass") mass = v.d;
    if (k == "active_dofs") { VectorXi e(6 + v.iv.size()); for (int i = 0; i < 6; i++) e[i] = i; for (int i = 0; i < v.iv.size(); i++) e[6 + i] = 6 + v.iv[i]; L.set["#ext"] = vec(e); L.set["#nact"] = std::to_string(v.iv.size()); L.set["#next"] = std::to_string(6 + v.iv.size()); } }
  L.set["#steps"] = std::to_string(n); L.set["#mg"] = num(mass * grav); L.set["#g"] = vec(Eigen::Vector3d(0., 0., -grav));
  static const char* E[] = {"rf", "lf", "rh", "lh"}; std::array<VectorXd, 4> cop, off; for (int e = 0; e < 4; e++) { cop[e].resize(4); off[e].resize(3); for (int i = 0; i < 4; i++) cop[e][i] = rd(r); for (int i = 0; i < 3; i++) off[e][i] = rd(r); L.lines.push_back({VKS("cop_range_" << E[e]), yvec(r, cop[e], "  ")}); L.lines.push_back({VKS("eff_offset_" << E[e]), yvec(r, off[e], "  ")}); } L.set["#cop"] = vecs(cop); L.set["#off"] = vecs(off);
  auto via = [&](const std::string& name, int k, int len, const char* m) { std::string t, s; for (int i = 0; i < k; i++) { VectorXd v(len); for (int j = 0; j < len; j++) v[j] = rd(r); t += "\n    via" + std::to_string(i) + ": " + yvec(r, v, "    "); s += vec(v) + ";"; } if (k == 0) t = " []"; L.lines.push_back({name, t}); L.set[m] = s; };
  via("com_viapoints", nv, 4, "#via"); if (L.kin && L.second) { via("joint_viapoints_second", nj, ndof + 1, "#jv2"); via("base_viapoints_second", nb, 4, "#bv2"); } else if (L.kin) { via("joint_viapoints", nj, ndof + 1, "#jv"); via("base_viapoints", nb, 4, "#bv"); }
  return L; }
template <> Load make<solver::SolverSetting>(vk::Rng& r, int, int) { Load L; for (auto& w : rowsOf(1)) { Val v = rval(r, w.kind); L.lines.push_back({w.key, yaml(r, v)}); L.set[key(w)] = v.str(); } return L; }
template <> Load make<solverlqr::SolverLqrSetting>(vk::Rng& r, int, int) { Load L; bool lim = r.chance(0.5); Val dt, T; int n; step_pick(r, dt, T, n);
  for (auto& w : rowsOf(2)) { std::string k = w.key; if (w.gate == 'l' && !lim && r.chance(0.5)) continue; Val v = rval(r, w.kind); if (k == "time_step") v = dt; if (k == "time_horizon") v = T; if (k == "has_control_limits") v.b = lim; L.lines.push_back({k, yaml(r, v)}); if (w.gate == '-' || lim) L.set[key(w)] = v.str(); }
  int m = r.irange(1, 12); double b = r.uni(1.01, 4); L.lines.push_back({"linesearch_coeff", num(b)}); L.lines.push_back({"linesearch_num_coeffs", std::to_string(m)}); L.set["#alpha_n"] = std::to_string(m); L.set["#alpha_c"] = num(b); L.set["#steps"] = std::to_string(n); L.set["#rk"] = "F"; std::string u = std::to_string(r.irange(0, 999)); L.lines.push_back({"user_parameters", "{gain: " + u + "}"}); L.set["#user"] = u; return L; }
template <class S> struct Nm; template <> struct Nm<PlannerSetting> { static const char* n() { return "planner"; } static const char* sec() { return "planner_variables"; } }; template <> struct Nm<solver::SolverSetting> { static const char* n() { return "solver"; } static const char* sec() { return "solver_variables"; } }; template <> struct Nm<solverlqr::SolverLqrSetting> { static const char* n() { return "lqr"; } static const char* sec() { return "solverlqr_variables"; } };
template <class S> static bool load(Sess<S>& x, const Load& L, bool expectError, const std::string& f, const std::string& sec, std::string* out) { std::string err; std::string printed; { Hush h; try { if (sec == Nm<S>::sec() && x.c.rng.chance(0.5)) x.s.initialize(f); else x.s.initialize(f, sec); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "exception"; } printed = h.ss.str(); } *out = err + printed; return !err.empty() || !printed.empty(); }
template <class S> static void session(vk::Case& c, int fam) {
  vk::Rng& r = c.rng; Sess<S> x(c, fam); x.hist = Nm<S>::n(); int steps = r.irange(1, 5); bool primed = r.chance(0.5); std::string ops; auto rows = rowsOf(fam);
  for (int k = 0; k < steps + (primed ? 2 : 0); k++) {
    int op = k == 0 || (primed && k < 2) ? 0 : r.irange(0, 3); std::string sec = r.chance(0.5) ? Nm<S>::sec() : r.pick<std::string>({"mine", "planner_vars", "v"});
    if (op == 0) { Load L = make<S>(r, fam, primed && k < 2 ? k : -1); std::string f = writeFile(c, fileText(r, sec, L.lines, decoys(r, rows))); std::string out; bool e = load(x, L, false, f, sec, &out); c.require("complete_file_accepted", !e, VKS(x.hist << ": " << out));
      for (auto& p : L.set) x.model[p.first] = p.second; if (fam == 0) { x.model["#cfg"] = f; x.model["#kinfile"] = f.substr(0, f.size() - 5) + "_kin_results.yaml"; x.model["#default"] = CFG_SRC_PATH + std::string("default_solver_setting.yaml"); } if (fam == 2) { x.model["#cfg"] = f; x.model["#save"] = f.substr(0, f.size() - 5) + "_lqr_results.yaml"; }
      x.hist += " load"; ops += "L"; x.compare("after_load"); c.count("obs:file_loaded"); unlink(f.c_str()); }
    else if (op == 1 || op == 2) { // set one parameter
      const Row& w = r.pick(rows); auto it = x.model.find(key(w)); if (it == x.model.end()) continue; Val v = rval(r, w.kind); int len = 0; for (char ch : it->second) len += ch == ','; if (w.kind == 'X') { v.v.resize(len + 1); for (int i = 0; i <= len; i++) v.v[i] = rd(r); } if (w.kind == 'I') { v.iv.resize(it->second == "[]" ? 0 : len + 1); for (int i = 0; i < v.iv.size(); i++) v.iv[i] = r.irange(0, 30); }
      std::string err; try { write<S>(x.s, w, v, fam); } catch (std::exception& e) { err = e.what(); } c.require("parameter_can_be_set", err.empty(), VKS(w.key << ": " << err)); if (!err.empty()) return; x.model[key(w)] = v.str(); x.hist += std::string(" set:") + w.key; ops += "S"; x.compare("after_set"); c.count("obs:parameter_set"); }
    else { // a file that lacks a key, or holds a value of the wrong type: must be reported, and no unrelated value may appear
      Load L = make<S>(r, fam, -1); std::vector<int> need; for (size_t i = 0; i < L.lines.size(); i++) for (auto& w : rows) if (L.lines[i].first == w.key && L.set.count(key(w)) && (w.gate == '-' || (w.gate == 'k' && L.kin) || (w.gate == 't' && L.to) || (w.gate == '2' && L.kin && L.second) || (w.gate == '1' && L.kin && !L.second) || (w.gate == 'l'))) need.push_back(i);
      int at = need[r.irange(0, need.size() - 1)]; std::string gone = L.lines[at].first; bool type = r.chance(0.3); if (type) L.lines[at].second = "{not: [a, value]}"; else L.lines.erase(L.lines.begin() + at);
      if (gone == "load_kinematics" || gone == "has_control_limits" || gone == "use_second_order_inv_kin") {} 
      std::string f = writeFile(c, fileText(r, sec, L.lines, {})); std::string out; bool e = load(x, L, true, f, sec, &out); c.require(type ? "wrong_type_reported" : "missing_key_reported", e, VKS(Nm<S>::n() << " without " << gone << " was accepted")); ops += "E"; c.count(VKS("obs:missing_key_reported")); unlink(f.c_str());
      for (auto& w : rows) { auto it = x.model.find(key(w)); auto in = L.set.find(key(w)); if (it == x.model.end()) continue; std::string a = readc<S>(x.s, w, fam); c.require("no_foreign_value", a == it->second || (in != L.set.end() && a == in->second), VKS(w.key << " reads " << a)); }
      break; } }
  c.sig = VKS(Nm<S>::n() << ":" << ops << (primed ? "p" : "")); c.nontrivial = true; c.sample = x.hist; c.count(VKS("family:" << Nm<S>::n())); }
static void broken(vk::Case& c) { // files that are no configuration at all
  vk::Rng& r = c.rng; int fam = r.irange(0, 2), kind = r.irange(0, 3); static const char* T[] = {"planner_variables: [1, 2\nsolver_variables: {a: 1\n", "", "just text\n", "other: {a: 1}\n"}; std::string f = writeFile(c, T[kind]); if (r.chance(0.2)) { unlink(f.c_str()); kind = 4; } std::string out; bool e = false;
  if (fam == 0) { Sess<PlannerSetting> x(c, 0); e = load(x, {}, true, f, Nm<PlannerSetting>::sec(), &out); } else if (fam == 1) { Sess<solver::SolverSetting> x(c, 1); e = load(x, {}, true, f, Nm<solver::SolverSetting>::sec(), &out); } else { Sess<solverlqr::SolverLqrSetting> x(c, 2); e = load(x, {}, true, f, Nm<solverlqr::SolverLqrSetting>::sec(), &out); }
  c.require("unusable_file_reported", e, VKS("family " << fam << " kind " << kind)); c.count("obs:unusable_file_reported"); unlink(f.c_str()); c.sig = VKS("broken" << fam << kind); c.nontrivial = true; }
static void one(vk::Case& c) { double p = c.rng.u01(); if (p < 0.08) broken(c); else if (p < 0.6) session<PlannerSetting>(c, 0); else if (p < 0.8) session<solver::SolverSetting>(c, 1); else session<solverlqr::SolverLqrSetting>(c, 2); }
int main(int argc, char** argv) { char t[] = "/tmp/vk-s08-XXXXXX"; DIR = mkdtemp(t); int rc = vk::run(argc, argv, "s08_settings", one); rmdir(DIR.c_str()); return rc; }
