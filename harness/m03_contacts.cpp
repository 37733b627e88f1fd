// M03: contact plans applied to motions against an independent reading of the plan; plans are reapplied to the same motion.
#include "common/mom.hpp"
using namespace momentumopt; using namespace mom;
static const double DTS[] = {0.1, 0.05, 0.03, 0.06, 0.07, 0.12, 0.15, 0.2, 0.01, 0.25, 0.02};
// a time on the step grid (written as a decimal) or well away from it
static void boundary(vk::Rng& r, int N, double dt, double& t, int& j) { if (r.chance(0.65)) { j = r.irange(-1, N + 2); t = decv(j * dt); } else { j = -1000; t = dt * (r.irange(-1, N + 2) + r.uni(0.05, 0.95)); } }
static void plan(vk::Rng& r, Cfg& c) {
  for (int e = 0; e < 4; ++e) { c.cnt[e].clear(); int n = r.chance(0.2) ? 0 : r.irange(1, 5); bool ov = r.chance(0.1); double t = 0; int j = 0; if (!ov && r.chance(0.4)) boundary(r, c.N / 2, c.dt, t, j);
    for (int i = 0; i < n; ++i) { Cnt k; k.p = rv(r, 2); k.q = rq(r, 3); k.type = r.irange(0, 2); k.terrain = r.irange(-1, 3);
      if (ov) { boundary(r, c.N, c.dt, k.t0, k.j0); boundary(r, c.N, c.dt, k.t1, k.j1); }
      else { k.t0 = t; k.j0 = j; for (int a = 0; a < 20; ++a) { boundary(r, c.N, c.dt, k.t1, k.j1); if (k.t1 > k.t0) break; } t = k.t1; j = k.j1; if (r.chance(0.7)) for (int a = 0; a < 20; ++a) { double tt; int jj; boundary(r, c.N, c.dt, tt, jj); if (tt > t) { t = tt; j = jj; break; } } }
      c.cnt[e].push_back(k); }
    if (r.chance(0.1)) r.shuffle(c.cnt[e]); }
}
static bool covers(const Cnt& k, int step, double dt) { int s = step + 1; bool a = k.j0 != -1000 ? s >= k.j0 : s * dt >= k.t0, b = k.j1 != -1000 ? s < k.j1 : s * dt < k.t1; return a && b; }
static void verify(vk::Case& c, const std::string& w, const Cfg& g, ContactPlanInterface& cp, const std::array<std::vector<char>, 4>& sel, const DynamicsSequence& seq) {
  c.require("one_state_per_step", seq.size() == g.N, VKS(w << " " << seq.size() << " of " << g.N));
  for (int e = 0; e < 4; ++e) { std::vector<int> ids; int nact = 0;
    for (int s = 0; s < g.N; ++s) { const DynamicsState& d = seq.dynamicsState(s); std::vector<int> cov; for (size_t i = 0; i < g.cnt[e].size(); ++i) if (sel[e][i] && covers(g.cnt[e][i], s, g.dt)) cov.push_back(i); std::string ww = VKS(w << " effector " << e << " step " << s << " dt " << g.dt);
      if (!c.require("active_iff_covered", d.endeffectorActivation(e) == !cov.empty(), VKS(ww << " active " << d.endeffectorActivation(e) << " covering contacts " << cov.size()))) return;
      c.count(cov.empty() ? "inactive_steps" : "active_steps"); if (cov.empty()) continue; ++nact; int id = d.endeffectorContactId(e);
      if (!c.require("contact_id_covers", std::find(cov.begin(), cov.end(), id) != cov.end(), VKS(ww << " contact " << id))) return; const Cnt& k = g.cnt[e][id];
      c.check("position_of_contact", (d.endeffectorPosition(e) - k.p).norm(), 1e-12, ww); c.check("orientation_of_contact", (d.endeffectorOrientation(e).coeffs() - k.q.coeffs()).norm(), 1e-12, ww); c.check("type_of_contact", std::abs(int(cp.contactSequence().endeffectorContacts(e)[id].contactType()) - k.type), 0, ww); ids.push_back(d.endeffectorActivationId(e)); if (c.nviol) return; }
    int tot = seq.activeEndeffectorSteps()[e]; std::string ww = VKS(w << " effector " << e << " active steps " << nact << " counted " << tot); c.require("activations_counted", tot >= nact && (nact > 0 || tot == 0), ww); std::sort(ids.begin(), ids.end()); c.require("activation_ids_distinct", std::adjacent_find(ids.begin(), ids.end()) == ids.end() && (ids.empty() || (ids.front() >= 0 && ids.back() < tot)), ww); if (c.nviol) return; }
}
static void loaded(vk::Case& c, const std::string& w, const Cfg& g, ContactPlanInterface& cp) {
  std::vector<int> opt; int tot = 0;
  for (int e = 0; e < 4; ++e) { if (!c.require("all_contacts_loaded", cp.contactSequence().numEndeffectorContacts(e) == (int)g.cnt[e].size() && cp.contactSequence().endeffectorContacts(e).size() == g.cnt[e].size(), VKS(w << " effector " << e << " " << cp.contactSequence().numEndeffectorContacts(e) << " of " << g.cnt[e].size()))) return;
    for (size_t i = 0; i < g.cnt[e].size(); ++i) { const ContactState& s = cp.contactSequence().endeffectorContacts(e)[i]; const Cnt& k = g.cnt[e][i]; std::string ww = VKS(w << " effector " << e << " contact " << i); ++tot; opt.push_back(s.optimizationId());
      c.require("contact_fields", s.contactActivationTime() == k.t0 && s.contactDeactivationTime() == k.t1 && (s.contactPosition() - k.p).norm() == 0 && (s.contactOrientation().coeffs() - k.q.coeffs()).norm() == 0 && int(s.contactType()) == k.type && s.terrainId() == k.terrain && s.selectedAsActive(), VKS(ww << " " << s));
      Eigen::Matrix4d T = s.contactPlacement(); c.check("placement", (T.block<3, 3>(0, 0) - k.q.toRotationMatrix()).norm() + (T.block<3, 1>(0, 3) - k.p).norm() + (T.row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm(), 1e-12, ww); ContactState z; z.contactPlacement(T); double e1 = std::min((z.contactOrientation().coeffs() - k.q.coeffs()).norm(), (z.contactOrientation().coeffs() + k.q.coeffs()).norm()); c.check("placement_round_trip", e1 + (z.contactPosition() - k.p).norm(), 1e-9, ww); if (c.nviol) return; } }
  std::sort(opt.begin(), opt.end()); bool ok = cp.contactSequence().numOptimizationContacts() == tot; for (int i = 0; i < tot; ++i) ok = ok && opt[i] == i; c.require("contacts_numbered", ok, w);
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; Cfg g; g.dt = DTS[r.irange(0, 10)]; g.N = r.irange(1, 24); g.kin = false; g.dtstr = dec(g.dt); g.horstr = dec(g.N * g.dt); static const char* H[] = {"TrustRegion", "SoftConstraint", "TimeOptimization"}; g.heuristic = H[r.irange(0, 2)]; plan(r, g); DynamicsState ini;
  PlannerSetting st; { Hush h; st.initialize(dir().put("m.yaml", g.text())); if (!c.require("setting_loads", h.str().empty(), h.str())) return; } if (!c.require("number_of_steps", st.get(PlannerIntParam_NumTimesteps) == g.N, VKS(g.dtstr << " " << g.horstr << " " << st.get(PlannerIntParam_NumTimesteps)))) return;
  DynamicsSequence seq; seq.resize(g.N); int rounds = r.irange(1, 4); bool samep = r.chance(0.5); auto cp = std::make_unique<ContactPlanFromFile>(); TerrainDescription ter; c.sig = VKS(g.N << "|" << g.dt << "|");
  for (int k = 0; k < rounds; ++k) { std::string w = VKS("application " << k); if (k) { plan(r, g); if (!samep) cp = std::make_unique<ContactPlanFromFile>(); } std::array<std::vector<char>, 4> sel; int mode = r.irange(0, 3);
    { Hush h; if (k) st.initialize(dir().put("m.yaml", g.text())); cp->initialize(st); cp->optimize(ini, ter); if (!c.require("plan_loads", h.str().empty(), VKS(w << h.str()))) return; } loaded(c, w, g, *cp); if (c.nviol) return;
    for (int e = 0; e < 4; ++e) { sel[e].assign(g.cnt[e].size(), 1); c.sig += VKS(g.cnt[e].size());
      if (mode == 1) for (size_t i = 0; i < sel[e].size(); ++i) if (r.chance(0.3)) { sel[e][i] = 0; cp->contactSequence().endeffectorContacts(e)[i].selectedAsActive() = false; c.count("deselected"); }
      if (mode == 2) { plan(r, g); } }
    if (mode == 2) { for (int e = 0; e < 4; ++e) { std::vector<ContactState> v; for (auto& q : g.cnt[e]) { ContactState s; s.contactActivationTime(q.t0); s.contactDeactivationTime(q.t1); if (r.chance(0.5)) { s.contactPosition(q.p); s.contactOrientation(q.q); } else { Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.block<3, 3>(0, 0) = q.q.toRotationMatrix(); T.block<3, 1>(0, 3) = q.p; s.contactPlacement(T); if ((s.contactOrientation().coeffs() + q.q.coeffs()).norm() < 1) q.q.coeffs() *= -1; } s.contactType(idToContactType(q.type)); s.selectedAsActive(true); v.push_back(s); } cp->contactSequence().endeffectorContacts(e, v); sel[e].assign(v.size(), 1); } c.count("plans_set_directly"); }
    cp->fillDynamicsSequence(ini, seq); verify(c, w, g, *cp, sel, seq); if (c.nviol) return; if (k) c.count("reapplied"); if (r.chance(0.3)) { cp->fillDynamicsSequence(ini, seq); verify(c, w + " twice", g, *cp, sel, seq); if (c.nviol) return; } }
  c.nontrivial = true; c.count("plans", rounds);
}
int main(int argc, char** argv) { dir(); return vk::run(argc, argv, "m03_contacts", one); }
