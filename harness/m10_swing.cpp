// M10: swing phases of a dynamics plan connect its contacts: per-phase reference recomputed from the contact file.
#include "common/mom.hpp"
using namespace momentumopt; using namespace mom;
typedef long double ld; typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> ML; typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> VL;
// polynomial in s in [0,1]: value at 0, 0.5, 1, zero first and second derivative at both ends
static VL quint(double a, double via, double b) { ML A = ML::Zero(7, 7); VL y(7); y << a, via, b, 0, 0, 0, 0; for (int j = 0; j < 7; ++j) { A(0, j) = j == 0; A(1, j) = std::pow(0.5L, (ld)j); A(2, j) = 1; A(3, j) = j == 1; A(4, j) = j; A(5, j) = j == 2 ? 2 : 0; A(6, j) = j * (j - 1); } return A.fullPivLu().solve(y); }
static ld ev(const VL& c, ld s, int d) { ld v = 0; for (int i = d; i < 7; ++i) { ld f = 1; for (int k = 0; k < d; ++k) f *= i - k; v += c[i] * f * std::pow(s, (ld)(i - d)); } return v; }
static double qdist(const Q& a, const Q& b) { return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()); }
static void plan(vk::Rng& r, Cfg& g) {
  for (int e = 0; e < 4; ++e) { g.cnt[e].clear(); g.via[e].clear(); g.eef[e].act = r.chance(0.6); g.eef[e].p = rv(r, 1); g.eef[e].q = rq(r, 2); if (r.chance(0.15)) continue; int j = r.chance(0.5) ? 0 : r.irange(0, g.N); int n = r.irange(1, 4);
    for (int i = 0; i < n; ++i) { Cnt k; k.p = rv(r, 1); k.q = rq(r, 2); k.type = 1; k.terrain = -1; k.j0 = j; k.j1 = j + r.irange(1, std::max(1, g.N / 2)); j = k.j1 + (r.chance(0.15) ? 0 : r.irange(1, std::max(1, g.N / 2))); k.t0 = decv(k.j0 * g.dt); k.t1 = decv(k.j1 * g.dt); g.cnt[e].push_back(k); }
    for (int i = -1; i < n; ++i) if (r.chance(0.6)) g.via[e].push_back(Via{i, rv(r, 1), Q::Identity()}); r.shuffle(g.via[e]); }
  g.disp = rv(r, 1);
}
static void verify(vk::Case& c, const std::string& w, const Cfg& g, const DynamicsSequence& seq) {
  for (int e = 0; e < 4; ++e) { if (g.cnt[e].empty()) { c.count("effector_without_contacts"); continue; } std::vector<int> id(g.N, -1); for (int s = 0; s < g.N; ++s) for (size_t i = 0; i < g.cnt[e].size(); ++i) if (s + 1 >= g.cnt[e][i].j0 && s + 1 < g.cnt[e][i].j1) id[s] = i;
    for (int s = 0; s < g.N; ++s) { const DynamicsState& d = seq.dynamicsState(s); std::string ws = VKS(w << " effector " << e << " step " << s);
      if (id[s] >= 0) { const Cnt& k = g.cnt[e][id[s]]; c.check("stance_at_contact", (d.endeffectorPosition(e) - k.p).norm(), 1e-12, ws); c.check("stance_at_rest", d.endeffectorVelocity(e).norm() + d.endeffectorAcceleration(e).norm(), 0, ws); c.check("stance_orientation", qdist(d.endeffectorOrientation(e), k.q), 1e-12, ws); if (c.nviol) return; continue; }
      int a = s, b = s; while (b + 1 < g.N && id[b + 1] < 0) ++b; int from = a > 0 ? id[a - 1] : -1; V3 S = from >= 0 ? g.cnt[e][from].p : g.eef[e].p, E = b + 1 < g.N ? g.cnt[e][id[b + 1]].p : V3(g.eef[e].p + g.disp); Q qs = from >= 0 ? g.cnt[e][from].q : g.eef[e].q, qe = b + 1 < g.N ? g.cnt[e][id[b + 1]].q : g.eef[e].q; bool has = false; V3 via = 0.5 * (S + E); for (auto& v : g.via[e]) if (v.id == from) { via = v.p; has = true; break; }
      std::string wf = VKS(w << " effector " << e << " flight of steps " << a << ".." << b << " of " << g.N << (from < 0 ? " first" : "") << (b + 1 == g.N ? " last" : "") << (has ? " via" : "")); c.count("flights"); if (b + 1 == g.N) c.count("flights_to_the_horizon"); if (a == 0) c.count("flights_from_the_start"); if (a == b) c.count("single_step_flights");
      double t = 0, T = 0; for (int k = a + 1; k <= b; ++k) T += seq.dynamicsState(k).time(); double sc = S.norm() + E.norm() + via.norm() + 1e-3;
      for (int k = a; k <= b; ++k) { const DynamicsState& z = seq.dynamicsState(k); if (k > a) t += z.time(); std::string ww = VKS(wf << " at step " << k); V3 p = z.endeffectorPosition(e), v = z.endeffectorVelocity(e), ac = z.endeffectorAcceleration(e); Q q = z.endeffectorOrientation(e);
        if (!c.require("flight_finite", p.allFinite() && v.allFinite() && ac.allFinite() && q.coeffs().allFinite(), ww)) return; c.check("flight_orientation_unit", std::abs(q.norm() - 1), 1e-9, ww);
        if (k == a && b > a) { c.check("flight_starts_at_last_contact", (p - S).norm(), 1e-7 * sc, ww); c.check("flight_starts_at_rest", v.norm() * T, 1e-6 * sc, ww); c.check("flight_start_orientation", qdist(q, qs), 1e-7, ww); }
        if (k == b) { c.check("flight_ends_at_next_contact", (p - E).norm(), 1e-7 * sc, ww); c.check("flight_ends_at_rest", v.norm() * T, 1e-6 * sc, ww); c.check("flight_end_orientation", qdist(q, qe), 1e-7, ww); }
        if (b > a && has) { ld x = t / T; for (int d = 0; d < 3; ++d) { VL h = quint(S[d], via[d], E[d]); c.check("flight_position", std::abs(p[d] - (double)ev(h, x, 0)), 1e-6 * sc, ww); c.check("flight_velocity", std::abs(v[d] * T - (double)ev(h, x, 1)), 1e-5 * sc, ww); c.check("flight_acceleration", std::abs(ac[d] * T * T - (double)ev(h, x, 2)), 1e-4 * sc, ww); } }
        if (b > a && !has) c.check("flight_bounded", (p - 0.5 * (S + E)).norm(), 2 * sc, ww); if (c.nviol) return; }
      s = b; } }
}
static void one(vk::Case& c) {
  vk::Rng& r = c.rng; Cfg g; g.kin = true; g.N = r.irange(1, 20); g.dt = r.pick(std::vector<double>{0.1, 0.05, 0.03, 0.2}); g.dtstr = dec(g.dt); g.horstr = dec(g.N * g.dt); DynamicsSequence seq; c.sig = VKS(g.N << "|"); int rounds = r.irange(1, 3); auto cp = std::make_unique<ContactPlanFromFile>(); bool samep = r.chance(0.5);
  for (int k = 0; k < rounds; ++k) { plan(r, g); std::string w = VKS("application " << k); PlannerSetting st; DynamicsState ini; TerrainDescription ter; std::string f = dir().put("m.yaml", g.text()); Hush h; if (k && !samep) cp = std::make_unique<ContactPlanFromFile>(); st.initialize(f); ini.fillInitialRobotState(f); cp->initialize(st); cp->optimize(ini, ter); if (!c.require("plan_loads", h.str().empty(), h.str())) return;
    for (int e = 0; e < 4; ++e) { c.sig += VKS(g.cnt[e].size() << g.via[e].size()); c.require("initial_state_read", ini.endeffectorActivation(e) == g.eef[e].act && (ini.endeffectorPosition(e) - g.eef[e].p).norm() == 0 && (ini.endeffectorOrientation(e).coeffs() - g.eef[e].q.coeffs()).norm() == 0, w); c.require("viapoints_read", cp->viapointSequence().numEndeffectorViapoints(e) == (int)g.via[e].size(), w); } if (c.nviol) return;
    if (!k) seq.resize(g.N); bool var = r.chance(0.5); for (int s = 0; s < g.N; ++s) seq.dynamicsState(s).time() = var ? g.dt * r.uni(0.3, 2) : g.dt; cp->fillDynamicsSequence(ini, seq); cp->updateEndeffectorTrajectories(ini, seq); verify(c, w, g, seq); if (c.nviol) return; if (var) c.count("uneven_durations"); if (k) c.count("reapplied"); }
  c.nontrivial = true;
}
int main(int argc, char** argv) { dir(); return vk::run(argc, argv, "m10_swing", one); }
