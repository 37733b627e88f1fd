// Random multi-contact scenarios for the dynamics optimizer and an independent reading of the returned plan.
#pragma once
#include "mom.hpp"
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
namespace dyn {
using namespace mom; using namespace momentumopt;
// a walking/standing scenario around a humanoid of the size of the shipped configurations
inline Cfg scenario(vk::Rng& r, bool timeopt) {
  Cfg g; g.N = r.irange(3, timeopt ? 9 : 12); g.dt = r.pick(std::vector<double>{0.1, 0.05, 0.08, 0.1}); g.dtstr = dec(g.dt); g.horstr = dec(g.N * g.dt); g.heuristic = timeopt ? "TimeOptimization" : r.chance(0.5) ? "SoftConstraint" : "TrustRegion"; g.lincone = r.chance(0.5); g.mu = r.uni(0.4, 1.0); g.mass = r.chance(0.3) ? 60 : r.uni(20, 100); g.g = r.chance(0.7) ? 9.81 : r.uni(3, 12);
  g.nact = r.chance(0.65) ? 2 : r.chance(0.5) ? 4 : r.chance(0.5) ? 3 : 1; g.com = V3(r.uni(-0.03, 0.03), 0.15 + r.uni(-0.03, 0.03), -0.2 + r.uni(-0.05, 0.03)); g.lmom = g.mass * rv(r, 0.1) * (r.chance(0.5) ? 1 : 0); g.amom = rv(r, 0.5) * (r.chance(0.4) ? 1 : 0); g.disp = rv(r, 0.04); if (r.chance(0.2)) g.disp.setZero(); g.ext = !timeopt && r.chance(0.3) ? rv(r, 0.1) : V3::Zero(); g.minrel = r.chance(0.4) ? r.uni(0.6, 0.77) : r.uni(0.1, 0.6);
  g.trq = Eigen::Vector2d(-r.logu(.2, 200), r.logu(.2, 200)); for (int e = 0; e < 4; ++e) { g.cop[e] = Eigen::Vector4d(-r.uni(.01, .06), r.uni(.01, .06), -r.uni(.01, .09), r.uni(.01, .09)); if (r.chance(0.1)) g.cop[e].setZero(); } g.lens = r.chance(0.5) ? Eigen::Vector4d(r.uni(.74, .82), r.uni(.74, .82), r.uni(.5, .7), r.uni(.5, .7)) : Eigen::Vector4d(r.uni(.8, .9), r.uni(.8, .9), r.uni(.6, .8), r.uni(.6, .8));
  for (int e = 0; e < 4; ++e) { bool foot = e < 2; double sx = e % 2 ? -1 : 1; V3 p = foot ? V3(sx * 0.086, 0.15, -0.92) + rv(r, 0.03) : V3(sx * 0.4, 0.3, 0.1) + rv(r, 0.05); g.eef[e].p = p; g.eef[e].q = foot ? rq(r, 0.25) : Q(r.normal(), r.normal(), r.normal(), r.normal()).normalized(); g.eef[e].act = foot; g.eef[e].f = foot ? V3(0, 0, .5) : V3::Zero();
    // schedule: standing, stepping once, starting late, lifting early, or no contact
    int mode = foot ? r.irange(0, 3) : r.irange(0, 6); if (e == 0 && r.chance(0.5)) mode = 0; auto add = [&](int a, int b, const V3& q, const Q& o) { Cnt k; k.t0 = decv(a * g.dt); k.t1 = b > g.N ? 99 : decv(b * g.dt); k.j0 = a; k.j1 = b; k.p = q; k.q = o; k.type = foot ? (r.chance(0.9) ? 1 : 2) : r.irange(1, 2); k.terrain = -1; g.cnt[e].push_back(k); };
    if (mode == 0) add(0, g.N + 5, p, g.eef[e].q); else if (mode == 1 && g.N > 4) { int a = r.irange(1, g.N - 3), b = r.irange(a + 1, g.N - 1); add(0, a, p, g.eef[e].q); add(b, g.N + 5, p + rv(r, 0.05), rq(r, 0.25)); } else if (mode == 2) { int a = r.irange(1, std::max(1, g.N / 2)); add(a, g.N + 5, p, g.eef[e].q); g.eef[e].act = false; } else if (mode == 3) add(0, r.irange(std::max(1, g.N / 2), g.N), p, g.eef[e].q); }
  // keep at least one foot down at every step (plans in free fall are rare and mostly infeasible)
  if (r.chance(0.9)) for (int s = 1; s <= g.N; ++s) { bool ok = false; for (int e = 0; e < std::min(2, g.nact); ++e) for (auto& k : g.cnt[e]) ok |= s >= k.j0 && s < k.j1; if (!ok) { int e = g.nact > 1 ? r.irange(0, 1) : 0; g.cnt[e].clear(); Cnt k; k.t0 = 0; k.t1 = 99; k.j0 = 0; k.j1 = g.N + 5; k.p = g.eef[e].p; k.q = g.eef[e].q; k.type = 1; k.terrain = -1; g.cnt[e].push_back(k); g.eef[e].act = true; break; } }
  auto w3 = [&](double a) { return V3(a * r.logu(.1, 10), a * r.logu(.1, 10), a * r.logu(.1, 10)); }; if (r.chance(0.6)) { g.wcom = w3(1e3); g.wamom = w3(.3); g.wlmom = w3(.01); g.wamomd = w3(.1); g.wlmomd = w3(.01); g.wamomf = w3(10); g.wlmomf = w3(10); g.wfarm = w3(.01); g.wfleg = w3(.01); if (r.chance(0.4)) { g.wdarm = w3(.01); g.wdleg = w3(.01); } g.wtrqarm = r.logu(.01, 1); g.wtrqleg = r.logu(.01, 1); }
  if (timeopt) { g.trange = Eigen::Vector2d(g.dt * r.uni(0.2, 0.9), g.dt * r.uni(1.1, 2.5)); g.fixedh = r.chance(0.4); g.wtime = r.logu(10, 1e4); g.wtimepen = r.chance(0.3) ? r.logu(1, 100) : 0; g.minimp = r.pick(std::vector<double>{0, 1e-5, 1e-5, 1e-4}); g.maxtimeit = r.chance(0.1) ? r.irange(0, 5) : 60; g.maxres = r.pick(std::vector<double>{1e-3, 1e-2, 3e-3}); }
  if (r.chance(0.15)) { int n = r.irange(1, 2); for (int i = 0; i < n; ++i) { V v(4); v << r.uni(0, g.N - 1) * g.dt, g.com + rv(r, 0.03); g.vias.push_back(v); } g.wvia = w3(100); }
  return g;
}
inline int contact(const Cfg& g, int e, int s) { for (size_t i = 0; i < g.cnt[e].size(); ++i) if (s + 1 >= g.cnt[e][i].j0 && s + 1 < g.cnt[e][i].j1) return i; return -1; }
}
