// R01: strict priority and rank-by-rank optimality of the hierarchical solver.
#include "hqp.hpp"
using namespace hqp;
int main(int argc, char** argv) {
  return vk::run(argc, argv, "r01_hqp", [](vk::Case& c) {
    vk::Rng& r = c.rng; Pars p; double big = 1;
    if (r.chance(0.3)) { p.given = true; p.relax = r.pick(std::vector<double>{1e-6, 1e-5, 1e-7}); p.diag = r.pick(std::vector<double>{1e-8, 1e-7}); big = std::max(1.0, std::max(p.relax / 1e-6, p.diag / 1e-8)); }
    auto d = make(c.id % kDrivers, p); int n = r.chance(0.5) ? d->vars() : r.irange(1, d->vars());
    Hier h = gen(r, n, d->ineqs(), d->eqs(), r.chance(0.2) ? 12 : 5);
    int how = r.irange(0, kWays - 1); c.sig = h.sig + "/" + std::to_string(how); c.nontrivial = h.rows.size() > 1; c.sample = VKS(h.sig << " how=" << how << " relax=" << p.relax);
    Res q = solveAs(*d, h, how, vk::Rng(c.id, 5)); c.count("hierarchies");
    if (!c.require("size", q.x.size() == n, "solution size")) return;
    c.require("valid_flag", q.valid == q.ok || how == 0, "is_solution_valid_ disagrees with solve()");
    c.require("composers_notified", q.notified, "updateAfterSolutionFound calls");
    if (!q.ok) { c.count("not_solved"); return; }
    if (!c.require("finite", q.x.allFinite(), "solution not finite")) return;
    double sc = h.scale() * (1 + 0.1 * q.x.norm());
    // tasks lie within a few units of the origin: a solution far out is the vertex of nearly parallel constraints, which the solver's relaxation moves
    if (h.ranks > 5 && q.x.norm() > 60) { c.count("far_vertex"); return; }
    // optimality of every rank given what the earlier ranks reached
    for (int k = 0; k < h.ranks; ++k) if (h.count(k, true) + h.count(k, false)) {
      double res = kkt(h, k, q.x, 1e-4 * big);
      // the solver relaxes every constraint slightly; between nearly parallel constraints that moves the vertex visibly
      for (double act : {1e-3, 1e-2}) if (res > 5e-5 * sc * big) { res = std::min(res, kkt(h, k, q.x, act)); c.count("retried_wider_active_set"); }
      if (res > 5e-5 * sc * big) c.count("loose"); c.count("compared");
      double deep = h.ranks > 5 ? 30 : 1;  // relaxations of many ranks add up; 'loose' bounds how often
      c.check("rank_optimal", res / (deep * 1e-3 * sc * big), 1, VKS("rank " << k << " residual " << res << " x=" << q.x.transpose() << " sig " << h.sig << " how " << how));
    }
    // priority: lower ranks change nothing above
    if (h.ranks > 1) {
      int cut = r.irange(0, h.ranks - 2); auto e = make(c.id % kDrivers, p); Res t = solveAs(*e, h.upTo(cut), r.irange(0, kWays - 1), vk::Rng(c.id, 6)); c.count("hierarchies");
      if (t.ok && t.x.size() == n) for (int k = 0; k <= cut; ++k) {
        double a = std::sqrt(level(h, k, q.x)), b = std::sqrt(level(h, k, t.x));
        if (std::abs(a - b) > 2e-5 * sc * big) c.count("loose"); c.count("compared");
        c.check("priority_level", std::abs(a - b) / ((h.ranks > 5 ? 30 : 1) * 4e-4 * sc * big), 1, VKS("rank " << k << " level " << a << " with lower ranks, " << b << " without (cut " << cut << ") " << h.sig));
      } else c.count("not_solved");
    }
  });
}
