// R02: control cycles on a reused object equal a fresh object; every way of writing the tasks means the same.
#include "hqp.hpp"
using namespace hqp;
static double diff(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() ? (a - b).norm() / (1 + b.norm()) : 1e9; }
int main(int argc, char** argv) {
  return vk::run(argc, argv, "r02_cycles", [](vk::Case& c) {
    vk::Rng& r = c.rng; Pars p; auto d = make(c.id % kDrivers, p);
    int cycles = r.irange(2, c.tier == "thorough" ? 10 : 5); std::vector<Hier> past;
    for (int k = 0; k < cycles; ++k) {
      int n = r.chance(0.5) ? d->vars() : r.irange(1, d->vars()); Hier h;
      if (!past.empty() && r.chance(0.25)) { h = past[r.irange(0, (int)past.size() - 1)]; for (auto& t : h.rows) if (r.chance(0.3)) t.c += r.uni(-0.5, 0.5) * (t.a.norm() > 0); }
      else h = gen(r, n, d->ineqs(), d->eqs(), r.chance(0.1) ? 12 : 5);
      past.push_back(h); if (r.chance(0.1)) d->initialize();
      int how = r.irange(0, kWays); uint64_t s = r.next(); c.sig += h.sig + "/" + std::to_string(how) + " "; c.nontrivial = k > 0 && h.rows.size() > 1;
      auto f = make(c.id % kDrivers, p);
      Res q = how == kWays ? d->composers(h, vk::Rng(s), 2, true) : solveAs(*d, h, how, vk::Rng(s));
      Res w = how == kWays ? f->composers(h, vk::Rng(s), 2, true) : solveAs(*f, h, how, vk::Rng(s));
      c.require("same_status", q.ok == w.ok && q.solved == w.solved, VKS("cycle " << k << ": reused ok=" << q.ok << " ranks=" << q.solved << ", fresh ok=" << w.ok << " ranks=" << w.solved << " " << h.sig));
      c.check("same_as_fresh", diff(q.x, w.x), 1e-9, VKS("cycle " << k << " way " << how << " reused " << q.x.transpose() << " fresh " << w.x.transpose() << " " << h.sig));
      // the other ways of writing the same tasks
      int other = r.irange(0, kWays); auto g = make(c.id % kDrivers, p);
      Res v = other == kWays ? g->composers(h, vk::Rng(s + 1), 2, true) : solveAs(*g, h, other, vk::Rng(s + 1));
      if (q.ok && v.ok && q.x.size() == v.x.size()) {
        c.count("ways_compared"); double sc = h.scale() * (1 + 0.1 * q.x.norm());
        if (diff(q.x, v.x) > 1e-4) c.count("ways_loose");
        // the tasks are satisfied equally well (the point itself may be ill-determined)
        for (int j = 0; j < h.ranks; ++j) { double a = std::sqrt(level(h, j, q.x)), b = std::sqrt(level(h, j, v.x)); c.check("ways_agree", std::abs(a - b) / (5e-4 * sc), 1, VKS("rank " << j << " way " << how << ": " << a << " way " << other << ": " << b << " " << h.sig)); }
      } else c.require("same_size", q.x.size() == v.x.size(), "solution size");
    }
    c.sample = c.sig.substr(0, 80);
  });
}
