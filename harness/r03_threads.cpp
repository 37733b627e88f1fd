// R03: the hierarchical solver and its background thread under perturbed schedules, watched by ThreadSanitizer.
// The wrapped synchronisation calls inject delays and (allowed by POSIX) spurious wake-ups.
#include "hqp.hpp"
#include <atomic>
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <thread>
using namespace hqp;

struct Sched { int delay = 0; double spurious = 0; };      // delay: 0 none, 1 yields, 2 short sleeps, 3 long sleeps
static std::atomic<int> g_delay{0}, g_spur{0};
static std::atomic<long> g_wait{0}, g_wake{0}, g_lock{0}, g_bcast{0}, g_seed{1};
static thread_local vk::Rng* t_rng = nullptr;
static vk::Rng& rng() { if (!t_rng) t_rng = new vk::Rng(g_seed.fetch_add(1) * 7919ull, 17); return *t_rng; }
static void nap() {
  switch (g_delay.load(std::memory_order_relaxed)) {
    case 0: return;
    case 1: if (rng().chance(0.5)) sched_yield(); return;
    case 2: if (rng().chance(0.3)) usleep(rng().irange(0, 60)); return;
    default: if (rng().chance(0.3)) usleep(rng().irange(0, 600)); return;
  }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_broadcast(pthread_cond_t*); int __real_pthread_cond_signal(pthread_cond_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { nap(); int r = __real_pthread_mutex_lock(m); g_lock.fetch_add(1, std::memory_order_relaxed); nap(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { nap(); int r = __real_pthread_mutex_unlock(m); nap(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  g_wait.fetch_add(1, std::memory_order_relaxed);
  if (g_spur.load(std::memory_order_relaxed) && rng().chance(0.3)) { g_wake.fetch_add(1, std::memory_order_relaxed); __real_pthread_mutex_unlock(m); if (rng().chance(0.5)) usleep(rng().irange(0, 40)); __real_pthread_mutex_lock(m); return 0; }
  return __real_pthread_cond_wait(c, m);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { nap(); g_bcast.fetch_add(1, std::memory_order_relaxed); int r = __real_pthread_cond_broadcast(c); nap(); return r; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { nap(); g_bcast.fetch_add(1, std::memory_order_relaxed); int r = __real_pthread_cond_signal(c); nap(); return r; }
}
static int threads() { int n = 0; if (DIR* d = opendir("/proc/self/task")) { while (dirent* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); } return n; }

int main(int argc, char** argv) {
  return vk::run(argc, argv, "r03_threads", [](vk::Case& c) {
    vk::Rng& r = c.rng; Pars p; g_seed = c.id * 1000 + 1; long w0 = g_wait, s0 = g_wake, b0 = g_bcast, l0 = g_lock;
    g_delay = 0; g_spur = 0;
    int nsolv = r.irange(1, c.tier == "thorough" ? 6 : 4); std::vector<Hier> hs; std::vector<Res> ref; std::vector<int> ways;
    for (int i = 0; i < nsolv; ++i) { hs.push_back(gen(r, 4, 16, 6, 5)); ways.push_back(r.irange(0, kWays - 1)); auto d = make(0, p); ref.push_back(solveAs(*d, hs[i], ways[i], vk::Rng(i))); }
    { std::vector<std::thread> warm; warm.emplace_back([] {}); warm[0].join(); }
    int base = threads();
    g_delay = r.irange(0, 3); g_spur = r.chance(0.5); int kind = r.irange(0, 3);
    c.sig = VKS("k" << kind << " n" << nsolv << " d" << g_delay.load() << " s" << g_spur.load() << " " << hs[0].sig); c.nontrivial = true; c.sample = c.sig;
    std::atomic<int> bad{0}; std::atomic<long> solves{0};
    auto same = [&](int i, const Res& q) { ++solves; if (q.ok != ref[i].ok || q.x.size() != ref[i].x.size() || (q.x - ref[i].x).norm() > 1e-12 * (1 + q.x.norm())) ++bad; };
    if (kind == 0) {            // one solver, many cycles
      auto d = make(0, p); for (int k = 0; k < 6; ++k) { int i = r.irange(0, nsolv - 1); if (r.chance(0.3)) d->initialize(); same(i, solveAs(*d, hs[i], ways[i], vk::Rng(i))); }
    } else if (kind == 1) {     // create, use a little or not at all, destroy
      for (int k = 0; k < 6; ++k) { auto d = make(0, p); int i = r.irange(0, nsolv - 1); int m = r.irange(0, 3);
        if (m == 0) { Hier e; e.n = 4; e.ranks = 0; d->direct(e); } else if (m == 1) { Hier e; e.n = 4; e.ranks = 0; d->direct(e); for (int q = r.irange(1, 3); q > 0; --q) d->initialize(); }
        else same(i, solveAs(*d, hs[i], ways[i], vk::Rng(i))); if (m == 3) d->initialize(); }
    } else if (kind == 2) {     // concurrent independent solvers
      std::vector<std::thread> ts; for (int i = 0; i < nsolv; ++i) ts.emplace_back([&, i] { for (int k = 0; k < 3; ++k) { auto d = make(0, p); same(i, solveAs(*d, hs[i], ways[i], vk::Rng(i))); if (k == 1) { d->initialize(); same(i, solveAs(*d, hs[i], ways[i], vk::Rng(i))); } } delete t_rng; t_rng = nullptr; });
      for (auto& t : ts) t.join();
    } else {                    // interleaved use of several live solvers
      std::vector<std::unique_ptr<Driver>> ds; for (int i = 0; i < nsolv; ++i) ds.push_back(make(0, p));
      for (int k = 0; k < 8; ++k) { int i = r.irange(0, nsolv - 1), j = r.irange(0, nsolv - 1); same(j, solveAs(*ds[i], hs[j], ways[j], vk::Rng(j))); if (r.chance(0.2)) ds[i] = make(0, p); }
    }
    g_delay = 0; g_spur = 0;
    c.require("schedule_independent", bad == 0, VKS(bad.load() << " of " << solves.load() << " solutions differ from the undisturbed run, " << c.sig));
    int now = 0; for (int k = 0; k < 400; ++k) { now = threads(); if (now <= base) break; usleep(5000); }
    c.require("no_thread_left", now <= base, VKS(now - base << " threads left, " << c.sig));
    c.count("solves", solves); c.count("waits", g_wait - w0); c.count("spurious_wakeups", g_wake - s0); c.count("broadcasts", g_bcast - b0); c.count("locks", g_lock - l0);
  });
}
