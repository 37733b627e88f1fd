// Metamorphic monitor: the same program through different histories and presentations.
#include "conic.hpp"
using namespace cp;
struct Res { ExitCode e; VectorXd x; double f; };
struct Live { std::unique_ptr<Model> m; std::vector<Var> v; Prog p; };
static bool good(ExitCode e) { return e == ExitCode::Optimal || e == ExitCode::OptimalInacc; }
static int cls(ExitCode e) { return good(e) ? 0 : (e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc) ? 1 : (e == ExitCode::DualInf || e == ExitCode::DualInfInacc) ? 2 : 3; }
static Live make(const Prog& p, uint64_t style, bool fancy, Model* reuse = nullptr) {
  Live L; L.p = p; L.m.reset(reuse ? reuse : new Model()); if (!reuse) config(*L.m); vk::Rng r(style); L.v = addVars(*L.m, p); for (auto& c : p.cons) addCon(*L.m, c, L.v, r, fancy); setObj(*L.m, p.obj, L.v, r, fancy); return L; }
static Res solve(Live& L) { Res R; R.e = L.m->optimize(); R.x = values(L.v); R.f = L.p.obj(R.x); return R; }
static Aff perm(const Aff& a, const std::vector<int>& q) { Aff b = a; if (a.a.size()) for (size_t i = 0; i < q.size(); i++) b.a[q[i]] = a.a[i]; return b; }
static Prog permVars(const Prog& p, const std::vector<int>& q) { Prog o = p; auto Q = [&](Quad& z) { for (auto& t : z.t) t = perm(t, q); z.l = perm(z.l, q); }; Q(o.obj); for (auto& c : o.cons) { c.lin = perm(c.lin, q); Q(c.q); for (auto& t : c.s.t) t = perm(t, q); c.s.l = perm(c.s.l, q); } return o; }
static void scale(Con& c, double k) { auto S = [&](Aff& a) { a.a *= k; a.b *= k; }; if (c.k == EQ || c.k == LE) S(c.lin); else if (c.k == QUA) { for (auto& w : c.q.c) w *= k; S(c.q.l); } else { for (auto& t : c.s.t) S(t); S(c.s.l); } }
// mixed-binary programs and programs without an objective, through the same histories
static void other(vk::Case& c) {
  vk::Rng& r = c.rng; Prog p; int nb = r.chance(0.3) ? 0 : r.irange(1, 4), n = p.n = nb + r.irange(nb ? 0 : 1, 2); for (int i = 0; i < nb; i++) p.bin.push_back(i); bool noobj = r.chance(nb ? 0.1 : 0.7); p.obj.l = zeroAff(n);
  VectorXd x0(n); for (int i = 0; i < n; i++) x0[i] = i < nb ? r.irange(0, 1) : r.uni(-1, 1);
  for (int i = nb; i < n; i++) for (int s = -1; s <= 1; s += 2) { Con k; k.k = LE; k.lin = zeroAff(n); k.lin.a[i] = s; k.lin.b = -r.uni(1, 3); p.cons.push_back(k); }
  int m = r.irange(1, 3); for (int i = 0; i < m; i++) { Con k; k.k = LE; k.lin.a = rvec(r, n); k.lin.b = -k.lin.a.dot(x0) - r.uni(0.05, 0.8); p.cons.push_back(k); }
  if (!noobj) { p.obj.l.a = rvec(r, n); if (r.chance(0.4)) { Aff f; f.a = rvec(r, n); f.b = r.normal(); p.obj.t.push_back(f); p.obj.c.push_back(r.uni(0.2, 1)); } }
  uint64_t style = r.next(); auto mk = [&](Model* reuse) { Live L; L.p = p; L.m.reset(reuse ? reuse : new Model()); if (!reuse) config(*L.m); vk::Rng q(style); L.v = addVars(*L.m, p); for (auto& k : p.cons) addCon(*L.m, k, L.v, q, false); if (!noobj) setObj(*L.m, p.obj, L.v, q, false); return L; };
  Live base = mk(nullptr); Res b = solve(base); c.sig = VKS("mix" << p.sig() << noobj); c.nontrivial = true; c.sample = VKS("mixed " << p.sig() << (noobj ? " no objective " : " ") << ecName(b.e) << " f=" << b.f << " x=" << b.x.transpose());
  auto exact = [&](const char* k, const Res& q) { if (!c.require(std::string("mixed_") + k + ":verdict", q.e == b.e, VKS(c.sample << " now " << ecName(q.e)))) return; if (good(b.e)) c.check(std::string("mixed_") + k + ":values", (q.x - b.x).norm() / (1 + b.x.norm()), 1e-9, VKS(c.sample << " now " << q.x.transpose())); };
  exact("again_same_object", solve(base)); { Live f = mk(nullptr); exact("fresh_object", solve(f)); }
  for (int k = 0; k < 2; k++) { Live L = make(plant(r, 5).p, r.next(), true); if (k == 0 && nb) { Prog q = p; for (auto& a : q.cons) a.lin.b -= 0.3; L = make(q, r.next(), false); } if (r.chance(0.8)) solve(L); Model* mm = L.m.release(); mm->clean(); Live M = mk(mm); exact("cleaned_object", solve(M)); exact("cleaned_object_again", solve(M)); }
}
static void one(vk::Case& c) {
  if (c.id % 4 == 3) { other(c); return; }
  vk::Rng& r = c.rng; Planted P = plant(r, 7); Prog& p = P.p; bool inf = r.chance(0.15);
  if (inf) { Con k; k.k = LE; VectorXd a = rvec(r, p.n); a.normalize(); k.lin.a = a; k.lin.b = 1 - a.dot(P.x); p.cons.push_back(k); k.lin.a = -a; k.lin.b = 1 + a.dot(P.x); p.cons.push_back(k); for (int i = 0; i < p.n; i++) for (int s = -1; s <= 1; s += 2) { Con d; d.k = LE; d.lin = zeroAff(p.n); d.lin.a[i] = s; d.lin.b = -50; p.cons.push_back(d); } }
  uint64_t style = r.next(); Live base = make(p, style, false); Res b = solve(base); int verdict = cls(b.e);
  c.sig = p.sig(); c.nontrivial = true; c.sample = VKS(p.sig() << " " << ecName(b.e) << " f=" << b.f << (P.unique ? " unique" : ""));
  if (verdict == 3 || b.e == ExitCode::OptimalInacc) { c.count("skipped_stalled"); return; }
  double xs = 1 + b.x.norm(), fs = 1 + std::abs(b.f) + p.obj.l.a.norm() * xs;
  auto exact = [&](const char* k, const Res& q) { if (!c.require(std::string(k) + ":verdict", q.e == b.e, VKS(c.sample << " now " << ecName(q.e)))) return; if (verdict == 0) c.check(std::string(k) + ":values", (q.x - b.x).norm() / xs, 1e-9, c.sample); };
  auto near = [&](const char* k, const Res& q, double fq, const VectorXd& xq) {
    c.count("presentations"); if (cls(q.e) == 3) { c.count("stalled"); return; }
    if (!c.require(std::string(k) + ":verdict", cls(q.e) == verdict, VKS(c.sample << " now " << ecName(q.e)))) return; if (verdict) return;
    double lo = q.e == ExitCode::Optimal ? 1 : 1e3; c.check(std::string(k) + ":objective", std::abs(fq - b.f) / fs, 3e-6 * lo, c.sample); if (P.unique) c.check(std::string(k) + ":values", (xq - b.x).norm() / xs, 4e-3 * lo, c.sample); };
  // histories
  exact("again_same_object", solve(base));
  { Planted O = plant(r, 6); Live other = make(O.p, r.next(), true); solve(other); exact("again_after_other_solve", solve(base)); Live fresh = make(p, style, false); exact("fresh_object", solve(fresh)); solve(other); exact("third_time", solve(base)); }
  { Live L = make(plant(r, 6).p, r.next(), true); if (r.chance(0.7)) solve(L); Model* m = L.m.release(); m->clean(); Live M = make(p, style, false, m); exact("cleaned_object", solve(M)); }
  { // add constraints one at a time, solving in between
    Live L; L.p = p; L.m.reset(new Model()); config(*L.m); vk::Rng q(style); L.v = addVars(*L.m, p); setObj(*L.m, p.obj, L.v, q, false); for (auto& k : p.cons) { addCon(*L.m, k, L.v, q, false); if (r.chance(0.3)) solve(L); } Res z = solve(L); near("incremental", z, z.f, z.x); }
  { // objective replaced
    Live L; L.p = p; L.m.reset(new Model()); config(*L.m); vk::Rng q(style); L.v = addVars(*L.m, p); for (auto& k : p.cons) addCon(*L.m, k, L.v, q, false); Quad o; o.l = zeroAff(p.n); o.l.a = rvec(r, p.n); if (r.chance(0.5)) { Aff f; f.a = rvec(r, p.n); f.b = 1; o.t.push_back(f); o.c.push_back(1); } setObj(*L.m, o, L.v, q, false); if (r.chance(0.5)) solve(L); setObj(*L.m, p.obj, L.v, q, false); Res z = solve(L); near("objective_replaced", z, z.f, z.x); }
  // presentations
  { Prog o = p; r.shuffle(o.cons); Live L = make(o, r.next(), true); Res z = solve(L); near("constraint_order", z, z.f, z.x); }
  { std::vector<int> q(p.n); for (int i = 0; i < p.n; i++) q[i] = i; r.shuffle(q); Live L = make(permVars(p, q), r.next(), true); Res z = solve(L); VectorXd y(p.n); for (int i = 0; i < p.n; i++) y[i] = z.x[q[i]]; near("variable_order", z, p.obj(y), y); }
  { Prog o = p; for (auto& k : o.cons) scale(k, r.logu(0.2, 5)); double k = r.logu(0.2, 5); for (auto& w : o.obj.c) w *= k; o.obj.l.a *= k; o.obj.l.b *= k; Live L = make(o, r.next(), true); Res z = solve(L); near("scaling", z, p.obj(z.x), z.x); }
  { Prog o = p; int q = r.irange(1, 3); for (int i = 0; i < q; i++) { o.n++; } auto ext = [&](Aff& a) { if (a.a.size()) { VectorXd w = VectorXd::Zero(o.n); w.head(p.n) = a.a; a.a = w; } }; for (auto& k : o.cons) { ext(k.lin); ext(k.q.l); ext(k.s.l); for (auto& t : k.q.t) ext(t); for (auto& t : k.s.t) ext(t); } ext(o.obj.l); for (auto& t : o.obj.t) ext(t);
    for (int i = p.n; i < o.n; i++) for (int s = -1; s <= 1; s += 2) { Con k; k.k = LE; k.lin = zeroAff(o.n); k.lin.a[i] = s; k.lin.b = -1; o.cons.push_back(k); } Live L = make(o, r.next(), true); Res z = solve(L); VectorXd y = z.x.head(p.n); near("idle_variables", z, p.obj(y), y); }
  { Prog o = p; size_t i = r.next() % std::max<size_t>(1, p.cons.size()); if (!p.cons.empty() && p.cons[i].k != EQ) { o.cons.push_back(p.cons[i]); Live L = make(o, r.next(), true); Res z = solve(L); near("repeated_constraint", z, z.f, z.x); } }
}
int main(int argc, char** argv) { return vk::run(argc, argv, "s04", one); }
