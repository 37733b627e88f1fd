#pragma once
#include "hqp.hpp"
#include <solver/interface/Solver.hpp>
namespace hqp {
template <int MI, int ME, int N> struct Composer : rt_solver::RtHQPCost {
  typedef rt_solver::RtModel<MI, ME, N> Model;
  Model* m; std::vector<Row> rows; int col0 = 0, width = N; mutable int calls = 0; int found = 0;
  int maxRank() const { int k = 0; for (auto& t : rows) k = std::max(k, t.rank); return k; }
  void updateAfterSolutionFound() { ++found; }
  void addCostToHierarchy(int rank) const {
    ++calls;
    for (int eq = 0; eq < 2; ++eq) {
      std::vector<const Row*> sel; for (auto& t : rows) if (t.eq == (bool)eq) sel.push_back(&t);
      for (size_t p = 0; p < sel.size(); p += 8) {
        int k = std::min<int>(8, sel.size() - p); typename rt_solver::RtVector<8>::i rk(k); MatrixXd A(k, width); VectorXd v(k);
        for (int i = 0; i < k; ++i) { rk(i) = sel[p + i]->rank; A.row(i) = sel[p + i]->a.segment(col0, width).transpose(); v(i) = sel[p + i]->c; }
        m->template appendRowsOfRank<8>(rank, rk, A, v, (bool)eq, col0);
      }
    }
  }
};
// One expression for a row; `pieces` mentions variables several times and moves parts to the other side.
template <class Model> void addExpr(Model& m, const Row& t, vk::Rng& r, bool pieces, int n) {
  solver::LinExpr lhs, rhs; std::vector<std::pair<int, double>> terms;
  for (int i = 0; i < n; ++i) if (t.a(i) != 0) { if (pieces && r.chance(0.4)) { double p = std::round(8 * r.uni(-2, 2)) / 8; terms.push_back({i, p}); terms.push_back({i, t.a(i) - p}); } else terms.push_back({i, t.a(i)}); }
  r.shuffle(terms);
  double sg = (!t.eq && r.chance(0.4)) ? -1 : 1;  // written as ">"
  for (auto& q : terms) { if (pieces && r.chance(0.3)) rhs += solver::LinExpr(m.getVar(q.first)) * (-sg * q.second); else lhs += solver::LinExpr(m.getVar(q.first)) * (sg * q.second); }
  if (r.chance(0.5)) lhs += solver::LinExpr(sg * t.c); else rhs += solver::LinExpr(-sg * t.c);
  m.addLinConstr(lhs, t.eq ? "=" : (sg > 0 ? "<" : ">"), rhs, t.rank);
}

template <int MI, int ME, int N> struct DriverT : Driver {
  typedef rt_solver::RtModel<MI, ME, N> Model; typedef rt_solver::RtHQPSolver<MI, N, ME> Bare; typedef Composer<MI, ME, N> Comp;
  std::unique_ptr<Model> m; std::unique_ptr<Bare> b; std::vector<std::unique_ptr<Comp>> cs; Pars p;
  explicit DriverT(const Pars& q) : p(q) {}
  int vars() const { return N; } int ineqs() const { return MI; } int eqs() const { return ME; }
  void initialize() { if (m) m->initialize(); if (b) b->initialize(); }
  void need(bool model) { if (model && !m) { m.reset(new Model(yaml(p))); m->initialize(); } if (!model && !b) { b.reset(new Bare(yaml(p))); b->initialize(); } }
  Res direct(const Hier& h) {
    need(false); Res q; b->reset(h.n); q.ok = true; q.solved = 0;
    for (int k = 0; k < h.ranks && q.ok; ++k) { MatrixXd A = h.mat(k, true), B = h.mat(k, false); VectorXd va = h.vec(k, true), vb = h.vec(k, false); q.ok = b->solveNextTask(A, va, B, vb); if (q.ok) q.solved += 1; }
    q.x = b->solution(); return q;
  }
  void columns(int n) { for (int i = 0; i < N; ++i) m->full_to_opt_variable_index_[i] = i < n ? i : -1; m->num_variables_optimized_ = n; }
  void noComposers() { m->subCostComposers().clear(); cs.clear(); }
  Res finish() { Res q; q.ok = m->solve(); q.x = m->hqp_solver_.solution(); q.solved = m->n_solved_ranks_; q.valid = m->is_solution_valid_; for (auto& c : cs) q.notified = q.notified && c->found == 1; return q; }
  Comp* comp() { cs.emplace_back(new Comp()); cs.back()->m = m.get(); m->subCostComposers().push_back(cs.back().get()); return cs.back().get(); }
  Res exprs(const Hier& h, vk::Rng r, bool pieces) { need(true); m->clean(); noComposers(); columns(h.n); for (auto& t : h.rows) addExpr(*m, t, r, pieces, h.n); return finish(); }
  Res composers(const Hier& h, vk::Rng r, int k, bool reduced) {
    need(true); m->clean(); noComposers();
    if (!reduced) { columns(h.n); for (int i = 0; i < k; ++i) comp()->width = h.n; for (auto& t : h.rows) cs[r.irange(0, k - 1)]->rows.push_back(t); return finish(); }
    // the same problem in a random subset of the variables; excluded ones carry coefficients that must not matter
    std::vector<int> pos(N); for (int i = 0; i < N; ++i) pos[i] = i; r.shuffle(pos); pos.resize(h.n); std::sort(pos.begin(), pos.end());
    for (int i = 0; i < N; ++i) m->full_to_opt_variable_index_[i] = -1; for (int i = 0; i < h.n; ++i) m->full_to_opt_variable_index_[pos[i]] = i; m->num_variables_optimized_ = h.n;
    for (int i = 0; i < k; ++i) comp();
    for (auto& t : h.rows) { Row u = t; u.a.resize(N); for (int i = 0; i < N; ++i) u.a(i) = r.uni(-5, 5); for (int i = 0; i < h.n; ++i) u.a(pos[i]) = t.a(i); cs[r.irange(0, k - 1)]->rows.push_back(u); }
    return finish();
  }
  Res mixed(const Hier& h, vk::Rng r) {
    need(true); m->clean(); noComposers(); columns(h.n); Comp* c = comp(); c->width = h.n;
    for (auto& t : h.rows) if (r.chance(0.5)) c->rows.push_back(t); else addExpr(*m, t, r, true, h.n);
    return finish();
  }
};
}  // namespace hqp
