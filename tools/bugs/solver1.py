PRE = '''#include <cstdio>
#include <cmath>
#include <fstream>
#include <solver/interface/Model.hpp>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver;
static void cfg(Model& m) { m.configSetting("/repo/solver/config/default_solver_setting.yaml"); }
'''
CFG = r'''#include <cstdio>
#include <cmath>
#include <fstream>
#include <solver/interface/Model.hpp>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver;
static void cfg(Model& m, int it = 100, int refs = 0) {
  std::ofstream f("s.yaml"); f << "solver_variables:\n  BnB_verbose: False\n  BnB_max_iterations: 100\n  BnB_integer_tolerance: 1e-4\n  BnB_absolute_suboptimality_gap: 1e-3\n  BnB_relative_suboptimality_gap: 1e-6\n"
  "  feasibility_tolerance: 1e-8\n  absolute_suboptimality_gap: 1e-8\n  relative_suboptimality_gap: 1e-8\n  feasibility_tolerance_inaccurate: 1e-4\n  absolute_suboptimality_gap_inaccurate: 5e-5\n  relative_suboptimality_gap_inaccurate: 5e-5\n"
  "%s"; f.close(); m.configSetting("s.yaml"); m.getSetting().set(SolverIntParam_SolverMaxIters, it); m.getSetting().set(SolverIntParam_NumberRefinementsTrustRegion, refs); }
'''
import re
_y = open('/verif/harness/common/solver_stgs.yaml').read()
_y = '\n'.join(l.split('#')[0].rstrip() for l in _y.splitlines() if l.split('#')[0].strip())
CFG = '''#include <cstdio>
#include <cmath>
#include <fstream>
#include <solver/interface/Model.hpp>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver;
static const char* YAML_TXT = R"Y(%s
)Y";
static void cfg(Model& m, int it = 100, int refs = 0) { std::ofstream f("s.yaml"); f << YAML_TXT; f.close(); m.configSetting("s.yaml"); m.getSetting().set(SolverIntParam_SolverMaxIters, it); m.getSetting().set(SolverIntParam_NumberRefinementsTrustRegion, refs); }
static double val(const Var& v) { return v.get(SolverDoubleParam_X); }
''' % _y
S = 'solver/src/solver/'
H = 'solver/include/solver/'
BUGS = [
 dict(id='s01-small-weight', prop='S01', edits=[(H + 'interface/Exprs.hpp', 'if (coeff != 0.0) { qexpr_', 'if (coeff > 1.e-4 || coeff < -1.e-4) { qexpr_')],
   needs='a quadratic term whose weight is below 1e-4', breaks='terms with a small weight vanish from objectives and constraints, so the reported optimum is not one',
   demo_cpp=CFG + '''int main() { Model m; cfg(m); Var x = m.addVar(VarType::Continuous, -1e3, 1e3); DCPQuadExpr q; q.addQuaTerm(5e-5, LinExpr(x) - LinExpr(100.0)); m.setObjective(q, LinExpr(0.0)); ExitCode e = m.optimize(); printf("%d %g\\n", (int)e, val(x)); return e == ExitCode::Optimal && std::abs(val(x) - 100) < 1 ? 0 : 1; }'''),
 dict(id='s02-limit-optimal', prop='S02', edits=[(S + 'optimizer/IPSolver.cpp', '            exitcode_ = ExitCode::ReachMaxIters;', '            exitcode_ = this->getInfo().get(SolverDoubleParam_PrimalResidual) < this->getSetting().get(SolverDoubleParam_SafeGuard) * this->getSetting().get(SolverDoubleParam_FeasibilityTolInacc) ? ExitCode::OptimalInacc : ExitCode::ReachMaxIters;')],
   needs='an iteration limit hit at a feasible but not yet optimal iterate', breaks='a stop at the iteration limit is reported as an (inaccurate) optimum',
   demo_cpp=CFG + '''int main() { int bad = 0; for (int it = 1; it <= 12; it++) { Model m; cfg(m, it); Var x = m.addVar(VarType::Continuous, -1e3, 1e3), y = m.addVar(VarType::Continuous, -1e3, 1e3); m.addLinConstr(LinExpr(x) + LinExpr(y), "<", LinExpr(4.0)); m.addLinConstr(LinExpr(x), "<", LinExpr(3.0)); m.addLinConstr(LinExpr(x) - LinExpr(y), ">", LinExpr(-9.0)); m.addLinConstr(LinExpr(y), ">", LinExpr(0.0)); DCPQuadExpr q; q.addQuaTerm(1.0, LinExpr(y) - LinExpr(x) * 0.3); m.setObjective(q, LinExpr(x) * -3.0 + LinExpr(y) * -2.0);
 ExitCode e = m.optimize(); double o = std::pow(val(y) - 0.3 * val(x), 2) - 3 * val(x) - 2 * val(y); static double best = 1e9; Model k; cfg(k); if (best > 1e8) { Var a = k.addVar(VarType::Continuous, -1e3, 1e3), b = k.addVar(VarType::Continuous, -1e3, 1e3); k.addLinConstr(LinExpr(a) + LinExpr(b), "<", LinExpr(4.0)); k.addLinConstr(LinExpr(a), "<", LinExpr(3.0)); k.addLinConstr(LinExpr(a) - LinExpr(b), ">", LinExpr(-9.0)); k.addLinConstr(LinExpr(b), ">", LinExpr(0.0)); DCPQuadExpr p; p.addQuaTerm(1.0, LinExpr(b) - LinExpr(a) * 0.3); k.setObjective(p, LinExpr(a) * -3.0 + LinExpr(b) * -2.0); k.optimize(); best = std::pow(val(b) - 0.3 * val(a), 2) - 3 * val(a) - 2 * val(b); }
 printf("%d: code %d objective %g best %g\\n", it, (int)e, o, best); if ((e == ExitCode::Optimal || e == ExitCode::OptimalInacc) && std::abs(o - best) > 1e-2) bad = 1; } return bad; }'''),
 dict(id='s03-tiny-coeff', prop='S03', edits=[(S + 'interface/Exprs.cpp', '''	  if (!set && rhs.coeffs_[i] != 0.0) {''', '''	  if (!set && std::abs(rhs.coeffs_[i]) > 1.e-8) {''')],
   needs='an expression with a coefficient below 1e-8 that is added, scaled or cleaned', breaks='the expression loses the variable: its value is wrong for large values of that variable',
   demo_cpp=CFG + '''int main() { Model m; cfg(m); Var x = m.addVar(VarType::Continuous, -1e3, 1e3), y = m.addVar(VarType::Continuous, -1e3, 1e3); LinExpr e = LinExpr(x, 2e-9) + LinExpr(y); x.set(SolverDoubleParam_X, 1e10); y.set(SolverDoubleParam_X, 1.0); printf("%g\\n", e.getValue()); return std::abs(e.getValue() - 21.0) < 1e-6 ? 0 : 1; }'''),
 dict(id='s04-clean-objective', prop='S04', edits=[(S + 'interface/ConicProblem.cpp', '''	qineqcons_.clear();
	objective_.clear();
''', '''	qineqcons_.clear();
	objective_.coeffs().clear();
	objective_.extraVars().clear();
''')],
   needs='a model that is cleaned and reused for a program that sets no objective', breaks='the linear objective of the previous program is still minimised',
   demo_cpp=CFG + '''int main() { double r[2]; for (int k = 0; k < 2; k++) { Model m; cfg(m); if (k) { Var a = m.addVar(VarType::Continuous, -10, 10); m.addLinConstr(LinExpr(a), ">", LinExpr(-3.0)); m.setObjective(DCPQuadExpr(), LinExpr(a) * 4.0); m.optimize(); m.clean(); } Var x = m.addVar(VarType::Continuous, -10, 10); m.addLinConstr(LinExpr(x), ">", LinExpr(0.0)); m.addLinConstr(LinExpr(x), "<", LinExpr(1.0)); m.optimize(); r[k] = val(x); } printf("fresh %g reused %g\\n", r[0], r[1]); return std::abs(r[0] - r[1]) < 1e-6 ? 0 : 1; }'''),
 dict(id='s05-gap-sign', prop='S05', edits=[(S + 'optimizer/BnBSolver.cpp', 'std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) >', '(prob_upper_bound_ / prob_lower_bound_ - 1.0) >')],
   needs='a mixed-binary program whose bounds are negative and whose first rounding is not optimal', breaks='the search stops at the first incumbent and reports it optimal',
   demo_cpp=CFG + '''int main() { int bad = 0; srand(3); for (int t = 0; t < 40; t++) { int n = 4; double c[4], w[4], W = 0; for (int i = 0; i < n; i++) { c[i] = 1 + (rand() % 100) / 20.0; w[i] = 1 + (rand() % 100) / 20.0; W += w[i]; } W = W * 0.55; Model m; cfg(m); Var v[4]; LinExpr k = 0.0, o = 0.0; for (int i = 0; i < n; i++) { v[i] = m.addVar(VarType::Binary, 0, 1); k += LinExpr(v[i]) * w[i]; o += LinExpr(v[i]) * -c[i]; } m.addLinConstr(k, "<", LinExpr(W)); m.setObjective(DCPQuadExpr(), o); ExitCode e = m.optimize(); double f = 0, best = 0; for (int i = 0; i < n; i++) f -= c[i] * val(v[i]); for (int s = 0; s < 16; s++) { double a = 0, b = 0; for (int i = 0; i < n; i++) if (s >> i & 1) { a += w[i]; b -= c[i]; } if (a <= W && b < best) best = b; } printf("%d %g %g\\n", (int)e, f, best); if (e != ExitCode::Optimal || std::abs(f - best) > 2e-3) bad = 1; } return bad; }'''),
 dict(id='s06-negative-term', prop='S06', edits=[(S + 'interface/Exprs.cpp', 'value += coeffs_[i]*std::pow(qexpr_[i].getValue(), 2.0);', 'value += coeffs_[i]*qexpr_[i].getValue()*std::abs(qexpr_[i].getValue());')],
   needs='a nonconvex constraint whose squared expression is negative at the point of linearisation', breaks='the trust region is centred wrongly: the quadratic equality is violated by the reported solution',
   demo_cpp=CFG + '''int main() { Model m; cfg(m, 100, 5); Var x = m.addVar(VarType::Continuous, -1e3, 1e3, -1.5), y = m.addVar(VarType::Continuous, -1e3, 1e3, 0.5); DCPQuadExpr q; q.addQuaTerm(1.0, LinExpr(x)); q.addQuaTerm(1.0, LinExpr(y)); q.addLinTerm(LinExpr(-2.0)); m.addQuaConstr(q, "<", LinExpr(0.0), QuadConstrApprox::TrustRegion); DCPQuadExpr o; o.addQuaTerm(1.0, LinExpr(x) + LinExpr(0.9)); o.addQuaTerm(1.0, LinExpr(y) - LinExpr(0.4)); m.setObjective(o, LinExpr(0.0)); ExitCode e = m.optimize(); double r = val(x) * val(x) + val(y) * val(y) - 2; printf("%d x %g y %g residual %g\\n", (int)e, val(x), val(y), r); return (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) && std::abs(r) < 0.2 ? 0 : 1; }'''),
 dict(id='s07-memory-wrap', prop='S07', edits=[(S + 'optimizer/LbfgsSolver.cpp', 'if (param.max_iterations != 0 && param.max_iterations < k+1) {', 'if (param.max_iterations != 0 && param.max_iterations < k+1 && ls < 2) {')],
   needs='an iteration limit reached by a step whose line search needed more than one evaluation', breaks='the iteration limit is exceeded',
   demo_cpp=CFG + '''static int its; static double ev(void*, const double* x, double* g, const int n, const double) { double f = 0; for (int i = 0; i < n; i += 2) { double a = 1 - x[i], b = 10 * (x[i + 1] - x[i] * x[i]); g[i + 1] = 20 * b; g[i] = -2 * (x[i] * g[i + 1] + a); f += a * a + b * b; } return f; }
static int pr(void*, const double*, const double*, const double, const double, const double, const double, int, int k, int) { its = k; return 0; }
int main() { int bad = 0; for (int lim = 1; lim <= 12; lim++) { lbfgs_parameter_t p; lbfgs_parameter_init(&p); p.max_iterations = lim; double x[4] = {-1.2, 1, -1.2, 1}, f; its = 0; lbfgs(4, x, &f, ev, pr, nullptr, &p); printf("limit %d iterations %d\\n", lim, its); if (its > lim) bad = 1; } return bad; }'''),
]
