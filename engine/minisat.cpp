#include <minisat/core/Solver.h>
#include "minisat.h"
using namespace Minisat;
extern "C" {
void *ms_new(void) { Solver *s = new Solver(); return s; }
void ms_free(void *p) { delete (Solver *)p; }
int ms_newvar(void *p) { return ((Solver *)p)->newVar(l_Undef, false); }
void ms_setdec(void *p, int *vs, int n, int on) {
  Solver *s = (Solver *)p;
  for (int i = 0; i < n; i++) s->setDecisionVar(vs[i], on != 0);
}
static inline Lit tolit(int l) { return mkLit(l >> 1, l & 1); }
int ms_clause1(void *p, int a) { return ((Solver *)p)->addClause(tolit(a)); }
int ms_clause2(void *p, int a, int b) { return ((Solver *)p)->addClause(tolit(a), tolit(b)); }
int ms_clause3(void *p, int a, int b, int c) { return ((Solver *)p)->addClause(tolit(a), tolit(b), tolit(c)); }
int ms_and(void *p, int n, int a, int b) {
  Solver *s = (Solver *)p;
  s->addClause(tolit(n ^ 1), tolit(a));
  s->addClause(tolit(n ^ 1), tolit(b));
  return s->addClause(tolit(n), tolit(a ^ 1), tolit(b ^ 1));
}
int ms_solve(void *p, int *as, int n, long long confl) {
  Solver *s = (Solver *)p;
  vec<Lit> v;
  for (int i = 0; i < n; i++) v.push(tolit(as[i]));
  if (confl >= 0) s->setConfBudget(confl); else s->budgetOff();
  lbool r = s->solveLimited(v);
  if (r == l_True) return 1;
  if (r == l_False) return 0;
  return 2;
}
void ms_interrupt(void *p) { ((Solver *)p)->interrupt(); }
int ms_model(void *p, int v) {
  Solver *s = (Solver *)p;
  if (v >= s->model.size()) return 0;
  return s->model[v] == l_True;
}
void ms_copymodel(void *p, char *out, int n) {
  Solver *s = (Solver *)p;
  for (int v = 0; v < n; v++) out[v] = v < s->model.size() && s->model[v] == l_True;
}
long long ms_conflicts(void *p) { return ((Solver *)p)->conflicts; }
}
