// FBstabAlgorithm over the real components, with a linear solver and a feasibility checker that record what passes
// through them and can be told to fail, to distort a direction or to answer with another verdict.
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "fbstab/fbstab_algorithm.h"
#include "tools/matrix_sequence.h"
using namespace fbstab;
using Eigen::Map; using Eigen::MatrixXd; using Eigen::VectorXd;
#include "case.h"
#include "optfields.h"

struct Event { int type, a, b; Vd d; };
static std::vector<Event> events;
static int nInit, nSolve, nFeas;                          // calls so far in this solve
static int failInit, failSolve, feasAt, feasAs; static Vd factors;
static void app(Vd& o, const VectorXd& v) { o.insert(o.end(), v.data(), v.data() + v.size()); }
static void app3(Vd& o, const FullVariable& x) { app(o, x.z()); app(o, x.l()); app(o, x.v()); }
static void app4(Vd& o, const FullVariable& x) { app3(o, x); app(o, x.y()); }

struct Silent { void Print(const char*) const {} };

template <class Base, class DataT> class RecLin {
 public:
  template <class... T> RecLin(T... t) : b(t...) {}
  void LinkData(const DataT* d) { b.LinkData(d); }
  void SetAlpha(double a) { b.SetAlpha(a); }
  bool Initialize(const FullVariable& x, const FullVariable& xbar, double s) {
    nInit++; Event e; e.type = 2; e.a = e.b = 1; e.d.push_back(s); app4(e.d, x); app4(e.d, xbar);
    bool ok = nInit != failInit && b.Initialize(x, xbar, s);
    if (!ok) e.a = 0;
    events.push_back(e); return ok;
  }
  bool Solve(const FullResidual& r, FullVariable* dx) const {
    nSolve++; Event& e = events.back();
    bool ok = b.Solve(r, dx) && nSolve != failSolve;
    if (!ok) { e.b = 0; return false; }
    double f = (size_t)nSolve <= factors.size() ? factors[nSolve - 1] : 1.0;
    if (f != 1.0) { dx->z() *= f; dx->l() *= f; dx->v() *= f; dx->InitializeConstraintMargin(); }
    app(e.d, r.z()); app(e.d, r.l()); app(e.d, r.v()); app4(e.d, *dx);
    return true;
  }
  Base b;
};
class RecFeas {
 public:
  typedef FullFeasibility::FeasibilityStatus FeasibilityStatus;
  RecFeas(int nz, int nl, int nv) : f(nz, nl, nv) {}
  void LinkData(const Data* d) { f.LinkData(d); }
  FeasibilityStatus CheckFeasibility(const FullVariable& x, double tol) {
    typedef FeasibilityStatus S; nFeas++;
    S s = f.CheckFeasibility(x, tol);
    if (nFeas == feasAt) s = feasAs == 0 ? S::FEASIBLE : feasAs == 1 ? S::PRIMAL_INFEASIBLE : feasAs == 2 ? S::DUAL_INFEASIBLE : S::BOTH;
    Event e; e.type = 3; e.a = s == S::FEASIBLE ? 0 : s == S::PRIMAL_INFEASIBLE ? 1 : s == S::DUAL_INFEASIBLE ? 2 : 3; e.b = 0;
    e.d.push_back(tol); app3(e.d, x); events.push_back(e);
    return s;
  }
  FullFeasibility f;
};
typedef RecLin<DenseCholeskySolver, DenseData> LinD;
typedef RecLin<RiccatiLinearSolver, MpcData> LinM;
struct Alg {
  int kind; FullVariable x1, x2, x3, x4; FullResidual r1, r2; RecFeas f; std::unique_ptr<LinD> ld; std::unique_ptr<LinM> lm;
  std::unique_ptr<FBstabAlgorithm<FullVariable, FullResidual, LinD, RecFeas>> ad;
  std::unique_ptr<FBstabAlgorithm<FullVariable, FullResidual, LinM, RecFeas>> am;
  Alg(int k, int nz, int nl, int nv) : kind(k), x1(nz, nl, nv), x2(nz, nl, nv), x3(nz, nl, nv), x4(nz, nl, nv), r1(nz, nl, nv), r2(nz, nl, nv), f(nz, nl, nv) {}
};
static std::map<int, Case> cases; static std::map<int, std::unique_ptr<Alg>> algs;

static SolverOut solveD(Alg& a, const Case& c, VectorXd* g) {
  MatrixXd H = mat(c.a.at("H")), G = mat(c.a.at("G")), A = mat(c.a.at("A")); VectorXd f = tov(c.a.at("f").d), h = tov(c.a.at("h").d), b = tov(c.a.at("b").d);
  DenseData d(&H, &f, &G, &h, &A, &b); Silent os;
  return a.ad->Solve(d, &g[0], &g[1], &g[2], &g[3], os);
}
static SolverOut solveM(Alg& a, const Case& c, VectorXd* g) {
  std::map<std::string, MatrixSequence> m; for (auto& kv : c.a) if (kv.first != "x0") m[kv.first] = seq(kv.second);
  VectorXd x0 = tov(c.a.at("x0").d); Silent os;
  MpcData d(&m["Q"], &m["R"], &m["S"], &m["q"], &m["r"], &m["A"], &m["B"], &m["c"], &m["E"], &m["L"], &m["d"], &x0);
  return a.am->Solve(d, &g[0], &g[1], &g[2], &g[3], os);
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]); out = fopen(argv[2], "w"); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string op; is >> op; std::string what;
    auto I = [&] { int t = 0; is >> t; return t; };
    if (op == "C") { int id; Case c = readCase(is, &id); cases[id] = c; }
    else if (op == "A") {            // slot, shaped like case
      int s = I(); const Case& c = cases[I()]; const int* d = c.dims; Alg* a;
      if (!c.kind) {
        a = new Alg(0, d[0], d[1], d[2]); a->ld.reset(new LinD(d[0], d[1], d[2]));
        a->ad.reset(new FBstabAlgorithm<FullVariable, FullResidual, LinD, RecFeas>(&a->x1, &a->x2, &a->x3, &a->x4, &a->r1, &a->r2, a->ld.get(), &a->f));
      } else {
        a = new Alg(1, (d[0] + 1) * (d[1] + d[2]), (d[0] + 1) * d[1], (d[0] + 1) * d[3]); a->lm.reset(new LinM(d[0], d[1], d[2], d[3]));
        a->am.reset(new FBstabAlgorithm<FullVariable, FullResidual, LinM, RecFeas>(&a->x1, &a->x2, &a->x3, &a->x4, &a->r1, &a->r2, a->lm.get(), &a->f));
      }
      algs[s].reset(a);
    } else if (op == "O") {
      Alg& a = *algs[I()]; AlgorithmParameters o; Vd x = readVec(is, 21); setOpts(&o, x);
      if (a.kind) a.am->UpdateParameters(&o); else a.ad->UpdateParameters(&o);
    } else if (op == "S") {          // slot case failInit failSolve feasAt feasAs factors guess
      Alg& a = *algs[I()]; const Case& c = cases[I()];
      failInit = I(); failSolve = I(); feasAt = I(); feasAs = I(); factors = readVec(is);
      VectorXd g[4], g0[4]; for (int i = 0; i < 4; i++) { g[i] = tov(readVec(is)); g0[i] = g[i]; }
      events.clear(); nInit = nSolve = nFeas = 0; SolverOut o;
      int exc = guard([&] { o = a.kind ? solveM(a, c, g) : solveD(a, c, g); }, &what);
      bool same = true; for (int i = 0; i < 4; i++) same = same && g[i].size() == g0[i].size() && (!g[i].size() || !memcmp(g[i].data(), g0[i].data(), 8 * g[i].size()));
      fprintf(out, "{\"k\":\"S\",\"exc\":%d,\"flag\":%d,\"newton\":%d,\"prox\":%d,\"untouched\":%d", exc, (int)o.eflag, o.newton_iters, o.prox_iters, same);
      pv("res", {o.residual, o.initial_residual});
      const char* nm[] = {"z", "l", "v", "y"}; for (int i = 0; i < 4; i++) pv(nm[i], fromv(g[i]));
      fprintf(out, ",\"ev\":[");
      for (size_t i = 0; i < events.size(); i++) {
        fprintf(out, "%s{\"t\":%d,\"a\":%d,\"b\":%d", i ? "," : "", events[i].type, events[i].a, events[i].b); pv("d", events[i].d); fprintf(out, "}");
      }
      fprintf(out, "]}\n"); fflush(out); continue;
    } else continue;
    fprintf(out, "{\"k\":\"%s\"}\n", op.c_str()); fflush(out);
  }
  fclose(out);
}
