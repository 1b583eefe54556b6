// The component protocol: executes calls on live components and reports whether each returned, refused or did something else.
#include <Eigen/Dense>
#include <cstdio>
#include <fstream>
#include <memory>
#include <sstream>
#include <vector>
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
using namespace fbstab; using Eigen::MatrixXd; using Eigen::VectorXd;
typedef std::vector<int> V;
static MatrixXd some(int r, int c) { MatrixXd m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = (3 * i + 2 * j) % 5 - 2; return m; }
struct DenseP { MatrixXd H, G, A; VectorXd f, h, b; std::unique_ptr<DenseData> d;
  DenseP(int n, int l, int v) : H(MatrixXd::Identity(n, n)), G(some(l, n)), A(some(v, n)), f(some(n, 1)), h(some(l, 1)), b(some(v, 1)) { d.reset(new DenseData(&H, &f, &G, &h, &A, &b)); } };
struct MpcP { MatrixSequence q[11]; VectorXd x0; std::unique_ptr<MpcData> d;
  explicit MpcP(const V& s) {                        // 11 (length, rows, columns), x0 (1, n, 1)
    for (int k = 0; k < 11; k++) { q[k] = MatrixSequence(s[3 * k], s[3 * k + 1], s[3 * k + 2]);
      for (int i = 0; i < s[3 * k]; i++) q[k](i) = k < 2 ? MatrixXd(MatrixXd::Identity(s[3 * k + 1], s[3 * k + 2])) : k == 2 ? MatrixXd(MatrixXd::Zero(s[3 * k + 1], s[3 * k + 2])) : some(s[3 * k + 1], s[3 * k + 2]); }
    x0 = some(s[34], 1);
    // (order of the constructor: Q R S q r A B c E L d)
    d.reset(new MpcData(&q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &q[9], &q[10], &x0)); } };
static V shapes(int N, int x, int u, int c) {
  return {N + 1, x, x, N + 1, u, u, N + 1, u, x, N + 1, x, 1, N + 1, u, 1, N, x, x, N, x, u, N, x, 1, N + 1, c, x, N + 1, c, u, N + 1, c, 1, 1, x, 1}; }
static const int SHAPE[4][4] = {{0, 0, 1, 1}, {0, 1, 0}, {0, 1}, {0, 1}}, COUNT[4] = {4, 3, 2, 2};
template <class D, class L> struct World {
  std::unique_ptr<FullVariable> x[4]; std::unique_ptr<FullResidual> r[3]; std::unique_ptr<FullFeasibility> f[2]; std::unique_ptr<L> s[2]; const D* d[2];
  void objects(const V& t0, const V& t1) { const V* t[] = {&t0, &t1};
    for (int i = 0; i < 4; i++) { const V& q = *t[SHAPE[0][i]]; x[i].reset(new FullVariable(q[0], q[1], q[2])); x[i]->v().setConstant(.5 * i); x[i]->y().setConstant(1 + i); x[i]->z().setConstant(i); }
    for (int i = 0; i < 3; i++) { const V& q = *t[SHAPE[1][i]]; r[i].reset(new FullResidual(q[0], q[1], q[2])); r[i]->Fill(1); }
    for (int i = 0; i < 2; i++) { const V& q = *t[SHAPE[2][i]]; f[i].reset(new FullFeasibility(q[0], q[1], q[2])); } }
  void call(const V& o) {
    const double sg = o[0] == 6 ? o[5] / 4. : o[0] == 8 ? o[4] / 4. : 0;
    switch (o[0]) {
    case 2: { const D* p = o[3] ? d[SHAPE[o[1]][o[2]]] : nullptr;
      if (o[1] == 0) x[o[2]]->LinkData(p); if (o[1] == 1) r[o[2]]->LinkData(p); if (o[1] == 2) f[o[2]]->LinkData(p); if (o[1] == 3) s[o[2]]->LinkData(p); break; }
    case 3: x[o[1]]->InitializeConstraintMargin(); break;
    case 4: x[o[1]]->axpy(.5, *x[o[2]]); break;
    case 5: x[o[1]]->Copy(*x[o[2]]); break;
    case 6: if (o[2] == 0) r[o[1]]->InnerResidual(*x[o[3]], *x[o[4]], sg); else if (o[2] == 1) r[o[1]]->NaturalResidual(*x[o[3]]); else r[o[1]]->PenalizedNaturalResidual(*x[o[3]]); break;
    case 7: f[o[1]]->CheckFeasibility(*x[o[2]], 1e-8); break;
    case 8: s[o[1]]->Initialize(*x[o[2]], *x[o[3]], sg); break;
    case 9: s[o[1]]->Solve(*r[o[2]], o[4] ? nullptr : x[o[3]].get()); break;
    }
  }
};
static std::unique_ptr<DenseP> dp[2]; static std::unique_ptr<MpcP> mp[2];
static World<DenseData, DenseCholeskySolver> wd; static World<MpcData, RiccatiLinearSolver> wm;
static bool mpc;
static void run(const V& o) {
  switch (o[0]) {
  case 0: mpc = o[1];
    for (int k = 0; k < 2; k++) { const int* a = &o[2 + 4 * k]; dp[k].reset(); mp[k].reset();
      if (mpc) { mp[k].reset(new MpcP(shapes(a[0], a[1], a[2], a[3]))); wm.d[k] = mp[k]->d.get(); wm.s[k].reset(new RiccatiLinearSolver(a[0], a[1], a[2], a[3])); }
      else { dp[k].reset(new DenseP(a[0], a[1], a[2])); wd.d[k] = dp[k]->d.get(); wd.s[k].reset(new DenseCholeskySolver(a[0], a[1], a[2])); } }
    { V t[2]; for (int k = 0; k < 2; k++) { const int* a = &o[2 + 4 * k]; t[k] = mpc ? V{(a[0] + 1) * (a[1] + a[2]), (a[0] + 1) * a[1], (a[0] + 1) * a[3]} : V{a[0], a[1], a[2]}; }
      if (mpc) wm.objects(t[0], t[1]); else wd.objects(t[0], t[1]); }
    break;
  case 1: switch (o[1]) {
    case 0: FullVariable(o[2], o[3], o[4]); break; case 1: FullResidual(o[2], o[3], o[4]); break; case 2: FullFeasibility(o[2], o[3], o[4]); break;
    case 3: DenseCholeskySolver(o[2], o[3], o[4]); break; case 4: RiccatiLinearSolver(o[2], o[3], o[4], o[5]); break;
    case 5: FBstabDense(o[2], o[3], o[4]); break; case 6: FBstabMpc(o[2], o[3], o[4], o[5]); break; }
    break;
  case 10: { VectorXd x = some(o[2], 1), y = some(o[3], 1), *p = o[4] ? nullptr : &y; const MpcData& d = *mp[0]->d;
    if (o[1] == 0) d.gemvH(x, 1, 1, p); if (o[1] == 1) d.gemvA(x, 2, 0, p); if (o[1] == 2) d.gemvG(x, -1, 1, p); if (o[1] == 3) d.gemvAT(x, 1, .5, p); if (o[1] == 4) d.gemvGT(x, -1, 0, p); break; }
  case 11: { VectorXd y = some(o[2], 1), *p = o[3] ? nullptr : &y; const MpcData& d = *mp[0]->d; if (o[1] == 0) d.axpyf(1, p); if (o[1] == 1) d.axpyh(-2, p); if (o[1] == 2) d.axpyb(1, p); break; }
  case 12: { FullVariable a(2, 1, 2), b(2, 1, 2), c(2, 1, 2), e(2, 1, 2); FullResidual r(2, 1, 2), q(2, 1, 2); DenseCholeskySolver s(2, 1, 2); FullFeasibility f(2, 1, 2); const int k = o[1];
    FBstabAlgorithm<FullVariable, FullResidual, DenseCholeskySolver, FullFeasibility>(k == 0 ? nullptr : &a, k == 1 ? nullptr : &b, k == 2 ? nullptr : &c, k == 3 ? nullptr : &e,
      k == 4 ? nullptr : &r, k == 5 ? nullptr : &q, k == 6 ? nullptr : &s, k == 7 ? nullptr : &f); break; }
  case 13: { MatrixXd H = some(o[2], o[3]), G = some(o[5], o[6]), A = some(o[8], o[9]); VectorXd f = some(o[4], 1), h = some(o[7], 1), b = some(o[10], 1); const int k = o[1];
    DenseData(k == 0 ? nullptr : &H, k == 1 ? nullptr : &f, k == 2 ? nullptr : &G, k == 3 ? nullptr : &h, k == 4 ? nullptr : &A, k == 5 ? nullptr : &b); break; }
  case 14: { MpcP p(V(o.begin() + 1, o.end())); break; }
  default: if (mpc) wm.call(o); else wd.call(o);
  }
}
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); V o; int k; while (is >> k) o.push_back(k);
    int got = 0; std::string what;
    try { run(o); } catch (const std::runtime_error& e) { got = 1; } catch (const EigenAssertion& e) { got = 2; what = e.what; } catch (const std::exception& e) { got = 2; what = e.what(); } catch (...) { got = 2; }
    for (char& c : what) if (c == '"' || c == '\\' || c < 32) c = ' ';
    fprintf(out, "{\"k\":\"s\",\"got\":%d,\"what\":\"%s\"}\n", got, what.substr(0, 80).c_str()); fflush(out);
  }
  fclose(out);
}
