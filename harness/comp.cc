// Component driver: the classes under fbstab/components as a client would combine them. A world has three
// variables, two residuals, a feasibility checker, a linear solver and up to two problems of one size.
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "tools/matrix_sequence.h"
using namespace fbstab;
using Eigen::Map; using Eigen::MatrixXd; using Eigen::VectorXd;
#include "case.h"

struct Prob {                       // one problem and the memory behind it
  int kind; Case c; Case copy;
  std::map<std::string, MatrixXd> mats; std::map<std::string, VectorXd> vecs;
  std::map<std::string, MatrixSequence> seqs; std::map<std::string, MapMatrixSequence> maps;
  std::unique_ptr<DenseData> dense; std::unique_ptr<MpcData> mpc;
  Data* data() { return kind ? static_cast<Data*>(mpc.get()) : static_cast<Data*>(dense.get()); }
  bool intact() {
    for (auto& kv : c.a) {
      const Vd& o = copy.a[kv.first].d; const double* p = kv.second.d.data();
      if (mats.count(kv.first)) p = mats[kv.first].data();
      if (vecs.count(kv.first)) p = vecs[kv.first].data();
      if (seqs.count(kv.first)) p = seqs[kv.first].data();
      if (o.size() && memcmp(p, o.data(), 8 * o.size())) return false;
    }
    return true;
  }
};
static std::map<int, Case> cases;
struct World {
  int kind, nz, nl, nv;
  std::unique_ptr<FullVariable> x[3]; std::unique_ptr<FullResidual> r[2]; std::unique_ptr<FullFeasibility> f;
  std::unique_ptr<DenseCholeskySolver> ld; std::unique_ptr<RiccatiLinearSolver> lm;
  std::unique_ptr<Prob> p[2];
};
static std::unique_ptr<World> W;
static bool factored = false;     // Solve is only defined after a successful Initialize

static std::unique_ptr<Prob> make(const Case& c, int mapped) {
  auto q = std::unique_ptr<Prob>(new Prob); q->kind = c.kind; q->c = c; q->copy = c;
  auto& a = q->c.a;
  if (!c.kind) {
    if (mapped) {
      auto M = [&](const char* n) { return Map<const MatrixXd>(a[n].d.data(), a[n].r, a[n].c); };
      auto V = [&](const char* n) { return Map<const VectorXd>(a[n].d.data(), a[n].d.size()); };
      auto H = M("H"), G = M("G"), A = M("A"); auto f = V("f"), h = V("h"), b = V("b");
      q->dense.reset(new DenseData(&H, &f, &G, &h, &A, &b));
    } else {
      for (const char* n : {"H", "G", "A"}) q->mats[n] = mat(a[n]);
      for (const char* n : {"f", "h", "b"}) q->vecs[n] = tov(a[n].d);
      q->dense.reset(new DenseData(&q->mats["H"], &q->vecs["f"], &q->mats["G"], &q->vecs["h"], &q->mats["A"], &q->vecs["b"]));
    }
  } else if (mapped) {
    for (auto& kv : a) if (kv.first != "x0") q->maps[kv.first] = MapMatrixSequence(kv.second.d.data(), kv.second.len, kv.second.r, kv.second.c);
    auto& m = q->maps; Map<const VectorXd> x0(a["x0"].d.data(), a["x0"].d.size());
    q->mpc.reset(new MpcData(&m["Q"], &m["R"], &m["S"], &m["q"], &m["r"], &m["A"], &m["B"], &m["c"], &m["E"], &m["L"], &m["d"], &x0));
  } else {
    for (auto& kv : a) if (kv.first != "x0") q->seqs[kv.first] = seq(kv.second);
    auto& m = q->seqs; q->vecs["x0"] = tov(a["x0"].d);
    q->mpc.reset(new MpcData(&m["Q"], &m["R"], &m["S"], &m["q"], &m["r"], &m["A"], &m["B"], &m["c"], &m["E"], &m["L"], &m["d"], &q->vecs["x0"]));
  }
  return q;
}
static void app(Vd& o, const VectorXd& v) { o.insert(o.end(), v.data(), v.data() + v.size()); }
static Vd snapshot() {
  Vd o;
  for (auto& x : W->x) { app(o, x->z()); app(o, x->l()); app(o, x->v()); app(o, x->y()); o.push_back(x->Norm()); }
  for (auto& r : W->r) { app(o, r->z()); app(o, r->l()); app(o, r->v());
    for (double t : {r->z_norm(), r->l_norm(), r->v_norm(), r->Norm(), r->Merit()}) o.push_back(t); }
  return o;
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]); out = fopen(argv[2], "w"); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string op; is >> op; std::string what; int exc = 0; Vd y; int flag = 0; int untouched = 1;
    auto I = [&] { int t = 0; is >> t; return t; };
    if (op == "C") { int id; Case c = readCase(is, &id); cases[id] = c; fprintf(out, "{\"k\":\"C\"}\n"); fflush(out); continue; }
    if (op == "W") {               // a new world for problems shaped like case id
      const Case& c = cases[I()]; W.reset(); W.reset(new World); factored = false; W->kind = c.kind;
      const int* d = c.dims;
      if (!c.kind) { W->nz = d[0]; W->nl = d[1]; W->nv = d[2]; W->ld.reset(new DenseCholeskySolver(d[0], d[1], d[2])); }
      else { W->nz = (d[0] + 1) * (d[1] + d[2]); W->nl = (d[0] + 1) * d[1]; W->nv = (d[0] + 1) * d[3]; W->lm.reset(new RiccatiLinearSolver(d[0], d[1], d[2], d[3])); }
      for (auto& x : W->x) x.reset(new FullVariable(W->nz, W->nl, W->nv));
      for (auto& r : W->r) r.reset(new FullResidual(W->nz, W->nl, W->nv));
      W->f.reset(new FullFeasibility(W->nz, W->nl, W->nv));
    } else if (op == "D") {        // problem slot, case, mapped -> forcing norm
      int s = I(), id = I(), m = I();
      exc = guard([&] { W->p[s] = make(cases[id], m); y.push_back(W->p[s]->data()->ForcingNorm()); }, &what);
    } else if (op == "M") {        // problem, operator, a, b, x, y (nan allowed) -> y
      int s = I(), o = I(); double a = readNum(is), b = readNum(is); Vd x0 = readVec(is), y0 = readVec(is); int null = I();
      VectorXd x = tov(x0), yy = tov(y0); VectorXd* py = null ? nullptr : &yy; Data* d = W->p[s]->data();
      exc = guard([&] {
        switch (o) {
          case 0: d->gemvH(x, a, b, py); break; case 1: d->gemvA(x, a, b, py); break; case 2: d->gemvG(x, a, b, py); break;
          case 3: d->gemvAT(x, a, b, py); break; case 4: d->gemvGT(x, a, b, py); break;
          case 5: d->axpyf(a, py); break; case 6: d->axpyh(a, py); break; case 7: d->axpyb(a, py); break;
        } }, &what);
      untouched = (size_t)x.size() == x0.size() && (x0.empty() || !memcmp(x.data(), x0.data(), 8 * x0.size()));
      y = fromv(yy);
    } else if (op[0] == 'V') {
      FullVariable& x = *W->x[I()];
      exc = guard([&] { switch (op[1]) {
        case 'N': x.LinkData(W->p[I()]->data()); break;
        case 'S': x.z() = tov(readVec(is)); x.l() = tov(readVec(is)); x.v() = tov(readVec(is)); break;
        case 'I': x.InitializeConstraintMargin(); break;
        case 'F': x.Fill(readNum(is)); break;
        case 'C': x.Copy(*W->x[I()]); break;
        case 'A': { double a = readNum(is); x.axpy(a, *W->x[I()]); break; }
        case 'P': x.ProjectDuals(); break;
      } }, &what);
    } else if (op[0] == 'R') {
      FullResidual& r = *W->r[I()];
      exc = guard([&] { switch (op[1]) {
        case 'N': r.LinkData(W->p[I()]->data()); break;
        case 'L': r.SetAlpha(readNum(is)); break;
        case 'F': r.Fill(readNum(is)); break;
        case 'G': r.Negate(); break;
        case 'I': { int a = I(), b = I(); r.InnerResidual(*W->x[a], *W->x[b], readNum(is)); break; }
        case 'T': r.NaturalResidual(*W->x[I()]); break;
        case 'P': r.PenalizedNaturalResidual(*W->x[I()]); break;
      } }, &what);
    } else if (op == "FN") { W->f->LinkData(W->p[I()]->data());
    } else if (op == "FC") {
      int s = I(); double tol = readNum(is); typedef FullFeasibility::FeasibilityStatus S;
      exc = guard([&] { S t = W->f->CheckFeasibility(*W->x[s], tol);
        flag = t == S::FEASIBLE ? 0 : t == S::PRIMAL_INFEASIBLE ? 1 : t == S::DUAL_INFEASIBLE ? 2 : t == S::BOTH ? 3 : 9; }, &what);
    } else if (op == "LN") { int s = I(); if (W->ld) W->ld->LinkData(W->p[s]->dense.get()); else W->lm->LinkData(W->p[s]->mpc.get());
    } else if (op == "LL") { double a = readNum(is); if (W->ld) W->ld->SetAlpha(a); else W->lm->SetAlpha(a);
    } else if (op == "LI") { int a = I(), b = I(); double s = readNum(is);
      factored = false;
      exc = guard([&] { flag = W->ld ? W->ld->Initialize(*W->x[a], *W->x[b], s) : W->lm->Initialize(*W->x[a], *W->x[b], s); }, &what); factored = !exc && flag;
    } else if (op == "LS") { int a = I(), b = I();
      if (factored) exc = guard([&] { flag = W->ld ? W->ld->Solve(*W->r[a], W->x[b].get()) : W->lm->Solve(*W->r[a], W->x[b].get()); }, &what);
    } else continue;
    int intact = 1;
    if (W) for (auto& p : W->p) if (p && !p->intact()) intact = 0;
    fprintf(out, "{\"k\":\"%s\",\"exc\":%d,\"flag\":%d,\"untouched\":%d,\"intact\":%d", op.c_str(), exc, flag, untouched, intact);
    pv("y", y); pv("st", snapshot());
    fprintf(out, "}\n"); fflush(out);
  }
  fclose(out);
}
