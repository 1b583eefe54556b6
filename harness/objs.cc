// Input structures and tools: executes operations and after each reports everything a client can see.
#include <Eigen/Dense>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "tools/utilities.h"
using namespace fbstab; using Eigen::Map; using Eigen::MatrixXd; using Eigen::VectorXd;
typedef FBstabDense D; typedef FBstabMpc M;
static double mem[3][48];
static M::ProblemData own[2];
struct Slot { int kind = 0; std::unique_ptr<D::VariableRef> dv; std::unique_ptr<M::VariableRef> mv; std::unique_ptr<D::ProblemDataRef> dd; std::unique_ptr<M::ProblemDataRef> md; };
static Slot slot[4];
static FILE* out;
static std::vector<double> obs, res;
static void put(double x) { obs.push_back(x); }
template <class X> static void show(const X& m) {                      // one matrix or vector
  put(1); put(m.rows()); put(m.cols());
  for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) put(m(i, j));
}
static void showSeq(const MapMatrixSequence& q) {
  put(q.length()); put(q.rows()); put(q.cols());
  for (int k = 0; k < q.length(); k++) { auto m = q(k); for (int j = 0; j < q.cols(); j++) for (int i = 0; i < q.rows(); i++) put(m(i, j)); }
}
static MatrixSequence* arr(M::ProblemData& p, int k) {
  MatrixSequence* q[] = {&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d}; return q[k];
}
static void look() {
  obs.clear();
  for (auto& b : mem) for (double x : b) put(x);
  for (auto& s : slot) {
    put(s.kind);
    if (s.kind == 1) { show(s.dv->z); show(s.dv->l); show(s.dv->v); show(s.dv->y); }
    if (s.kind == 2) { show(s.mv->z); show(s.mv->l); show(s.mv->v); show(s.mv->y); }
    if (s.kind == 3) { auto& p = *s.dd; show(p.H); show(p.G); show(p.A); show(p.f); show(p.h); show(p.b); }
    if (s.kind == 4) { auto& p = *s.md; for (auto* q : {&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d}) showSeq(*q); show(p.x0); }
  }
}
// leave nonzero bytes in the free lists
static void dirt() { std::vector<void*> p; for (int n = 8; n < 900; n += 8) for (int k = 0; k < 3; k++) { void* q = malloc(n); memset(q, 0x41, n); p.push_back(q); } for (void* q : p) free(q); }
template <class V> static void sizes(const V& x) {
  res = {(double)x.z.size(), (double)x.l.size(), (double)x.v.size(), (double)x.y.size(),
         (double)((x.z.array() != 0).count() + (x.l.array() != 0).count() + (x.v.array() != 0).count() + (x.y.array() != 0).count())};
}
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); out = fopen(argv[2], "w"); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::vector<int> o, alive(4); int n; is >> n; o.resize(n); for (int& x : o) is >> x; for (int& x : alive) is >> x;
    o.resize(16); const int s = o[1]; res.clear();
    auto V = [&](int b, int off, int n) { return Map<VectorXd>(mem[b] + off, n); };
    auto X = [&](int b, int off, int r, int c) { return Map<MatrixXd>(mem[b] + off, r, c); };
    try {
      switch (o[0]) {
      case 0: for (auto& p : slot) p = Slot(); for (auto& p : own) p = M::ProblemData();
        for (int b = 0; b < 3; b++) for (int i = 0; i < 48; i++) mem[b][i] = 1000 * (b + 1) + i; break;
      case 1: dirt();
        if (s == 0) sizes(D::Variable(o[2], o[3], o[4])); else if (s == 1) sizes(M::Variable(o[2], o[3], o[4], o[5]));
        else if (s == 2) sizes(M::Variable(Eigen::Vector4d(o[2], o[3], o[4], o[5])));
        else { D::ProblemData p(o[2], o[3], o[4]);
          for (auto k : {p.H.rows(), p.H.cols(), p.G.rows(), p.G.cols(), p.A.rows(), p.A.cols(), p.f.size(), p.h.size(), p.b.size()}) res.push_back(k); }
        break;
      case 2: { auto z = V(o[3], o[4], o[5]), l = V(o[3], o[6], o[7]), v = V(o[3], o[8], o[9]), y = V(o[3], o[10], o[11]); slot[s] = Slot(); slot[s].kind = o[2];
        if (o[2] == 1) slot[s].dv.reset(new D::VariableRef(&z, &l, &v, &y)); else slot[s].mv.reset(new M::VariableRef(z, l, v, y)); break; }
      case 3: if (slot[s].dv) slot[s].dv->fill(o[2]); else slot[s].mv->fill(o[2]); break;
      case 4: mem[s][o[2]] = o[3]; break;
      case 5: { Map<VectorXd>* f; if (slot[s].dv) { auto& x = *slot[s].dv; Map<VectorXd>* q[] = {&x.z, &x.l, &x.v, &x.y}; f = q[o[2]]; }
                else { auto& x = *slot[s].mv; Map<VectorXd>* q[] = {&x.z, &x.l, &x.v, &x.y}; f = q[o[2]]; } (*f)(o[3]) = o[4]; break; }
      case 6: { const int b = o[2], nz = o[3], nl = o[4], nv = o[5]; auto H = X(b, o[6], nz, nz), G = X(b, o[8], nl, nz), A = X(b, o[10], nv, nz);
        auto f = V(b, o[7], nz), h = V(b, o[9], nl), bb = V(b, o[11], nv); slot[s] = Slot(); slot[s].kind = 3; slot[s].dd.reset(new D::ProblemDataRef(&H, &f, &G, &h, &A, &bb)); break; }
      case 7: { const int N = o[3], x = o[4], u = o[5], c = o[6]; M::ProblemData& p = own[o[2]];
        for (int i = 0; i < 4; i++) if (!alive[i]) slot[i] = Slot();
        p.Q = MatrixSequence(N + 1, x, x); p.R = MatrixSequence(N + 1, u, u); p.S = MatrixSequence(N + 1, u, x); p.q = MatrixSequence(N + 1, x); p.r = MatrixSequence(N + 1, u);
        p.A = MatrixSequence(N, x, x); p.B = MatrixSequence(N, x, u); p.c = MatrixSequence(N, x); p.E = MatrixSequence(N + 1, c, x); p.L = MatrixSequence(N + 1, c, u); p.d = MatrixSequence(N + 1, c);
        p.x0.resize(x);
        for (int k = 0; k < 11; k++) for (int i = 0; i < arr(p, k)->size(); i++) arr(p, k)->data()[i] = o[7] + 100 * k + i;
        for (int i = 0; i < x; i++) p.x0(i) = o[7] + 1100 + i;
        slot[s] = Slot(); slot[s].kind = 4; slot[s].md.reset(new M::ProblemDataRef(&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d, &p.x0)); break; }
      case 8: { auto x0 = V(o[2], o[3], o[4]); slot[s].md->SetX0(x0); break; }
      case 9: if (o[2] < 11) arr(own[s], o[2])->data()[o[3]] = o[4]; else own[s].x0(o[3]) = o[4]; break;
      case 10: slot[s] = Slot(); slot[s].kind = 4; slot[s].md.reset(new M::ProblemDataRef()); break;
      case 11: { Slot& t = slot[o[2]]; Slot q; q.kind = t.kind;
        if (t.dv) q.dv.reset(new D::VariableRef(*t.dv)); if (t.mv) q.mv.reset(new M::VariableRef(*t.mv));
        if (t.dd) q.dd.reset(new D::ProblemDataRef(*t.dd)); if (t.md) q.md.reset(new M::ProblemDataRef(*t.md)); slot[s] = std::move(q); break; }
      case 12: try { res = {0, (double)tools::saturate(s, o[2], o[3])}; } catch (const std::runtime_error&) { res = {1}; }
        if (res[0] == 0 && tools::saturate(s * .5, o[2] * .5, o[3] * .5) != res[1] * .5) res[1] = -99; break;
      case 13: slot[s] = Slot(); break;
      }
    } catch (const std::runtime_error&) { res = {-1}; } catch (const EigenAssertion&) { res = {-3}; } catch (...) { res = {-4}; }
    for (int i = 0; i < 4; i++) if (!alive[i]) slot[i] = Slot();
    look();
    fprintf(out, "{\"k\":\"s\",\"r\":[");
    for (size_t i = 0; i < res.size(); i++) fprintf(out, "%s%.0f", i ? "," : "", res[i]);
    fprintf(out, "],\"o\":[");
    for (size_t i = 0; i < obs.size(); i++) fprintf(out, "%s%.0f", i ? "," : "", obs[i]);
    fprintf(out, "]}\n"); fflush(out);
  }
  fclose(out);
}
