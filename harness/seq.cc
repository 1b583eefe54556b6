// Matrix sequences: executes operations on three owned and three mapped sequences and two memory blocks, and after
// each reports everything a client can see.
#include <Eigen/Dense>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "tools/matrix_sequence.h"
using namespace fbstab;
typedef MatrixSequence S; typedef MapMatrixSequence M;
static std::unique_ptr<S> own[3]; static std::unique_ptr<M> ref[3]; static double mem[2][40];
static FILE* out;
template <class F> static int guard(F f) {
  try { f(); return 0; }
  catch (const std::out_of_range&) { return 2; }
  catch (const std::runtime_error&) { return 1; }
  catch (const EigenAssertion&) { return 3; }
  catch (...) { return 4; }
}
static std::vector<double> obs;
static void put(double x) { obs.push_back(x); }
template <class Q> static void elements(Q& q) {
  for (int k = 0; k < q.length(); k++) { auto m = q(k);
    if (m.rows() != q.rows() || m.cols() != q.cols()) { put(-99); return; }
    for (int j = 0; j < q.cols(); j++) for (int i = 0; i < q.rows(); i++) put(m(i, j)); }
}
template <class Q> static void head(Q& q) {
  put(q.length()); put(q.rows()); put(q.cols()); put(q.size());
  for (int k : {-1, q.length(), q.length() + 1000}) put(guard([&] { q(k); }));
}
static void look(const std::vector<int>& alive) {
  obs.clear();
  for (auto& p : own) { S& q = *p; const S& c = q; head(q); elements(q); elements(c);
    for (int i = 0; i < c.size(); i++) put(c.data()[i]); }
  for (int m = 0; m < 3; m++) {
    if (!alive[m]) { put(-7); continue; }
    const M& c = *ref[m]; head(c);
    int kind = -1, src = 0; long off = 0;                 // whose memory does it show?
    if (c.size() == 0) kind = 0;
    else {
      for (int b = 0; b < 2; b++) if (c.data() >= mem[b] && c.data() < mem[b] + 40) { kind = 1; src = b; off = c.data() - mem[b]; }
      for (int s = 0; s < 3; s++) if (own[s]->size() > 0 && c.data() == own[s]->data()) { kind = 2; src = s; }
    }
    put(kind); put(src); put(off); elements(c);
    for (int i = 0; i < c.size(); i++) put(c.data()[i]);
  }
}
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); out = fopen(argv[2], "w"); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::vector<int> o, alive(3); int n; is >> n; o.resize(n); for (int& x : o) is >> x; for (int& x : alive) is >> x;
    int s = n > 1 ? o[1] : 0, t = n > 2 ? o[2] : 0;
    int exc = guard([&] { switch (o[0]) {
      case 0: for (auto& p : own) p.reset(new S); for (auto& p : ref) p.reset(new M);
        for (int b = 0; b < 2; b++) for (int i = 0; i < 40; i++) mem[b][i] = 1000 * (b + 1) + i; break;
      case 1: { std::unique_ptr<S> q(o[5] ? new S(o[2], o[3]) : new S(o[2], o[3], o[4]));
        for (int i = 0; i < q->size(); i++) q->data()[i] = o[6] + i; own[s] = std::move(q); break; }
      case 2: (*own[s])(t)(o[3], o[4]) = o[5]; break;
      case 3: own[s]->data()[t] = o[3]; break;
      case 4: own[s].reset(new S(*own[t])); break;
      case 5: *own[s] = *own[t]; break;
      case 6: own[s].reset(new S(std::move(*own[t]))); own[t].reset(new S); break;
      case 7: *own[s] = std::move(*own[t]); own[t].reset(new S); break;
      case 8: ref[s].reset(new M(o[7] ? nullptr : mem[t] + o[3], o[4], o[5], o[6])); break;
      case 9: ref[s].reset(new M(*own[t])); break;
      case 10: ref[s].reset(new M(*ref[t])); break;
      case 11: *ref[s] = *ref[t]; break;
      case 12: mem[s][t] = o[3]; break;
      case 13: own[s].reset(new S); break;
    } });
    look(alive);
    fprintf(out, "{\"k\":\"s\",\"exc\":%d,\"o\":[", exc);
    for (size_t i = 0; i < obs.size(); i++) fprintf(out, "%s%.0f", i ? "," : "", obs[i]);
    fprintf(out, "]}\n"); fflush(out);
  }
  fclose(out);
}
