// The sparse factorisation wrapper: executes operations, reports answers that are integers.
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <memory>
#include <sstream>
#include <vector>
#include "tools/qdldl/qdldl_wrapper.h"
using fbstab::QdldlWrapper;
struct Slot { int n = 0; std::vector<int> i, j; std::unique_ptr<QdldlWrapper> q; };
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); std::string line; std::vector<Slot> slot(3);
  while (std::getline(in, line)) {
    std::istringstream is(line); std::vector<int> o; int k; while (is >> k) o.push_back(k);
    std::vector<double> res; int exc = 0;
    try {
      if (o[0] == 0) { slot.clear(); slot.resize(3); }
      else { Slot& s = slot[o[1]];
        if (o[0] == 1) { s.n = o[2]; s.i.clear(); s.j.clear(); for (int e = 0; e < o[3]; e++) { s.i.push_back(o[4 + 2 * e]); s.j.push_back(o[5 + 2 * e]); }
          // (the arrays the object was analysed from do not outlive the call)
          std::vector<int> p(s.n + 1, 0), r(s.i); for (int c : s.j) p[c + 1]++; for (int c = 0; c < s.n; c++) p[c + 1] += p[c];
          s.q.reset(new QdldlWrapper(s.n, p.data(), r.data())); p.assign(p.size(), -7); r.assign(r.size(), -7); }
        if (o[0] == 2) { Eigen::SparseMatrix<double> A(s.n, s.n); std::vector<int> p(s.n, 0); for (int c : s.j) p[c]++; A.reserve(p);
          for (size_t e = 0; e < s.i.size(); e++) A.insert(s.i[e], s.j[e]) = o[2 + e]; A.makeCompressed(); s.q->Factor(A); }
        if (o[0] == 3) { Eigen::VectorXd x(s.n); for (int i = 0; i < s.n; i++) x(i) = o[2 + i]; s.q->Solve(&x); res.assign(x.data(), x.data() + x.size()); }
        if (o[0] == 4) { Slot& t = slot[o[2]]; s.n = t.n; s.i = t.i; s.j = t.j; s.q.reset(t.q ? new QdldlWrapper(*t.q) : nullptr); }
      }
    } catch (...) { exc = 1; }
    fprintf(out, "{\"k\":\"s\",\"exc\":%d,\"x\":[", exc);
    for (size_t i = 0; i < res.size(); i++) fprintf(out, "%s%.0f", i ? "," : "", std::abs(res[i]) < 1e15 && res[i] == std::floor(res[i]) ? res[i] : 1152921504606846976.);
    fprintf(out, "]}\n"); fflush(out);
  }
  fclose(out);
}
