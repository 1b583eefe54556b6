// What the solver objects store when options are updated.  With -DPRIV the parameters are read out of
// FBstabDense / FBstabMpc themselves, without it out of an FBstabAlgorithm instantiated here.
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#ifdef PRIV
#define private public
#endif
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#undef private
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
using namespace fbstab;
typedef std::vector<double> Vd;
#include "optfields.h"
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); std::string line;
#ifdef PRIV
  FBstabDense d(2, 1, 2); FBstabMpc m(1, 1, 1, 1);
#else
  FullVariable x1(2, 1, 2), x2(2, 1, 2), x3(2, 1, 2), x4(2, 1, 2); FullResidual r1(2, 1, 2), r2(2, 1, 2);
  DenseCholeskySolver ls(2, 1, 2); FullFeasibility fc(2, 1, 2);
  FBstabAlgorithm<FullVariable, FullResidual, DenseCholeskySolver, FullFeasibility> a(&x1, &x2, &x3, &x4, &r1, &r2, &ls, &fc);
#endif
  auto pv = [&](const Vd& v) { fprintf(out, "["); for (size_t i = 0; i < v.size(); i++) fprintf(out, "%s\"%a\"", i ? "," : "", v[i]); fprintf(out, "]"); };
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k; is >> k;
    Vd x(21); for (double& e : x) { std::string t; is >> t; e = strtod(t.c_str(), nullptr); }
    fprintf(out, "{\"k\":\"U\",\"got\":[");
    auto one = [&](auto upd, auto get, bool comma) {
      int exc = 0; try { upd(); } catch (...) { exc = 1; }
      fprintf(out, "%s{\"exc\":%d,\"o\":", comma ? "," : "", exc); pv(getOpts(get())); fprintf(out, "}"); };
#ifdef PRIV
    { FBstabDense::Options o; setOpts(&o, x); one([&] { d.UpdateOptions(o); }, [&] { return d.algorithm_->CurrentParameters(); }, false); }
    { FBstabMpc::Options o; setOpts(&o, x); one([&] { m.UpdateOptions(o); }, [&] { return m.algorithm_->CurrentParameters(); }, true); }
#else
    { AlgorithmParameters o; setOpts(&o, x); one([&] { a.UpdateParameters(&o); }, [&] { return a.CurrentParameters(); }, false); }
#endif
    fprintf(out, "]}\n");
  }
  fclose(out); return 0;
}
