// The real algorithm template over components that answer from a table: one line of input is one behaviour of
// spec/tla/Prox.tla, and the run must end as the behaviour does.
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include "fbstab/fbstab_algorithm.h"
using namespace fbstab; using Eigen::VectorXd;

static const double kZ = 1.0 / 1024, kE = 1.0 / 512, kSigma = 1.0 / (1 << 20), kAlpha = 0.5, kTol = 0.125;
typedef std::pair<long, long> Pt; typedef std::pair<Pt, Pt> PP;
static const Pt kNowhere(-1L << 40, 0);

// ---- values as printed by TLC
struct Val { char k; long n; std::string s; std::vector<Val> c; };
static Val parse(const char*& p) {
  Val v; v.k = 'n'; v.n = 0;
  while (*p == ' ' || *p == ',') p++;
  if (*p == '<' || *p == '{') {
    bool t = *p == '<'; p += t ? 2 : 1; v.k = 't';
    for (;;) {
      while (*p == ' ' || *p == ',') p++;
      if (!*p) break;
      if (t && p[0] == '>' && p[1] == '>') { p += 2; break; }
      if (!t && *p == '}') { p++; break; }
      v.c.push_back(parse(p));
    }
  } else if (*p == '"') { v.k = 's'; p++; while (*p && *p != '"') v.s += *p++; p++; }
  else if (*p == 'T') { v.n = 1; p += 4; } else if (*p == 'F') { p += 5; }
  else { char* e; v.n = strtol(p, &e, 10); if (e == p) e++; p = e; }
  return v;
}
static Pt pt(const Val& v) { return Pt(v.c[0].n, v.c[1].n); }

// ---- the world
struct Step { Pt d; std::string kind; };
struct World { std::map<Pt, long> E; std::map<PP, long> I; std::map<PP, Step> D; std::map<Pt, std::string> V; } static W;
static std::vector<PP> calls; static int solved, perCentre, maxPerCentre; static bool wrongUse;

struct WData { double ForcingNorm() const { return 1.0; } };
struct WVar {
  VectorXd z_ = VectorXd::Zero(1), l_ = VectorXd::Zero(0), v_ = VectorXd::Zero(1), y_ = VectorXd::Zero(1);
  const WData* data = nullptr;
  void LinkData(const WData* d) { data = d; }
  void Fill(double a) { z_.setConstant(a); v_.setConstant(a); InitializeConstraintMargin(); }
  void InitializeConstraintMargin() { y_ = 3.0 * z_; }
  void axpy(double a, const WVar& x) { z_ += a * x.z_; v_ += a * x.v_; y_ += a * x.y_; }
  void Copy(const WVar& x) { z_ = x.z_; v_ = x.v_; y_ = x.y_; data = x.data; }
  void ProjectDuals() { v_ = v_.cwiseMax(0); }
  double Norm() const { return std::sqrt(z_.squaredNorm() + v_.squaredNorm()); }
  bool SameSize(const WVar&) const { return true; }
  VectorXd& z() { return z_; } const VectorXd& z() const { return z_; }
  VectorXd& l() { return l_; } const VectorXd& l() const { return l_; }
  VectorXd& v() { return v_; } const VectorXd& v() const { return v_; }
  VectorXd& y() { return y_; } const VectorXd& y() const { return y_; }
  Pt at() const {
    double a = z_(0) / kZ, b = v_(0) / kZ;
    if (!(std::fabs(a) < 1e12 && std::fabs(b) < 1e12) || a != std::floor(a) || b != std::floor(b)) return kNowhere;
    return Pt((long)a, (long)b);
  }
};
struct WRes {
  double n = 0, alpha = 0; int kind = 0, sign = 1; Pt x, q; const WData* data = nullptr;
  void SetAlpha(double a) { alpha = a; }
  void LinkData(const WData* d) { data = d; }
  void Fill(double a) { n = std::fabs(a); kind = 0; sign = 1; }
  void Negate() { sign = -sign; }
  double Norm() const { return n; }
  double Merit() const { return 0.5 * n * n; }
  double z_norm() const { return n; } double l_norm() const { return 0; } double v_norm() const { return 0; }
  bool SameSize(const WVar&) const { return true; }
  void ok() { if (alpha != kAlpha || !data) wrongUse = true; }
  void InnerResidual(const WVar& a, const WVar& b, double sigma) {
    ok(); if (sigma != kSigma) wrongUse = true;
    kind = 1; sign = 1; x = a.at(); q = b.at();
    auto it = W.I.find(PP(x, q)); n = it == W.I.end() ? 0.0 : it->second * kE;
  }
  void NaturalResidual(const WVar& a) { PenalizedNaturalResidual(a); kind = 2; }
  void PenalizedNaturalResidual(const WVar& a) {
    ok(); kind = 3; sign = 1; x = a.at();
    auto it = W.E.find(x); n = it == W.E.end() ? 0.0 : it->second * kE;
  }
};
struct WLin {
  Pt x, q; double alpha = 0; const WData* data = nullptr; std::string kind; Pt d;
  void SetAlpha(double a) { alpha = a; }
  void LinkData(const WData* p) { data = p; }
  bool Initialize(const WVar& a, const WVar& b, double sigma) {
    if (sigma != kSigma || alpha != kAlpha || !data) wrongUse = true;
    x = a.at(); q = b.at();
    if (calls.empty() || calls.back().second != q) perCentre = 0;
    perCentre++; maxPerCentre = std::max(maxPerCentre, perCentre);
    calls.push_back(PP(x, q));
    if (calls.size() > 10000) throw std::logic_error("runs on");
    auto it = W.D.find(PP(x, q)); kind = it == W.D.end() ? "ok" : it->second.kind; d = it == W.D.end() ? Pt(0, 0) : it->second.d;
    return kind != "init";
  }
  bool Solve(const WRes& r, WVar* dx) const {
    // the right-hand side has to be minus the residual of the subproblem at the point factorised
    bool right = r.kind == 1 && r.sign == -1 && r.x == x && r.q == q;
    if (kind == "solve") return false;
    solved++;
    double s = right ? kZ : -kZ;
    dx->z_(0) = s * d.first; dx->v_(0) = s * d.second; dx->InitializeConstraintMargin();
    return true;
  }
};
struct WFeas {
  enum class FeasibilityStatus { FEASIBLE = 0, PRIMAL_INFEASIBLE = 1, DUAL_INFEASIBLE = 2, BOTH = 3 };
  const WData* data = nullptr;
  void LinkData(const WData* p) { data = p; }
  FeasibilityStatus CheckFeasibility(const WVar& x, double tol) {
    if (tol != kTol || !data) wrongUse = true;
    auto it = W.V.find(x.at());
    if (it == W.V.end() || it->second == "SUCCESS") return FeasibilityStatus::FEASIBLE;
    return it->second == "PRIMAL_INFEASIBLE" ? FeasibilityStatus::PRIMAL_INFEASIBLE
         : it->second == "DUAL_INFEASIBLE" ? FeasibilityStatus::DUAL_INFEASIBLE : FeasibilityStatus::BOTH;
  }
};
struct Silent { void Print(const char*) const {} };
typedef FBstabAlgorithm<WVar, WRes, WLin, WFeas> Algo;
struct Solver {
  WVar x1, x2, x3, x4; WRes r1, r2; WLin l; WFeas f; Algo a;
  Solver() : a(&x1, &x2, &x3, &x4, &r1, &r2, &l, &f) {}
};

struct Want { long exc, n, k, res; std::string flag; Pt p; };
struct Obs { int exc = 0; SolverOut o; VectorXd g[4]; bool untouched = false, wrongUse = false; std::vector<PP> calls; int solved = 0, inner = 0; Pt p; };
static const char* flagName(ExitFlag f) {
  return f == ExitFlag::SUCCESS ? "SUCCESS" : f == ExitFlag::MAXITERATIONS ? "MAXITERATIONS" : f == ExitFlag::PRIMAL_INFEASIBLE ? "PRIMAL_INFEASIBLE"
       : f == ExitFlag::DUAL_INFEASIBLE ? "DUAL_INFEASIBLE" : f == ExitFlag::PRIMAL_DUAL_INFEASIBLE ? "PRIMAL_DUAL_INFEASIBLE" : "DIVERGENCE";
}

static Obs run(Solver& s, const AlgorithmParameters& op, Pt start) {
  Obs b; s.a.UpdateParameters(&op);
  for (int i = 0; i < 4; i++) b.g[i] = VectorXd::Zero(i == 1 ? 0 : 1);
  b.g[0](0) = start.first * kZ; b.g[2](0) = start.second * kZ; b.g[3](0) = -77;
  VectorXd z = b.g[0], v = b.g[2], y = b.g[3];
  WData d; Silent os; calls.clear(); solved = perCentre = maxPerCentre = 0; ::wrongUse = false;
  try { b.o = s.a.Solve(d, &b.g[0], &b.g[1], &b.g[2], &b.g[3], os); }
  catch (const std::runtime_error&) { b.exc = 1; }
  catch (...) { b.exc = 2; }
  b.untouched = b.g[0] == z && b.g[2] == v && b.g[3] == y;
  b.calls = calls; b.solved = solved; b.inner = maxPerCentre; b.wrongUse = ::wrongUse;
  WVar w; w.z_ = b.g[0]; w.v_ = b.g[2]; b.p = w.at();
  return b;
}
static bool agrees(const Obs& b, const Want& w) {
  if (b.exc != w.exc || b.wrongUse) return false;
  if (b.exc) return b.untouched;
  return w.flag == flagName(b.o.eflag) && b.o.newton_iters == w.n && b.o.prox_iters == w.k && b.o.residual == w.res * kE && b.p == w.p &&
         b.g[3](0) == 3 * b.g[0](0) && b.g[0](0) == w.p.first * kZ && b.g[2](0) == w.p.second * kZ;
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); std::string line; long n = 0, bad = 0, newton = 0, multi = 0;
  std::unique_ptr<Solver> used(new Solver);
  while (std::getline(in, line)) {
    std::string t; for (size_t i = 0; i < line.size(); i++) if (line[i] != '\\') t += line[i];
    if (t.size() < 4) continue;
    const char* p = t.c_str(); if (*p == '"') p++;
    Val b = parse(p); if (b.k != 't' || b.c.size() != 7) { fprintf(stderr, "bad line %s\n", line.c_str()); return 3; }
    const auto& o = b.c[0].c; Pt start = pt(b.c[1]); W = World();
    for (auto& e : b.c[2].c) W.E[pt(e.c[0])] = e.c[1].n;
    for (auto& e : b.c[3].c) W.I[PP(pt(e.c[0].c[0]), pt(e.c[0].c[1]))] = e.c[1].n;
    std::vector<std::pair<Pt, PP>> order; bool fails = false;
    for (auto& e : b.c[4].c) {
      PP k(pt(e.c[0].c[0]), pt(e.c[0].c[1])); Step s = {pt(e.c[1].c[0]), e.c[1].c[1].s};
      W.D[k] = s; order.push_back(std::make_pair(s.d, k)); fails = fails || s.kind != "ok";
    }
    std::sort(order.begin(), order.end());
    for (auto& e : b.c[5].c) W.V[pt(e.c[0])] = e.c[1].s;
    const auto& r = b.c[6].c; Want w = {r[0].n, r[2].n, r[3].n, r[5].n, r[1].s, pt(r[4])};
    AlgorithmParameters op; op.DefaultParameters();
    op.sigma0 = kSigma; op.sigma_max = 1e-5; op.sigma_min = 1e-10; op.alpha = kAlpha; op.beta = 0.5; op.eta = 7.0 / 32; op.delta = 0.5; op.gamma = 0.1;
    op.abs_tol = 0.5; op.rel_tol = 0.25; op.infeas_tol = kTol; op.inner_tol_min = 4 * kE; op.inner_tol_max = o[7].n * kE;
    op.max_newton_iters = o[0].n; op.max_prox_iters = o[1].n; op.max_inner_iters = o[2].n; op.max_linesearch_iters = o[3].n;
    op.nonmonotone_linesearch = o[4].n; op.check_feasibility = o[5].n; op.stall_tol = o[6].n ? o[6].n * kZ : 1e-12; op.display_level = Display::OFF;
    n++; newton += w.n; multi += w.n >= 2;
    Obs a = run(*used, op, start); bool good = agrees(a, w), hist = false;
    if (!good) {                                 // is it the object's history?
      Solver fresh; Obs c = run(fresh, op, start);
      if (agrees(c, w)) hist = true; else a = c;
      used.reset(new Solver);
    }
    if (good) continue;
    std::set<int> codes; codes.insert(2201);
    if (hist) codes.insert(791);
    std::string fl = a.exc ? "EXCEPTION" : flagName(a.o.eflag);
    if (!a.exc) {
      bool point = fl == "SUCCESS" || fl == "MAXITERATIONS", newt = a.o.newton_iters >= op.max_newton_iters, prox = a.o.prox_iters >= op.max_prox_iters;
      if (a.o.newton_iters > op.max_newton_iters || a.o.prox_iters > op.max_prox_iters || a.inner > op.max_inner_iters || a.o.newton_iters != a.solved ||
          (fl == "MAXITERATIONS" && !newt && !prox)) codes.insert(591);
      if (point && W.E.count(a.p) && a.o.residual != W.E[a.p] * kE) codes.insert(291);
      if ((point && a.o.prox_iters > 0 && a.g[2](0) < 0) || a.g[3](0) != 3 * a.g[0](0) || a.o.initial_residual != W.E[start] * kE) codes.insert(291);
      if (fl == "SUCCESS" && W.E.count(a.p) && W.E[a.p] > 512 && (o[6].n == 0 || a.o.prox_iters == 0)) codes.insert(191);
      if (!point && (!op.check_feasibility || !W.V.count(a.p) || W.V[a.p] != fl)) codes.insert(391);
      if (fl == "MAXITERATIONS" && newt && !prox && w.flag == fl && w.n >= op.max_newton_iters && w.k < op.max_prox_iters && a.p != w.p) {
        bool same = a.calls.size() == order.size(); for (size_t i = 0; same && i < order.size(); i++) same = a.calls[i] == order[i].second;
        if (same) codes.insert(691);
      }
      if (fl == "MAXITERATIONS" && newt && !prox && !a.calls.empty() && W.E.count(a.p) && W.E.count(a.calls.back().second) && W.E[a.p] > W.E[a.calls.back().second]) codes.insert(691);
    }
    if (W.E[start] <= 512 && !(fl == "SUCCESS" && a.o.newton_iters == 0 && a.o.prox_iters == 0 && a.p == start)) codes.insert(1991);
    if (fails && (a.exc != 1 || !a.untouched)) {
      bool met = false; for (auto& c : a.calls) met = met || (W.D.count(c) && W.D[c].kind != "ok");
      if (met) codes.insert(2191);
    }
    if (a.exc == 2 || (a.exc == 1 && !fails)) codes.insert(2192);
    size_t i = 0; while (i < a.calls.size() && i < order.size() && a.calls[i] == order[i].second) i++;
    Pt centre = i ? order[i - 1].second.second : start;
    bool haveA = i < a.calls.size(), haveW = i < order.size();
    if ((haveA && haveW && a.calls[i].second == order[i].second.second) || (haveA && a.calls[i].second == centre && !(haveW && order[i].second.second == centre)) ||
        (haveW && order[i].second.second == centre && !(haveA && a.calls[i].second == centre) && !a.exc && a.o.newton_iters < op.max_newton_iters)) codes.insert(2091);
    bad++;
    if (bad <= 400) {
      fprintf(out, "{\"codes\":[");
      bool f = true; for (int c : codes) { fprintf(out, "%s%d", f ? "" : ",", c); f = false; }
      fprintf(out, "],\"got\":{\"exc\":%d,\"flag\":\"%s\",\"newton\":%d,\"prox\":%d,\"residual\":%.17g,\"at\":[%ld,%ld],\"wrong_use\":%d},\"want\":{\"exc\":%ld,\"flag\":\"%s\",\"newton\":%ld,\"prox\":%ld,\"residual\":%.17g,\"at\":[%ld,%ld]},\"behaviour\":%s}\n",
              a.exc, fl.c_str(), a.exc ? -1 : a.o.newton_iters, a.exc ? -1 : a.o.prox_iters, a.exc ? 0.0 : a.o.residual, a.p.first, a.p.second, a.wrongUse, w.exc, w.flag.c_str(), w.n, w.k, w.res * kE, w.p.first, w.p.second, line.c_str());
    }
  }
  fprintf(out, "{\"total\":%ld,\"bad\":%ld,\"newton\":%ld,\"multi\":%ld}\n", n, bad, newton, multi); fclose(out);
  return 0;
}
