// Public-API session driver.  Reads commands from a file, executes them on FBstabDense /
// FBstabMpc built from the working tree and writes one JSON line per command.
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <Eigen/Dense>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
using namespace fbstab;
using Eigen::Map; using Eigen::MatrixXd; using Eigen::VectorXd;
#include "case.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));     // present in sanitised builds
// Called after every line a solve of this thread prints: lets other solves run in the middle of it.
static thread_local std::function<void(int)> onPrint;
// Times at which a solve printed, and how long each print shall keep the processor busy (0: not recorded).
static double clk(clockid_t c) { timespec t; clock_gettime(c, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static thread_local double spin = 0;
static thread_local std::vector<double> stamps;
static thread_local double callTime[2];     // duration of the call on the monotonic and on the real-time clock
static void printed() { if (spin > 0) { double t = clk(CLOCK_THREAD_CPUTIME_ID); stamps.push_back(t); while (clk(CLOCK_THREAD_CPUTIME_ID) < t + spin) {} } }
struct Stopwatch { double m = clk(CLOCK_MONOTONIC), r = clk(CLOCK_REALTIME); ~Stopwatch() { callTime[0] = clk(CLOCK_MONOTONIC) - m; callTime[1] = clk(CLOCK_REALTIME) - r; } };

struct Capture : public OutputStream<Capture> {
  std::vector<std::string>* log;
  explicit Capture(std::vector<std::string>* l) : log(l) {}
 protected:
  void PrintImplementation(const char* m) const { log->push_back(m); printed(); if (onPrint) { auto f = std::move(onPrint); onPrint = nullptr; f(log->size()); onPrint = std::move(f); } }
  friend class OutputStream<Capture>;
};

// Memory with canaries on both sides.
struct Guarded {
  int P = 8 + parity();      // (declared first) half of the arrays are not 16 byte aligned
  Vd buf; size_t n;
  static int parity() { static thread_local int k = 0; k = (k * 5 + 3) % 16; return k >> 3; }
  static double canary(size_t i) { return -7.25e77 * (1 + i % 13); }
  Guarded() : n(0) {}
  explicit Guarded(const Vd& x) : buf(x.size() + 2 * P), n(x.size()) {
    for (size_t i = 0; i < buf.size(); i++) buf[i] = canary(i);
    for (size_t i = 0; i < n; i++) buf[P + i] = x[i];
  }
  double* p() { return buf.data() + P; }
  bool ok() const {
    if (buf.empty()) return true;
    for (int i = 0; i < P; i++) { double a = canary(i), b = canary(P + n + i);
      if (memcmp(&buf[i], &a, 8) || memcmp(&buf[P + n + i], &b, 8)) return false; }
    return true;
  }
  Vd val() const { return Vd(buf.begin() + P, buf.begin() + P + n); }
};

static bool same(const Vd& a, const double* b) { return a.empty() || memcmp(a.data(), b, 8 * a.size()) == 0; }
static bool sameV(const Vd& a, const Vd& b) { return a.size() == b.size() && same(a, b.data()); }

static std::map<int, Case> cases;
struct Slot { int kind = 0; std::unique_ptr<FBstabDense> d; std::unique_ptr<FBstabMpc> m; };
static std::map<int, Slot> slots;

static void ps(const char* k, const std::vector<std::string>& v) {
  fprintf(out, ",\"%s\":[", k);
  for (size_t i = 0; i < v.size(); i++) {
    fprintf(out, "%s\"", i ? "," : "");
    for (char c : v[i]) { if (c == '\n') fprintf(out, "\\n"); else if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
      else if ((unsigned char)c < 32) fprintf(out, "\\u%04x", c); else fputc(c, out); }
    fprintf(out, "\"");
  }
  fprintf(out, "]");
}

static long stdoutLen() { fflush(stdout); return (long)lseek(1, 0, SEEK_END); }

struct Guess { Vd z, l, v, y; };

template <class S, class P> SolverOut run(S& s, const P& qp, int gm, Guess& g, Guarded* gd, bool defstream, Capture& os, const std::vector<int>&);

struct Res { int exc = 0; std::string what; SolverOut o; Guess g; bool canary = true, intact = true; std::vector<std::string> log; long so = 0; };

template <class S, class P, class V, class VR, class MK>
static void solveG(S& s, const P& qp, int iface, Res* r, MK mkvar, bool defstream) {
  Capture os(&r->log);
  if (iface & 2) {
    Guarded z(r->g.z), l(r->g.l), v(r->g.v), y(r->g.y);
    Map<VectorXd> mz(z.p(), z.n), ml(l.p(), l.n), mv(v.p(), v.n), my(y.p(), y.n);
    std::unique_ptr<VR> x;
    r->exc = guard([&] { x = mkvar.ref(mz, ml, mv, my); Stopwatch w;
      r->o = defstream ? s.Solve(qp, x.get()) : s.Solve(qp, x.get(), os); }, &r->what);
    r->canary = r->canary && z.ok() && l.ok() && v.ok() && y.ok();
    r->g.z = z.val(); r->g.l = l.val(); r->g.v = v.val(); r->g.y = y.val();
    if (x && (x->z.data() != z.p() || x->y.data() != y.p() || x->l.data() != l.p() || x->v.data() != v.p())) r->canary = false;
  } else {
    V x = mkvar.own(r->g);
    r->exc = guard([&] { Stopwatch w; r->o = defstream ? s.Solve(qp, &x) : s.Solve(qp, &x, os); }, &r->what);
    r->g.z = fromv(x.z); r->g.l = fromv(x.l); r->g.v = fromv(x.v); r->g.y = fromv(x.y);
  }
}
struct MkD {
  std::unique_ptr<FBstabDense::VariableRef> ref(Map<VectorXd>& z, Map<VectorXd>& l, Map<VectorXd>& v, Map<VectorXd>& y) {
    return std::unique_ptr<FBstabDense::VariableRef>(new FBstabDense::VariableRef(&z, &l, &v, &y)); }
  FBstabDense::Variable own(const Guess& g) { FBstabDense::Variable x(1, 1, 1); x.z = tov(g.z); x.l = tov(g.l); x.v = tov(g.v); x.y = tov(g.y); return x; }
};
struct MkM {
  std::unique_ptr<FBstabMpc::VariableRef> ref(Map<VectorXd>& z, Map<VectorXd>& l, Map<VectorXd>& v, Map<VectorXd>& y) {
    return std::unique_ptr<FBstabMpc::VariableRef>(new FBstabMpc::VariableRef(z, l, v, y)); }
  FBstabMpc::Variable own(const Guess& g) { FBstabMpc::Variable x(1, 1, 1, 1); x.z = tov(g.z); x.l = tov(g.l); x.v = tov(g.v); x.y = tov(g.y); return x; }
};

static void doSolve(Slot& s, Case& c, int iface, bool defstream, Res* r) {
  std::map<std::string, Guarded> gd;
  long s0 = stdoutLen();
  if (c.kind == 0) {
    if (iface & 1) {
      for (auto& kv : c.a) gd[kv.first] = Guarded(kv.second.d);
      auto M = [&](const char* k) { return Map<MatrixXd>(gd[k].p(), c.a[k].r, c.a[k].c); };
      auto V = [&](const char* k) { return Map<VectorXd>(gd[k].p(), c.a[k].d.size()); };
      auto H = M("H"), G = M("G"), A = M("A"); auto f = V("f"), h = V("h"), b = V("b");
      FBstabDense::ProblemDataRef qp(&H, &f, &G, &h, &A, &b);
      solveG<FBstabDense, FBstabDense::ProblemDataRef, FBstabDense::Variable, FBstabDense::VariableRef>(*s.d, qp, iface, r, MkD(), defstream);
    } else {
      FBstabDense::ProblemData qp;
      qp.H = mat(c.a["H"]); qp.G = mat(c.a["G"]); qp.A = mat(c.a["A"]);
      qp.f = tov(c.a["f"].d); qp.h = tov(c.a["h"].d); qp.b = tov(c.a["b"].d);
      solveG<FBstabDense, FBstabDense::ProblemData, FBstabDense::Variable, FBstabDense::VariableRef>(*s.d, qp, iface, r, MkD(), defstream);
      r->intact = same(c.a["H"].d, qp.H.data()) && same(c.a["G"].d, qp.G.data()) && same(c.a["A"].d, qp.A.data()) &&
                  same(c.a["f"].d, qp.f.data()) && same(c.a["h"].d, qp.h.data()) && same(c.a["b"].d, qp.b.data());
    }
  } else {
    static const char* K[] = {"Q", "R", "S", "q", "r", "A", "B", "c", "E", "L", "d"};
    FBstabMpc::ProblemData qp;
    r->exc = guard([&] {
    qp.Q = seq(c.a["Q"]); qp.R = seq(c.a["R"]); qp.S = seq(c.a["S"]); qp.q = seq(c.a["q"]); qp.r = seq(c.a["r"]);
    qp.A = seq(c.a["A"]); qp.B = seq(c.a["B"]); qp.c = seq(c.a["c"]); qp.E = seq(c.a["E"]); qp.L = seq(c.a["L"]); qp.d = seq(c.a["d"]); }, &r->what);
    qp.x0 = tov(c.a["x0"].d);
    if (r->exc) return;
    auto intact = [&] { MatrixSequence* q[] = {&qp.Q, &qp.R, &qp.S, &qp.q, &qp.r, &qp.A, &qp.B, &qp.c, &qp.E, &qp.L, &qp.d};
      bool ok = same(c.a["x0"].d, qp.x0.data()); for (int i = 0; i < 11; i++) ok = ok && same(c.a[K[i]].d, q[i]->data()); return ok; };
    if ((iface & 5) == 1) {          // mapped user memory
      for (auto& kv : c.a) gd[kv.first] = Guarded(kv.second.d);
      FBstabMpc::ProblemDataRef ref;
      r->exc = guard([&] {
      auto S = [&](const char* k) { return MapMatrixSequence(gd[k].p(), c.a[k].len, c.a[k].r, c.a[k].c); };
      ref.Q = S("Q"); ref.R = S("R"); ref.S = S("S"); ref.q = S("q"); ref.r = S("r"); ref.A = S("A"); ref.B = S("B");
      ref.c = S("c"); ref.E = S("E"); ref.L = S("L"); ref.d = S("d");
      Map<VectorXd> x0(gd["x0"].p(), gd["x0"].n); ref.SetX0(x0); }, &r->what);
      if (r->exc) return;
      solveG<FBstabMpc, FBstabMpc::ProblemDataRef, FBstabMpc::Variable, FBstabMpc::VariableRef>(*s.m, ref, iface, r, MkM(), defstream);
    } else if (iface & 1) {          // references to owned sequences
      FBstabMpc::ProblemDataRef ref(&qp.Q, &qp.R, &qp.S, &qp.q, &qp.r, &qp.A, &qp.B, &qp.c, &qp.E, &qp.L, &qp.d, &qp.x0);
      solveG<FBstabMpc, FBstabMpc::ProblemDataRef, FBstabMpc::Variable, FBstabMpc::VariableRef>(*s.m, ref, iface, r, MkM(), defstream);
      r->intact = intact();
    } else {
      solveG<FBstabMpc, FBstabMpc::ProblemData, FBstabMpc::Variable, FBstabMpc::VariableRef>(*s.m, qp, iface, r, MkM(), defstream);
      r->intact = intact();
    }
  }
  for (auto& kv : gd) { r->canary = r->canary && kv.second.ok(); r->intact = r->intact && sameV(kv.second.val(), c.a[kv.first].d); }
  r->so = stdoutLen() - s0;
}

#include "optfields.h"

struct Call { int slot = 0, id = 0, iface = 0, ds = 0; bool done = false; Guess g0; Res r; };
static Call readCall(std::istringstream& is) {
  Call c; is >> c.slot >> c.id >> c.iface >> c.ds;
  c.r.g.z = readVec(is); c.r.g.l = readVec(is); c.r.g.v = readVec(is); c.r.g.y = readVec(is); c.g0 = c.r.g; return c;
}
// What stdout (a file) holds from offset `from` on.
static std::vector<std::string> stdoutText(long from, long n) {
  std::string t(n > 0 && n < 1000000 ? n : 0, 0); int fd = open("/proc/self/fd/1", O_RDONLY);
  if (fd >= 0) { ssize_t k = pread(fd, &t[0], t.size(), from); t.resize(k > 0 ? k : 0); close(fd); }
  return {t}; }
static void report(const Call& c) {
  const Res& r = c.r;
  fprintf(out, ",\"exc\":%d,\"what\":\"%s\",\"flag\":%d,\"newton\":%d,\"prox\":%d,\"canary\":%d,\"intact\":%d,\"stdout\":%ld,\"untouched\":%d",
          r.exc, r.exc == 1 ? "runtime_error" : "", (int)r.o.eflag, r.o.newton_iters, r.o.prox_iters, (int)r.canary, (int)r.intact, r.so,
          (int)(sameV(c.g0.z, r.g.z) && sameV(c.g0.l, r.g.l) && sameV(c.g0.v, r.g.v) && sameV(c.g0.y, r.g.y)));
  pv("res", Vd{r.o.residual, r.o.initial_residual, r.o.solve_time});
  pv("z", r.g.z); pv("l", r.g.l); pv("v", r.g.v); pv("y", r.g.y); ps("log", r.log);
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  out = fopen(argv[2], "w");
  std::string line; long no = 0;
  auto num = [](std::istringstream& is) { std::string t; is >> t; return strtod(t.c_str(), nullptr); };
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k; is >> k;
    auto vec = [&](size_t n) { Vd v(n); for (auto& x : v) x = num(is); return v; };
    fprintf(out, "{\"n\":%ld,\"k\":\"%s\"", no, k.c_str());
    if (k == "C") {                    // C id kind d0 d1 d2 d3 narr {name len r c data(col-major)}
      int id; Case c = readCase(is, &id);
      cases[id] = c;
    } else if (k == "F") { int id; is >> id; cases.erase(id); }
    else if (k == "N") {               // N slot kind d0 d1 d2 d3
      int s, kind, d[4]; is >> s >> kind; for (int& x : d) is >> x;
      Slot sl; sl.kind = kind; std::string what;
      int e = guard([&] { if (kind == 0) sl.d.reset(new FBstabDense(d[0], d[1], d[2]));
        else if (kind == 1) sl.m.reset(new FBstabMpc(d[0], d[1], d[2], d[3]));
        else { sl.kind = 1; Eigen::Vector4d v4(d[0], d[1], d[2], d[3]); sl.m.reset(new FBstabMpc(v4)); } }, &what);
      if (!e) slots[s] = std::move(sl);
      fprintf(out, ",\"exc\":%d", e);
    } else if (k == "D") { int s; is >> s; slots.erase(s); }
    else if (k == "O") {               // O slot 21 numbers
      int s; is >> s; Vd x = vec(21); Slot& sl = slots.at(s); std::string what;
      int e = guard([&] { if (sl.d) { FBstabDense::Options o; setOpts(&o, x); sl.d->UpdateOptions(o); }
                          else { FBstabMpc::Options o; setOpts(&o, x); sl.m->UpdateOptions(o); } }, &what);
      fprintf(out, ",\"exc\":%d", e);
    } else if (k == "V") {             // V 21 numbers: validate an options struct on its own
      Vd x = vec(21); FBstabDense::Options o; setOpts(&o, x); std::string what;
      int e = guard([&] { o.ValidateOptions(); }, &what);
      fprintf(out, ",\"exc\":%d", e); pv("o", getOpts(o));
      Vd y = getOpts(o); int e2 = guard([&] { o.ValidateOptions(); }, &what);
      fprintf(out, ",\"exc2\":%d,\"idem\":%d", e2, (int)sameV(y, getOpts(o)));
    } else if (k == "W") {             // W 21 numbers: presets applied to options that hold other values
      Vd x = vec(21); FBstabDense::Options o, q; FBstabMpc::Options u, w;
      setOpts(&o, x); setOpts(&q, x); setOpts(&u, x); setOpts(&w, x);
      o.DefaultParameters(); q.ReliableParameters(); u.DefaultParameters(); w.ReliableParameters();
      pv("dd", getOpts(o)); pv("dr", getOpts(q)); pv("md", getOpts(u)); pv("mr", getOpts(w));
    } else if (k == "P") {             // presets
      pv("dd", getOpts(FBstabDense::DefaultOptions())); pv("dr", getOpts(FBstabDense::ReliableOptions()));
      pv("md", getOpts(FBstabMpc::DefaultOptions())); pv("mr", getOpts(FBstabMpc::ReliableOptions()));
    } else if (k == "S") {             // S slot case iface defstream  nz z nl l nv v ny y
      Call c = readCall(is); fflush(out);
      long at = stdoutLen(); doSolve(slots.at(c.slot), cases.at(c.id), c.iface, c.ds != 0, &c.r);
      report(c); if (c.ds) ps("text", stdoutText(at, c.r.so));
    } else if (k == "Y") {             // Y milliseconds call: a solve whose prints keep the processor busy; its times
      spin = num(is) / 1000; Call c = readCall(is); fflush(out); stamps.clear();
      doSolve(slots.at(c.slot), cases.at(c.id), c.iface, c.ds != 0, &c.r); spin = 0;
      report(c); pv("stamps", stamps); pv("took", Vd{callTime[0], callTime[1]});
    } else if (k == "I") {             // I call m {line call}: the other solves run when the first one has printed that many lines
      Call c = readCall(is); int m; is >> m; std::vector<std::pair<int, Call>> sub(m); for (auto& x : sub) { is >> x.first; x.second = readCall(is); }
      fflush(out);
      onPrint = [&](int n) { for (auto& x : sub) if (x.first == n) { Call& q = x.second; q.done = true; doSolve(slots.at(q.slot), cases.at(q.id), q.iface, q.ds != 0, &q.r); } };
      doSolve(slots.at(c.slot), cases.at(c.id), c.iface, c.ds != 0, &c.r); onPrint = nullptr;
      report(c); fprintf(out, ",\"sub\":[");
      for (int i = 0; i < m; i++) { fprintf(out, "%s{\"done\":%d", i ? "," : "", (int)sub[i].second.done); report(sub[i].second); fprintf(out, "}"); }
      fprintf(out, "]");
    } else if (k == "U") {             // memory in use after all objects are gone
      slots.clear(); cases.clear();
      long u = __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : -1; fprintf(out, ",\"u\":%ld", u);
    } else if (k == "T") {             // T m {n call..}: m threads, each with n solves (on objects of its own)
      int m; is >> m; std::vector<std::vector<Call>> w(m);
      for (auto& t : w) { int n; is >> n; for (int i = 0; i < n; i++) t.push_back(readCall(is)); }
      fflush(out); std::vector<std::thread> th; std::atomic<int> ready{0}; bool ok = true;
      try { for (auto& t : w) th.emplace_back([&t, &ready, m] { ready++; for (long i = 0; ready < m && i < 2000000000; i++) {}
              for (Call& c : t) doSolve(slots.at(c.slot), cases.at(c.id), c.iface, c.ds != 0, &c.r); }); } catch (const std::system_error&) { ok = false; ready = m; }
      for (auto& t : th) t.join();
      fprintf(out, ",\"ok\":%d,\"sub\":[", (int)ok); bool first = true;
      for (auto& t : w) for (Call& c : t) { fprintf(out, "%s{\"done\":%d", first ? "" : ",", (int)ok); report(c); fprintf(out, "}"); first = false; }
      fprintf(out, "]");
    }
    fprintf(out, "}\n"); fflush(out);
    no++;
  }
  fclose(out);
  return 0;
}
