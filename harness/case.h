// Shared by the drivers: problem data as named arrays, exception classes, JSON output.
#pragma once
typedef std::vector<double> Vd;
static FILE* out;

// An array of len matrices r x c, column-major.
struct Arr { int len, r, c; Vd d; };
struct Case { int kind; int dims[4]; std::map<std::string, Arr> a; };


static double readNum(std::istringstream& is) { std::string t; is >> t; return strtod(t.c_str(), nullptr); }
static Vd readVec(std::istringstream& is, size_t n) { Vd v(n); for (auto& x : v) x = readNum(is); return v; }
static Vd readVec(std::istringstream& is) { size_t n; is >> n; return readVec(is, n); }
// id kind d0 d1 d2 d3 narr {name len r c data(col-major)}
static Case readCase(std::istringstream& is, int* id) {
  int na; Case c; is >> *id >> c.kind; for (int& d : c.dims) is >> d; is >> na;
  while (na--) { std::string nm; Arr a; is >> nm >> a.len >> a.r >> a.c; a.d = readVec(is, (size_t)a.len * a.r * a.c); c.a[nm] = a; }
  return c;
}

static void pv(const char* k, const Vd& v) {
  fprintf(out, ",\"%s\":[", k);
  for (size_t i = 0; i < v.size(); i++) fprintf(out, "%s\"%a\"", i ? "," : "", v[i]);
  fprintf(out, "]");
}
// Runs f; 0 ok, 1 std::runtime_error (std::out_of_range etc. are 2), 3 Eigen assertion.
template <class F> int guard(F f, std::string* what) {
  try { f(); return 0; }
  catch (const std::runtime_error& e) { *what = e.what(); return 1; }
  catch (const EigenAssertion& e) { *what = e.what; return 3; }
  catch (const std::exception& e) { *what = e.what(); return 2; }
  catch (...) { return 4; }
}

static VectorXd tov(const Vd& x) { return Map<const VectorXd>(x.data(), x.size()); }
static Vd fromv(const VectorXd& x) { return Vd(x.data(), x.data() + x.size()); }

static MatrixSequence seq(const Arr& a) { MatrixSequence m(a.len, a.r, a.c); for (size_t i = 0; i < a.d.size(); i++) m.data()[i] = a.d[i]; return m; }
static MatrixXd mat(const Arr& a) { return Map<const MatrixXd>(a.d.data(), a.r, a.c); }

