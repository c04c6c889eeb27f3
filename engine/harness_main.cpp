// Common driver of both builds (compiled after the prelude in the symbolic one).
#include "harness.hpp"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef VERIF_SYMBOLIC
namespace sym { typedef double bdouble; }
#endif
using sym::bdouble;
namespace verif {
std::vector<Reg>& registry() { static std::vector<Reg> r; return r; }
void assert_fail(const char* e, const char* f, int l) {
  throw AssertFail(std::string("assertion `") + e + "' failed at " + f + ":" + std::to_string(l));
}
struct Failure { std::string label, why; std::map<std::string, bdouble> model; bool has_model; bool certain; };
struct Result { size_t obligations = 0, discharged = 0, evaluations = 0; std::vector<Failure> fail; };
static Result R;
static std::set<std::string> failed_labels;
static std::map<std::string, bdouble> given; static bool have_given = false;
static std::map<std::string, bdouble> drawn;
static std::mt19937_64 rng;
static bdouble TOL = 2e-6;  // relative to the larger of the values, one, and the scale of the obligation
static std::string js(const std::string& s) {
  std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\"";
}
static void add_fail(const std::string& label, const std::string& why, const std::map<std::string, bdouble>* m) {
  if (R.fail.size() >= 5 || failed_labels.count(label)) return;
  failed_labels.insert(label);
  R.fail.push_back({label, why, m ? *m : std::map<std::string, bdouble>(), m != nullptr,
#ifdef VERIF_SYMBOLIC
                    sym::path_certain()
#else
                    true
#endif
  });
}
#ifdef VERIF_SYMBOLIC
double H::real(const std::string& n) { return sym::Real(sym::Real::Raw{}, sym::mk_sym(n, false)); }
double H::pos(const std::string& n) { return sym::Real(sym::Real::Raw{}, sym::mk_sym(n, true)); }
double H::range(const std::string& n, double lo, double hi) { double x = real(n); assume(lo <= x); assume(x <= hi); return x; }
void H::assume(bool b) { if (!b) throw sym::Prune{}; }
void H::eq(double a, double b, const std::string& label, long) {
  R.obligations++;
  uint64_t x = a.id(), y = b.id();
  if (sym::identical(x, y)) { R.discharged++; return; }
  std::map<std::string, bdouble> m; bool hm;
  if (sym::stats.eqpath) {
    hm = sym::path_point(m) || sym::path_model(x, y, false, m);
    if (hm) { auto u = sym::eval_at(x, m), v = sym::eval_at(y, m);
      if (::fabsl(u - v) <= 1e-7L * (1 + ::fabsl(u))) { R.discharged++; return; } }
  } else hm = sym::path_model(x, y, true, m);
  add_fail(label, "computed " + sym::show(x) + "   required " + sym::show(y) + "   on path [" + sym::path_string() + "]", hm ? &m : nullptr);
}
static void symfail(const std::string& label, const std::string& why) {
  std::map<std::string, bdouble> m; uint64_t z = sym::mk_const_i(0);
  bool hm = sym::path_model(z, z, false, m);
  add_fail(label, why + "   on path [" + sym::path_string() + "]", hm ? &m : nullptr);
}
void H::require(bool b, const std::string& label) { R.obligations++; if (b) R.discharged++; else symfail(label, "required condition is false"); }
#else
static bdouble dy(bdouble lo, bdouble hi) {  // dyadic, so that sums are exact
  long a = (long)std::ceil(lo * 64), b = (long)std::floor(hi * 64);
  if (b < a) return lo + (hi - lo) * 0.5;
  return (bdouble)(a + (long)(rng() % (uint64_t)(b - a + 1))) / 64.0;
}
static bool preset(const std::string& n, bdouble& v) {
  if (have_given) { auto it = given.find(n); if (it != given.end()) { v = it->second; drawn[n] = v; return true; } }
  auto it = drawn.find(n); if (it != drawn.end()) { v = it->second; return true; }
  return false;
}
double H::real(const std::string& n) { bdouble v; if (preset(n, v)) return v; v = dy(-2, 2); if (rng() % 12 == 0) v = (bdouble)((long)(rng() % 5) - 2) / 2; return drawn[n] = v; }
double H::pos(const std::string& n) { bdouble v; if (preset(n, v)) return v; v = dy(0.25, 3); if (rng() % 12 == 0) v = (bdouble)(1 + rng() % 2); return drawn[n] = v; }
double H::range(const std::string& n, double lo, double hi) { bdouble v; if (preset(n, v)) { if (v < lo || v > hi) throw Reject{}; return v; } v = dy(lo, hi); long k = rng() % 10; if (k == 0) v = lo; if (k == 1) v = hi; return drawn[n] = v; }
void H::assume(bool b) { if (!b) throw Reject{}; }
void H::eq(double a, double b, const std::string& label, long scale) {
  R.obligations++;
  bdouble m = std::max({1.0, std::fabs(a), std::fabs(b), (bdouble)scale});
  if (std::fabs(a - b) <= TOL * m) { R.discharged++; return; }
  std::ostringstream o; o.precision(17); o << "computed " << a << "   required " << b;
  add_fail(label, o.str(), &drawn);
}
void H::require(bool b, const std::string& label) { R.obligations++; if (b) R.discharged++; else add_fail(label, "required condition is false", &drawn); }
#endif
void H::throws(const std::string& label, const std::function<void()>& f) {
  bool thrown = false;
  try { f(); } catch (AssertFail&) { thrown = true; } catch (std::exception&) { thrown = true; }
  require(thrown, label + " (must be rejected)");
}
void H::nothrow(const std::string& label, const std::function<void()>& f) {
  std::string w; bool bad = false;
  try { f(); }
#ifdef VERIF_SYMBOLIC
  catch (sym::Violation&) { throw; }
#endif
  catch (std::exception& e) { bad = true; w = e.what(); }
  require(!bad, label + (bad ? " (threw: " + w + ")" : ""));
}
Eigen::VectorXd H::vec(const std::string& n, long k) { Eigen::VectorXd v(k); for (long i = 0; i < k; i++) v(i) = real(n + std::to_string(i)); return v; }
Eigen::VectorXd H::posvec(const std::string& n, long k) { Eigen::VectorXd v(k); for (long i = 0; i < k; i++) v(i) = pos(n + std::to_string(i)); return v; }
Eigen::MatrixXd H::mat(const std::string& n, long r, long c) { Eigen::MatrixXd v(r, c); for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) v(i, j) = real(n + std::to_string(i) + "_" + std::to_string(j)); return v; }

static Shape parse(const std::string& s) {
  Shape r; std::stringstream ss(s); std::string t;
  while (std::getline(ss, t, ',')) { auto p = t.find('='); if (p != std::string::npos) r[t.substr(0, p)] = atol(t.c_str() + p + 1); }
  return r;
}
static void print_result(FILE* o, const std::string& extra) {
  std::ostringstream s; s.precision(17);
  s << "{\"obligations\":" << R.obligations << ",\"discharged\":" << R.discharged << ",\"evaluations\":" << R.evaluations << extra << ",\"failures\":[";
  for (size_t i = 0; i < R.fail.size(); i++) {
    auto& f = R.fail[i]; s << (i ? "," : "") << "{\"label\":" << js(f.label) << ",\"why\":" << js(f.why) << ",\"certain\":" << (f.certain ? "true" : "false") << ",\"model\":";
    if (!f.has_model) s << "null"; else { s << "{"; bool c = false; for (auto& e : f.model) { s << (c ? "," : "") << js(e.first) << ":" << e.second; c = true; } s << "}"; }
    s << "}";
  }
  s << "]}\n"; fputs(s.str().c_str(), o); fflush(o);
}
static FILE* OUT;
#ifdef VERIF_SYMBOLIC
static int run(const Reg& r, const Shape& sh, long max_paths, bdouble max_s, long tmo, long seed) {
  sym::reset(seed);
  Result base = R; auto labels0 = failed_labels;
  sym::explore(
      [&] { H h; h.shape = sh; r.fn(h); R.evaluations++; },
      [&](const char* how, const std::string& msg) {
        std::string k = how;
        if (k == "restart") { R = base; failed_labels = labels0; sym::stats.paths = 0; return; }
        if (k == "violation" || k == "exception") { R.obligations++; symfail("no failure inside the code", msg); }
        if (k == "z3") { R.obligations++; add_fail("engine", "z3: " + msg, nullptr); }
      },
      max_paths, max_s, (int)tmo);
  std::ostringstream e; auto& s = sym::stats;
  e << ",\"paths\":" << s.paths << ",\"branches\":" << s.branches << ",\"z3_calls\":" << s.z3_calls << ",\"z3_unknown\":" << s.z3_unknown
    << ",\"truncated\":" << s.truncated << ",\"z3_s\":" << s.z3_s << ",\"nodes\":" << sym::node_count();
  print_result(OUT, e.str());
  return R.fail.empty() ? 0 : 1;
}
#else
static int run(const Reg& r, const Shape& sh, long count, bdouble, long, long seed) {
  rng.seed((uint64_t)seed * 1000003ull + std::hash<std::string>()(r.prop + r.name));
  long tries = 0; size_t pathless = 0;
  for (long i = 0; i < count && tries < 40 * count + 40; tries++) {
    drawn.clear(); H h; h.shape = sh;
    try { r.fn(h); i++; R.evaluations++; }
    catch (Reject&) { pathless++; }
    catch (std::exception& e) { i++; R.evaluations++; R.obligations++; add_fail("no failure inside the code", e.what(), &drawn); }
    if (have_given) break;
    if (!R.fail.empty()) break;
  }
  print_result(OUT, "");
  return R.fail.empty() ? 0 : 1;
}
#endif
}  // namespace verif
using namespace verif;
int main(int argc, char** argv) {
  // the library prints on stdout: keep results on a private descriptor
  int fd = dup(1); verif::OUT = fdopen(fd, "w"); { int nul = ::open("/dev/null", 1); dup2(nul, 1); }
  std::string name, prop; std::string shape; long a = 400, tmo = 400, seed = 1; bdouble b = 60; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (s == "--list") list = true;
    else if (s == "--run") { prop = nx(); name = nx(); shape = nx(); }
    else if (s == "--n") a = atol(nx().c_str());
    else if (s == "--secs") b = atof(nx().c_str());
    else if (s == "--tmo") tmo = atol(nx().c_str());
    else if (s == "--seed") seed = atol(nx().c_str());
    else if (s == "--tol") TOL = atof(nx().c_str());
    else if (s == "--set") { std::string k = nx(); given[k] = atof(nx().c_str()); have_given = true; }
  }
  if (list) {
    for (auto& r : registry()) {
      auto arr = [&](const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + js(v[i]); return o + "]"; };
      fprintf(OUT, "{\"prop\":%s,\"name\":%s,\"quick\":%s,\"thorough\":%s,\"plain\":%s}\n", js(r.prop).c_str(), js(r.name).c_str(), arr(r.quick).c_str(), arr(r.thorough).c_str(), arr(r.plain).c_str());
    }
    fflush(OUT); return 0;
  }
  for (auto& r : registry()) if (r.prop == prop && r.name == name) return run(r, parse(shape), a, b, tmo, seed);
  fprintf(stderr, "no such harness\n"); return 3;
}
