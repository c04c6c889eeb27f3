// Interface between the runtime (sym.cpp) and the harness layer.  Included with
// the built-in double in sym.cpp and, before the prelude's macro, elsewhere.
#ifndef VERIF_SYM_RT
#define VERIF_SYM_RT
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
namespace sym {
enum { ADD = 1, SUB, MUL, DIV, NEG, SQRT, EXP, SIN, COS, LOG, FLOOR };
enum { LT = 1, LE, EQ };
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct Prune {};
struct Restart {};
struct Stats { size_t paths = 0, branches = 0, z3_calls = 0, z3_unknown = 0, truncated = 0, restarts = 0; double z3_s = 0; bool eqpath = false, unsure = false; };
extern Stats stats;
uint64_t mk_const_d(double);
uint64_t mk_const_i(long long);
uint64_t mk_rational(long n, long d);
uint64_t mk_bin(int op, uint64_t a, uint64_t b);
uint64_t mk_un(int op, uint64_t a);
uint64_t mk_pow(uint64_t a, uint64_t b);
uint64_t mk_sym(const std::string& name, bool pos);
bool branch(int rel, uint64_t a, uint64_t b);
long long to_integer(uint64_t a);
long long to_integer_floor(uint64_t a);
double approx(uint64_t a);
bool is_zero(uint64_t a);
bool identical(uint64_t a, uint64_t b);
bool path_model(uint64_t a, uint64_t b, bool want_diff, std::map<std::string, double>& out);
bool path_certain();
bool path_point(std::map<std::string, double>& out);
long double eval_at(uint64_t a, const std::map<std::string, double>& m);
std::string path_string();
std::string show(uint64_t a);
size_t node_count();
void reset(uint64_t seed);
void explore(const std::function<void()>& body,
             const std::function<void(const char*, const std::string&)>& on_end,
             size_t max_paths, double max_s, int tmo_ms);
}
#endif
