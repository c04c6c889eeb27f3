// Runtime of the real-arithmetic build: terms, identity decision, path search.
#include <bits/stdc++.h>
#include <gmpxx.h>
#include <z3++.h>
#include "sym_rt.hpp"
namespace sym {
typedef double bdouble;
typedef unsigned __int128 u128;
static uint64_t P = (1ull << 61) - 1;  // replaced on restart by another prime = 3 mod 4
static const int K = 2;
static const uint64_t MAGIC = 0x5A5A7E57ull;

static inline uint64_t addm(uint64_t a, uint64_t b) { a += b; return a >= P ? a - P : a; }
static inline uint64_t subm(uint64_t a, uint64_t b) { return a >= b ? a - b : a + P - b; }
static inline uint64_t mulm(uint64_t a, uint64_t b) {
  if (P == (1ull << 61) - 1) {
    u128 x = (u128)a * b;
    uint64_t r = (uint64_t)(x & P) + (uint64_t)(x >> 61);
    return r >= P ? r - P : r;
  }
  return (uint64_t)((u128)a * b % P);
}
static uint64_t powm(uint64_t a, uint64_t e) {
  uint64_t r = 1;
  while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; }
  return r;
}
static uint64_t invm(uint64_t a) { return powm(a, P - 2); }
static bool isqr(uint64_t a) { return a == 0 || powm(a, (P - 1) / 2) == 1; }
static uint64_t splitmix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

enum { CONST = 20, SYM, POW, OPAQUE };
struct Node {
  int op; uint32_t a, b; int ci; bool hs; bool exact;  // exact: rational constant
  uint64_t v[K]; long double sh;
};
static std::vector<Node> T;
static std::vector<mpq_class> Q;
struct SymInfo { std::string name; uint32_t node; bool pos; };
static std::vector<SymInfo> S;
static std::unordered_map<std::string, uint32_t> symix;
struct VKey { uint64_t v[K]; bool operator==(const VKey& o) const { return !memcmp(v, o.v, sizeof v); } };
struct VH { size_t operator()(const VKey& k) const { return k.v[0] * 31 + k.v[1]; } };
static std::unordered_map<VKey, uint32_t, VH> byval;
static std::unordered_map<uint64_t, uint32_t> dcache;
static uint64_t seed0 = 1;
size_t node_count() { return T.size(); }

static uint32_t nid(uint64_t tag) {
  if ((tag >> 32) != MAGIC || (uint32_t)tag >= T.size())
    throw Violation("read of an uninitialised number");
  return (uint32_t)tag;
}
static uint64_t tg(uint32_t i) { return (MAGIC << 32) | i; }

static uint64_t modq(const mpz_class& z) {
  mpz_class m; mpz_class p(std::to_string(P));
  mpz_mod(m.get_mpz_t(), z.get_mpz_t(), p.get_mpz_t());
  return mpz_get_ui(m.get_mpz_t());
}
static uint32_t intern(Node n) {
  VKey k; memcpy(k.v, n.v, sizeof k.v);
  auto it = byval.find(k);
  if (it != byval.end()) return it->second;
  T.push_back(n);
  byval[k] = T.size() - 1;
  return T.size() - 1;
}
static long double qld(const mpq_class& q) {
  // good long-double rounding of a rational
  mpf_class f(q, 256);
  bdouble hi = f.get_d(); mpf_class r(f - hi, 256);
  return (long double)hi + (long double)r.get_d();
}
static uint32_t cnode(const mpq_class& q) {
  Node n; n.op = CONST; n.a = n.b = 0; n.hs = false; n.exact = true;
  uint64_t d = modq(q.get_den());
  uint64_t v = mulm(modq(q.get_num()), d == 1 ? 1 : invm(d));
  for (int j = 0; j < K; j++) n.v[j] = v;
  VKey k; memcpy(k.v, n.v, sizeof k.v);
  auto it = byval.find(k);
  if (it != byval.end() && T[it->second].op == CONST) return it->second;
  n.sh = qld(q);
  Q.push_back(q); n.ci = Q.size() - 1;
  if (it != byval.end()) { T[it->second] = n; return it->second; }
  T.push_back(n); byval[k] = T.size() - 1; return T.size() - 1;
}
uint64_t mk_const_i(long long i) { return tg(cnode(mpq_class(mpz_class(std::to_string(i))))); }
static uint32_t un(int op, uint32_t a);
static bool small_rational(bdouble x, mpq_class& out, bdouble tol) {
  // continued fraction with a small denominator
  bdouble y = fabs(x); long long h0 = 0, h1 = 1, k0 = 1, k1 = 0; bdouble z = y;
  for (int i = 0; i < 12; i++) {
    bdouble fl = floor(z); if (fl > 1e9) break;
    long long a = (long long)fl, h2 = a * h1 + h0, k2 = a * k1 + k0;
    if (k2 > 100000 || h2 > 100000000) break;
    h0 = h1; h1 = h2; k0 = k1; k1 = k2;
    if (fabs((bdouble)h1 / k1 - y) <= tol * y) {
      out = mpq_class(mpz_class(std::to_string(x < 0 ? -h1 : h1)), mpz_class(std::to_string(k1)));
      out.canonicalize(); return true;
    }
    if (z - fl < 1e-12) break;
    z = 1.0 / (z - fl);
  }
  return false;
}
static uint32_t mul(uint32_t, uint32_t);
static uint32_t cdouble(bdouble x) {
  uint64_t key; memcpy(&key, &x, 8);
  auto it = dcache.find(key);
  if (it != dcache.end()) return it->second;
  uint32_t r;
  if (!std::isfinite(x)) throw Violation("non-finite constant");
  if (x == floor(x) && fabs(x) < 1e15) {
    r = cnode(mpq_class(mpz_class(std::to_string((long long)x))));
  } else {
    char buf[64]; auto e = std::to_chars(buf, buf + 60, x, std::chars_format::scientific);
    std::string s(buf, e.ptr); auto ep = s.find('e');
    std::string man = s.substr(0, ep); int ex = atoi(s.c_str() + ep + 1);
    std::string digs; bool neg = false; int frac = 0; bool dot = false;
    for (char ch : man) { if (ch == '-') neg = true; else if (ch == '.') dot = true; else { digs += ch; if (dot) frac++; } }
    int p10 = ex - frac; mpq_class q; bool done = false;
    if (digs.size() >= 14) {
      if (small_rational(x, q, 4e-16)) { r = cnode(q); done = true; }
      else if (small_rational(x * x, q, 8e-16)) {
        // +- sqrt(q)
        r = un(SQRT, cnode(q)); if (x < 0) r = un(NEG, r); done = true;
      }
    }
    if (!done) {
      mpz_class n(digs), t; mpz_ui_pow_ui(t.get_mpz_t(), 10, abs(p10));
      q = p10 >= 0 ? mpq_class(n * t) : mpq_class(n, t); q.canonicalize();
      if (neg) q = -q;
      r = cnode(q);
    }
  }
  dcache[key] = r;
  return r;
}
uint64_t mk_const_d(bdouble x) { return tg(cdouble(x)); }
uint64_t mk_rational(long n, long d) { mpq_class q(n, d); q.canonicalize(); return tg(cnode(q)); }

// a node with symbols whose value does not depend on them is a constant
static uint32_t normalise(Node n) {
  VKey k; memcpy(k.v, n.v, sizeof k.v);
  auto it = byval.find(k);
  if (it != byval.end()) return it->second;
  bool same = true; for (int j = 1; j < K; j++) same &= n.v[j] == n.v[0];
  if (same && n.hs) {
    // rational reconstruction
    mpz_class r0(std::to_string(P)), r1(std::to_string(n.v[0])), s0 = 0, s1 = 1, q, t;
    mpz_class bound = mpz_class(1) << 29;
    while (r1 > bound) { q = r0 / r1; t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; }
    if (abs(s1) <= bound && s1 != 0) { mpq_class qq(r1, s1); qq.canonicalize(); return cnode(qq); }
  }
  return intern(n);
}
static uint32_t mkn(int op, uint32_t a, uint32_t b, const uint64_t* v, long double sh) {
  Node n; n.op = op; n.a = a; n.b = b; n.ci = -1; n.exact = false;
  n.hs = T[a].hs || T[b].hs; memcpy(n.v, v, sizeof n.v); n.sh = sh;
  return normalise(n);
}
static uint32_t bin(int op, uint32_t a, uint32_t b) {
  const Node x = T[a], y = T[b];
  if (x.op == CONST && y.op == CONST) {
    const mpq_class &p = Q[x.ci], &q = Q[y.ci];
    if (op == ADD) return cnode(p + q);
    if (op == SUB) return cnode(p - q);
    if (op == MUL) return cnode(p * q);
    if (op == DIV) { if (q == 0) throw Violation("division by zero"); return cnode(p / q); }
  }
  if (x.op == CONST) {
    const mpq_class& p = Q[x.ci];
    if (op == ADD && p == 0) return b;
    if (op == MUL) { if (p == 0) return a; if (p == 1) return b; }
    if (op == DIV && p == 0) return a;
  }
  if (y.op == CONST) {
    const mpq_class& q = Q[y.ci];
    if ((op == ADD || op == SUB) && q == 0) return a;
    if (op == MUL) { if (q == 0) return b; if (q == 1) return a; }
    if (op == DIV) { if (q == 0) throw Violation("division by zero"); if (q == 1) return a; }
  }
  uint64_t v[K]; long double sh = 0;
  for (int j = 0; j < K; j++) {
    switch (op) {
      case ADD: v[j] = addm(x.v[j], y.v[j]); break;
      case SUB: v[j] = subm(x.v[j], y.v[j]); break;
      case MUL: v[j] = mulm(x.v[j], y.v[j]); break;
      case DIV:
        if (y.v[j] == 0) throw Violation("division by a quantity that is identically zero");
        v[j] = mulm(x.v[j], invm(y.v[j])); break;
    }
  }
  switch (op) { case ADD: sh = x.sh + y.sh; break; case SUB: sh = x.sh - y.sh; break; case MUL: sh = x.sh * y.sh; break; case DIV: sh = x.sh / y.sh; }
  return mkn(op, a, b, v, sh);
}
static uint32_t mul(uint32_t a, uint32_t b) { return bin(MUL, a, b); }

// ---- arguments of exp / sin / cos, as sums of rational multiples of monomials
struct MKey { uint64_t v[K]; bool operator<(const MKey& o) const { return memcmp(v, o.v, sizeof v) < 0; } };
typedef std::map<MKey, mpq_class> Lin;
static MKey one() { MKey m; for (int j = 0; j < K; j++) m.v[j] = 1; return m; }
static MKey kmul(const MKey& a, const MKey& b) { MKey m; for (int j = 0; j < K; j++) m.v[j] = mulm(a.v[j], b.v[j]); return m; }
static bool lin(uint32_t n, Lin& out, int depth = 0) {
  const Node x = T[n];
  auto atom = [&]() { MKey m; memcpy(m.v, x.v, sizeof m.v); out[m] += 1; return true; };
  if (x.op == CONST) { if (Q[x.ci] != 0) out[one()] += Q[x.ci]; return true; }
  if (depth > 12) return atom();
  if (x.op == ADD || x.op == SUB) {
    Lin l, r; lin(x.a, l, depth + 1); lin(x.b, r, depth + 1);
    for (auto& e : l) out[e.first] += e.second;
    for (auto& e : r) { if (x.op == ADD) out[e.first] += e.second; else out[e.first] -= e.second; }
    return true;
  }
  if (x.op == NEG) { Lin l; lin(x.a, l, depth + 1); for (auto& e : l) out[e.first] -= e.second; return true; }
  if (x.op == MUL) {
    Lin l, r; lin(x.a, l, depth + 1); lin(x.b, r, depth + 1);
    if (l.size() * r.size() <= 200) {
      for (auto& e : l) for (auto& f : r) out[kmul(e.first, f.first)] += e.second * f.second;
      return true;
    }
  }
  if (x.op == DIV) {
    Lin l, r; lin(x.a, l, depth + 1); lin(x.b, r, depth + 1);
    for (auto i = r.begin(); i != r.end();) if (i->second == 0) i = r.erase(i); else ++i;
    if (r.size() == 1) {
      MKey inv; for (int j = 0; j < K; j++) inv.v[j] = invm(r.begin()->first.v[j]);
      for (auto& e : l) out[kmul(e.first, inv)] += e.second / r.begin()->second;
      return true;
    }
  }
  return atom();
}
struct Rot { uint64_t c, s; };
static Rot rmul(Rot a, Rot b) { return {subm(mulm(a.c, b.c), mulm(a.s, b.s)), addm(mulm(a.c, b.s), mulm(a.s, b.c))}; }
static Rot rpow(Rot a, long long e) {
  if (e < 0) { a.s = subm(0, a.s); e = -e; }
  Rot r{1, 0}; while (e) { if (e & 1) r = rmul(r, a); a = rmul(a, a); e >>= 1; } return r;
}
static const long DEN = 48;
static void trans(uint32_t a, uint64_t* ev, Rot* rv) {
  Lin l; lin(a, l);
  for (int j = 0; j < K; j++) { if (ev) ev[j] = 1; if (rv) rv[j] = {1, 0}; }
  for (auto& e : l) {
    if (e.second == 0) continue;
    mpq_class q = e.second * DEN; long long n = 1; uint64_t salt = 0;
    if (q.get_den() == 1 && q.get_num().fits_slong_p()) n = q.get_num().get_si();
    else salt = splitmix(modq(q.get_num()) * 7919 + modq(q.get_den()));
    for (int j = 0; j < K; j++) {
      uint64_t h = splitmix(e.first.v[j] ^ splitmix(salt + 77 * (j + 1)) ^ splitmix(seed0 * 1000003));
      if (ev) {
        uint64_t b = splitmix(h + 1) % P; if (b < 2) b = 2; b = mulm(b, b);
        uint64_t r = n >= 0 ? powm(b, n) : invm(powm(b, -n));
        ev[j] = mulm(ev[j], r);
      }
      if (rv) {
        uint64_t t = splitmix(h + 2) % P; uint64_t t2 = mulm(t, t); uint64_t d = invm(addm(1, t2));
        Rot b{mulm(subm(1, t2), d), mulm(addm(t, t), d)};
        rv[j] = rmul(rv[j], rpow(b, n));
      }
    }
  }
}
static uint32_t un(int op, uint32_t a) {
  const Node x = T[a];
  uint64_t v[K]; long double sh = 0;
  if (op == NEG) {
    if (x.op == CONST) return cnode(-Q[x.ci]);
    if (x.op == NEG) return x.a;
    for (int j = 0; j < K; j++) v[j] = subm(0, x.v[j]);
    return mkn(NEG, a, a, v, -x.sh);
  }
  if (op == SQRT) {
    if (x.op == CONST) {
      const mpq_class q = Q[x.ci];
      if (q < 0) throw Violation("square root of a negative constant");
      mpz_class n = q.get_num(), d = q.get_den();
      if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) {
        mpz_class rn, rd; mpz_sqrt(rn.get_mpz_t(), n.get_mpz_t()); mpz_sqrt(rd.get_mpz_t(), d.get_mpz_t());
        return cnode(mpq_class(rn, rd));
      }
    }
    for (int j = 0; j < K; j++) {
      // canonical root (itself a quadratic residue): sqrt(a)sqrt(b)=sqrt(ab)
      uint64_t r = powm(x.v[j], (P + 1) / 4);
      if (mulm(r, r) != x.v[j]) throw Restart{};
      if (!isqr(r)) r = subm(0, r);
      v[j] = r;
    }
    uint32_t r = mkn(SQRT, a, a, v, sqrtl(x.sh));
    return r;
  }
  if (op == EXP) {
    if (x.op == CONST && Q[x.ci] == 0) return cnode(1);
    trans(a, v, nullptr); return mkn(EXP, a, a, v, expl(x.sh));
  }
  if (op == SIN || op == COS) {
    if (x.op == CONST && Q[x.ci] == 0) return cnode(op == COS ? 1 : 0);
    Rot r[K]; trans(a, nullptr, r);
    for (int j = 0; j < K; j++) v[j] = op == SIN ? r[j].s : r[j].c;
    return mkn(op, a, a, v, op == SIN ? sinl(x.sh) : cosl(x.sh));
  }
  if (op == FLOOR && !x.hs) {
    if (x.op == CONST) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), Q[x.ci].get_num().get_mpz_t(), Q[x.ci].get_den().get_mpz_t()); return cnode(mpq_class(z)); }
    return cnode(mpq_class(mpz_class(std::to_string((long long)floorl(x.sh)))));
  }
  if (op == FLOOR) return cnode(mpq_class(mpz_class(std::to_string(to_integer_floor(tg(a))))));
  for (int j = 0; j < K; j++) v[j] = splitmix(x.v[j] ^ splitmix(op * 131 + j + seed0)) % P;
  return mkn(op, a, a, v, op == LOG ? logl(x.sh) : 0);
}
static uint32_t ipow(uint32_t a, long long n) {
  if (n == 0) return cnode(1);
  bool neg = n < 0; if (neg) n = -n;
  uint32_t r = cnode(1), b = a;
  while (n) { if (n & 1) r = mul(r, b); n >>= 1; if (n) b = mul(b, b); }
  return neg ? bin(DIV, cnode(1), r) : r;
}
uint64_t mk_pow(uint64_t ta, uint64_t tb) {
  uint32_t a = nid(ta), b = nid(tb);
  if (T[b].op == CONST) {
    mpq_class q = Q[T[b].ci];
    if (q.get_den() == 1 && q.get_num().fits_slong_p() && abs(q.get_num()) < 100000) return tg(ipow(a, q.get_num().get_si()));
    mpz_class d = q.get_den(); int h = 0;
    while (d > 1 && mpz_even_p(d.get_mpz_t())) { d /= 2; h++; }
    if (d == 1 && h <= 8 && q.get_num().fits_slong_p()) {
      uint32_t r = a; for (int i = 0; i < h; i++) r = un(SQRT, r);
      return tg(ipow(r, q.get_num().get_si()));
    }
  }
  uint64_t v[K];
  for (int j = 0; j < K; j++) v[j] = splitmix(T[a].v[j] * 3 + splitmix(T[b].v[j] + j + seed0)) % P;
  return tg(mkn(POW, a, b, v, powl(T[a].sh, T[b].sh)));
}
uint64_t mk_bin(int op, uint64_t a, uint64_t b) { return tg(bin(op, nid(a), nid(b))); }
uint64_t mk_un(int op, uint64_t a) { return tg(un(op, nid(a))); }
bool is_zero(uint64_t a) { const Node& n = T[nid(a)]; return n.op == CONST && Q[n.ci] == 0; }
bool identical(uint64_t a, uint64_t b) {
  uint32_t x = nid(a), y = nid(b);
  if (x == y) return true;
  for (int j = 0; j < K; j++) if (T[x].v[j] != T[y].v[j]) {
    // two constants that differ by rounding of an irrational literal
    if (!T[x].hs && !T[y].hs) {
      long double d = fabsl(T[x].sh - T[y].sh), s = std::max(fabsl(T[x].sh), fabsl(T[y].sh));
      return d <= 1e-13L * std::max(1.0L, s);
    }
    return false;
  }
  return true;
}
bdouble approx(uint64_t a) { return (bdouble)T[nid(a)].sh; }

uint64_t mk_sym(const std::string& name, bool pos) {
  auto it = symix.find(name);
  if (it != symix.end()) return tg(it->second);
  Node n; n.op = SYM; n.a = n.b = 0; n.ci = S.size(); n.hs = true; n.exact = false;
  uint64_t h = std::hash<std::string>()(name);
  for (int j = 0; j < K; j++) {
    uint64_t x = splitmix(h ^ splitmix(seed0 * 7 + j)) % P;
    n.v[j] = pos ? mulm(x, x) : x;
  }
  n.sh = 0.5L + (splitmix(h ^ seed0) % 1000) / 1000.0L;
  T.push_back(n); uint32_t i = T.size() - 1;
  VKey k; memcpy(k.v, n.v, sizeof k.v); byval[k] = i;
  symix[name] = i; S.push_back({name, i, pos});
  return tg(i);
}
static std::string qs(const mpq_class& q) { return q.get_str(); }
static void shw(uint32_t i, std::ostream& o, int d) {
  const Node& n = T[i];
  static const char* nm[] = {"", "+", "-", "*", "/", "-", "sqrt", "exp", "sin", "cos", "log", "floor"};
  if (n.op == CONST) { std::string s = qs(Q[n.ci]); if (s.size() > 24) o << (bdouble)n.sh; else o << s; return; }
  if (n.op == SYM) { o << S[n.ci].name; return; }
  if (d > 5) { o << "..."; return; }
  if (n.op == POW) { o << "pow("; shw(n.a, o, d + 1); o << ","; shw(n.b, o, d + 1); o << ")"; return; }
  if (n.op <= DIV) { o << "("; shw(n.a, o, d + 1); o << nm[n.op]; shw(n.b, o, d + 1); o << ")"; return; }
  o << nm[n.op] << "("; shw(n.a, o, d + 1); o << ")";
}
std::string show(uint64_t a) { std::ostringstream o; shw(nid(a), o, 0); return o.str(); }

// ------------------------------------------------------------- path search
struct Cond { int rel; uint32_t d; bool val; };  // d REL 0
static std::vector<char> prefix; static size_t pos_ = 0;
static std::vector<char> taken;
static std::vector<Cond> pc;
static std::map<std::pair<int, uint32_t>, bool> known;
static std::vector<std::vector<char>> work;
static z3::context* ctx; static z3::solver* sol;
static std::unordered_map<uint32_t, z3::expr>* zc;
static std::vector<z3::expr>* side;
static size_t side_done = 0;
Stats stats;

static z3::expr zx(uint32_t i) {
  auto it = zc->find(i);
  if (it != zc->end()) return it->second;
  const Node n = T[i];
  z3::expr r(*ctx);
  switch (n.op) {
    case CONST: r = ctx->real_val(Q[n.ci].get_str().c_str()); break;
    case SYM: r = ctx->real_const(S[n.ci].name.c_str());
      if (S[n.ci].pos) side->push_back(r > 0); break;
    case ADD: r = zx(n.a) + zx(n.b); break;
    case SUB: r = zx(n.a) - zx(n.b); break;
    case MUL: r = zx(n.a) * zx(n.b); break;
    case DIV: {
      z3::expr b = zx(n.b);
      if (T[n.b].op == CONST) r = zx(n.a) / b;
      else { r = ctx->real_const(("q!" + std::to_string(i)).c_str()); z3::expr a = zx(n.a); side->push_back(r * b == a); side->push_back(b != 0); }
      break; }
    case NEG: r = -zx(n.a); break;
    default: {
      r = ctx->real_const(("f!" + std::to_string(i)).c_str());
      if (n.op == SQRT) { z3::expr a = zx(n.a); side->push_back(r >= 0); side->push_back(r * r == a); }
      if (n.op == EXP) side->push_back(r > 0);
      if (n.op == SIN || n.op == COS) { side->push_back(r <= 1); side->push_back(r >= -1); }
    }
  }
  zc->emplace(i, r);
  return r;
}
static z3::expr zcond(const Cond& c) {
  z3::expr d = zx(c.d), z = ctx->real_val(0);
  z3::expr e = c.rel == LT ? d < z : c.rel == LE ? d <= z : d == z;
  return c.val ? e : !e;
}
static void flush() { for (; side_done < side->size(); side_done++) sol->add((*side)[side_done]); }
static int feasible(const Cond& c) {
  z3::expr e = zcond(c); flush();
  sol->push(); sol->add(e);
  stats.z3_calls++;
  auto t0 = std::chrono::steady_clock::now();
  z3::check_result r = sol->check();
  stats.z3_s += std::chrono::duration<bdouble>(std::chrono::steady_clock::now() - t0).count();
  sol->pop();
  if (r == z3::unknown) { stats.z3_unknown++; stats.unsure = true; }
  return r == z3::unsat ? 0 : 1;
}
// Sum of monomials with a sign that is evident from positive symbols
static int evident_sign(uint32_t i, int depth = 0) {
  const Node n = T[i];  // 1: >0, -1: <0, 2: >=0, 0: unknown
  if (n.op == CONST) return Q[n.ci] > 0 ? 1 : Q[n.ci] < 0 ? -1 : 2;
  if (n.op == SYM) return S[n.ci].pos ? 1 : 0;
  if (depth > 20) return 0;
  int a = 0, b = 0;
  if (n.op == EXP) return 1;
  if (n.op == SQRT) { a = evident_sign(n.a, depth + 1); return a == 1 ? 1 : 2; }
  if (n.op == NEG) { a = evident_sign(n.a, depth + 1); return a == 1 ? -1 : a == -1 ? 1 : 0; }
  if (n.op == ADD || n.op == MUL || n.op == DIV || n.op == SUB) {
    a = evident_sign(n.a, depth + 1); if (!a && !(n.op == MUL && n.a == n.b)) return 0;
    b = evident_sign(n.b, depth + 1);
    if (n.op == MUL && n.a == n.b) return a == 1 || a == -1 ? 1 : 2;
    if (!b) return 0;
    if (n.op == SUB) { if (b == 1) b = -1; else if (b == -1) b = 1; else return 0; if (b == 1 && (a == 1 || a == 2)) return 1; if (b == -1 && a == -1) return -1; return 0; }
    if (n.op == ADD) { if (a == 1 && (b == 1 || b == 2)) return 1; if (a == 2 && b == 1) return 1; if (a == 2 && b == 2) return 2; if (a == -1 && b == -1) return -1; return 0; }
    if (a == 2 || b == 2) { if ((a == 2 && b == 1) || (a == 1 && b == 2) || (a == 2 && b == 2)) return 2; return 0; }
    return a * b;
  }
  return 0;
}
static bool decide(int rel, uint32_t d) {
  const Node n = T[d];
  if (!n.hs) {
    if (n.op == CONST) { int s = sgn(Q[n.ci]); return rel == LT ? s < 0 : rel == LE ? s <= 0 : s == 0; }
    return rel == LT ? n.sh < 0 : rel == LE ? n.sh <= 0 : fabsl(n.sh) < 1e-17L;
  }
  auto k = std::make_pair(rel, d);
  auto it = known.find(k);
  if (it != known.end()) return it->second;
  int es = evident_sign(d);
  if (es == 1) return false;
  if (es == -1) return rel != EQ;
  if (es == 2 && rel == LT) return false;
  bool val;
  if (pos_ < prefix.size()) {
    val = prefix[pos_++];
  } else {
    stats.branches++;
    bool ft = feasible({rel, d, true});
    bool ff = ft ? feasible({rel, d, false}) : true;
    if (ft && ff) {
      auto alt = taken; alt.push_back(0);
      work.push_back(alt);
      val = true;
    } else val = ft;
    pos_++;
  }
  taken.push_back(val);
  Cond c{rel, d, val};
  pc.push_back(c); known[k] = val;
  if (rel == EQ && val) stats.eqpath = true;
  if ((rel == LE && val) || (rel == LT && !val)) {  // d <= 0 and d >= 0 together: an equality
    auto kn = [&](int r, uint32_t x, bool v) { auto q = known.find({r, x}); return q != known.end() && q->second == v; };
    bool le = rel == LE; uint32_t m = n.op == SUB ? bin(SUB, n.b, n.a) : d; bool hm = n.op == SUB;
    if (le ? kn(LT, d, false) || (hm && kn(LE, m, true)) : kn(LE, d, true) || (hm && kn(LT, m, false))) stats.eqpath = true;
  }
  z3::expr e = zcond(c); flush(); sol->add(e);
  return val;
}
bool branch(int rel, uint64_t a, uint64_t b) {
  uint32_t x = nid(a), y = nid(b);
  if (x == y) return rel != LT;
  return decide(rel, bin(SUB, x, y));
}
long long to_integer_floor(uint64_t a) {
  uint32_t x = nid(a);
  if (!T[x].hs) { if (T[x].op == CONST) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), Q[T[x].ci].get_num().get_mpz_t(), Q[T[x].ci].get_den().get_mpz_t()); return z.get_si(); } return (long long)floorl(T[x].sh); }
  for (long long k = 0; k < 64; k++) {
    if (!branch(LE, tg(cnode(mpq_class(mpz_class(std::to_string(k + 1))))), a) && !branch(LT, a, tg(cnode(mpq_class(mpz_class(std::to_string(k))))))) return k;
    if (branch(LT, a, tg(cnode(mpq_class(mpz_class(std::to_string(-k)))))) && branch(LE, tg(cnode(mpq_class(mpz_class(std::to_string(-k - 1))))), a)) return -k - 1;
  }
  throw Prune{};
}
long long to_integer(uint64_t a) {
  uint32_t x = nid(a);
  const Node n = T[x];
  if (!n.hs) {
    if (n.op == CONST) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), Q[n.ci].get_num().get_mpz_t(), Q[n.ci].get_den().get_mpz_t()); return z.get_si(); }
    return (long long)n.sh;
  }
  long long f = to_integer_floor(a);
  if (f < 0 && !branch(EQ, a, mk_const_i(f))) f++;
  return f;
}
bool path_model(uint64_t a, uint64_t b, bool want_diff, std::map<std::string, bdouble>& out) {
  sol->push();
  try {
    z3::expr x = zx(nid(a)), y = zx(nid(b)); flush();
    if (want_diff) sol->add(x - y > ctx->real_val(1, 8) || y - x > ctx->real_val(1, 8));
    // keep inputs in a numerically benign range when possible
    sol->push();
    for (auto& s : S) { z3::expr e = zx(s.node); sol->add(e <= 8); sol->add(e >= -8); if (s.pos) sol->add(e >= ctx->real_val(1, 16)); }
    bool ok = false; z3::check_result r = sol->check();
    if (r != z3::sat) { sol->pop(); sol->push(); r = sol->check(); }
    if (r == z3::sat) {
      z3::model m = sol->get_model(); ok = true;
      for (auto& s : S) {
        z3::expr v = m.eval(zx(s.node), true);
        std::string t = v.get_decimal_string(20);
        if (!t.empty() && t.back() == '?') t.pop_back();
        out[s.name] = atof(t.c_str());
      }
    }
    sol->pop(); sol->pop();
    return ok;
  } catch (z3::exception& e) { }
  try { sol->pop(); } catch (...) {}
  return false;
}
// the path condition is decided exactly: no solver time-out on the path and no
// transcendental or root term inside a condition
bool path_certain() {
  if (stats.unsure) return false;
  std::set<uint32_t> seen; std::vector<uint32_t> st; for (auto& c : pc) st.push_back(c.d);
  while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (!seen.insert(i).second) continue; const Node& n = T[i]; if (n.op == SYM || n.op == CONST) continue; if (n.op > NEG) return false; st.push_back(n.a); if (n.op != NEG) st.push_back(n.b); }
  return true;
}
// a point of the current path in general position: symbols the path does not
// constrain get arbitrary values, the others are pinned one by one
bool path_point(std::map<std::string, bdouble>& out) {
  static std::map<std::string, bdouble> last; static std::vector<char> for_path; static size_t for_pc = 0, for_syms = 0; static bool last_ok = false;
  if (for_pc == pc.size() && for_path == taken && for_syms == S.size() && for_pc) { out = last; return last_ok; }
  std::set<uint32_t> seen; std::set<int> used; std::vector<uint32_t> st; for (auto& c : pc) st.push_back(c.d);
  while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (!seen.insert(i).second) continue; const Node& n = T[i]; if (n.op == SYM) used.insert(n.ci); else if (n.op != CONST) { st.push_back(n.a); if (n.op <= DIV || n.op == POW) st.push_back(n.b); } }
  uint64_t r = splitmix(seed0 + 977); bool ok = false; out.clear(); sol->push();
  try {
    for (int i : used) {
      r = splitmix(r); sol->push(); z3::expr e = zx(S[i].node); flush(); int v = (int)(r % 97) - (S[i].pos ? -3 : 48);
      sol->add(e == ctx->real_val(v, 32)); if (sol->check() == z3::sat) { sol->pop(); sol->add(e == ctx->real_val(v, 32)); } else sol->pop();
    }
    if (sol->check() == z3::sat) {
      z3::model m = sol->get_model(); ok = true;
      for (size_t i = 0; i < S.size(); i++) {
        if (used.count((int)i)) { std::string t = m.eval(zx(S[i].node), true).get_decimal_string(20); if (!t.empty() && t.back() == '?') t.pop_back(); out[S[i].name] = atof(t.c_str()); }
        else { r = splitmix(r); out[S[i].name] = (bdouble)((int)(r % 97) - (S[i].pos ? -3 : 48)) / 32; }
      }
    }
  } catch (z3::exception&) {}
  sol->pop(); last = out; for_path = taken; for_pc = pc.size(); for_syms = S.size(); last_ok = ok;
  return ok;
}
// exact-ish evaluation at a model (for paths with equality constraints)
long double eval_at(uint64_t a, const std::map<std::string, bdouble>& m) {
  std::unordered_map<uint32_t, long double> memo;
  std::function<long double(uint32_t)> ev = [&](uint32_t i) -> long double {
    auto it = memo.find(i); if (it != memo.end()) return it->second;
    const Node& n = T[i]; long double r = 0;
    switch (n.op) {
      case CONST: r = n.sh; break;
      case SYM: { auto q = m.find(S[n.ci].name); r = q == m.end() ? 0.5L : q->second; break; }
      case ADD: r = ev(n.a) + ev(n.b); break; case SUB: r = ev(n.a) - ev(n.b); break;
      case MUL: r = ev(n.a) * ev(n.b); break; case DIV: r = ev(n.a) / ev(n.b); break;
      case NEG: r = -ev(n.a); break; case SQRT: r = sqrtl(ev(n.a)); break;
      case EXP: r = expl(ev(n.a)); break; case SIN: r = sinl(ev(n.a)); break; case COS: r = cosl(ev(n.a)); break;
      case LOG: r = logl(ev(n.a)); break; case POW: r = powl(ev(n.a), ev(n.b)); break; default: r = 0;
    }
    return memo[i] = r;
  };
  return ev(nid(a));
}
std::string path_string() {
  std::ostringstream o;
  for (auto& c : pc) { o << (c.val ? "" : "not ") ; shw(c.d, o, 1); o << (c.rel == LT ? " < 0" : c.rel == LE ? " <= 0" : " == 0") << "; "; }
  return o.str();
}

// run body over all feasible paths
void explore(const std::function<void()>& body, const std::function<void(const char*, const std::string&)>& on_end, size_t max_paths, bdouble max_s, int tmo_ms) {
  auto T0 = std::chrono::steady_clock::now();
  for (int attempt = 0;; attempt++) {
    work.clear(); work.push_back({});
    bool restart = false; size_t done = 0;
    while (!work.empty()) {
      bdouble el = std::chrono::duration<bdouble>(std::chrono::steady_clock::now() - T0).count();
      if (done >= max_paths || el > max_s) { stats.truncated += work.size(); break; }
      prefix = work.back(); work.pop_back();
      pos_ = 0; taken.clear(); pc.clear(); known.clear(); stats.eqpath = stats.unsure = false;
      z3::context c; z3::solver s(c);
      z3::params p(c); p.set("timeout", (unsigned)tmo_ms); s.set(p);
      std::unordered_map<uint32_t, z3::expr> cache; std::vector<z3::expr> sd;
      ctx = &c; sol = &s; zc = &cache; side = &sd; side_done = 0;
      const char* how = "ok"; std::string msg;
      try { body(); }
      catch (Prune&) { how = "prune"; }
      catch (Restart&) { restart = true; }
      catch (Violation& v) { how = "violation"; msg = v.what(); }
      catch (z3::exception& e) { how = "z3"; msg = e.msg(); }
      catch (std::exception& e) { how = "exception"; msg = e.what(); }
      if (!restart) { on_end(how, msg); done++; if (strcmp(how, "prune")) stats.paths++; }
      cache.clear(); sd.clear();
      if (restart) break;
    }
    if (!restart) return;
    stats.restarts++; on_end("restart", "");
    if (attempt > 200) throw std::runtime_error("too many restarts");
    reset(seed0 + 1);
  }
}
static void pick_prime(uint64_t salt) {
  if (salt == 0) { P = (1ull << 61) - 1; return; }
  mpz_class z(std::to_string((1ull << 60) + (splitmix(salt) >> 5)));
  for (;;) { mpz_nextprime(z.get_mpz_t(), z.get_mpz_t()); if (mpz_fdiv_ui(z.get_mpz_t(), 4) == 3) break; }
  P = mpz_get_ui(z.get_mpz_t());
}
void reset(uint64_t seed) {
  seed0 = seed; pick_prime(stats.restarts); T.clear(); Q.clear(); S.clear(); symix.clear(); byval.clear(); dcache.clear();
}
}  // namespace sym
