// Expression DAG of the symbolic executor.
//   Int  sort: mathematical integers (machine semantics are encoded explicitly by the interpreter)
//   Bool sort
//   Real sort: Laurent polynomials over real atoms, rational coefficients (exact)
#pragma once
#include <cstdint>
#include <gmpxx.h>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3++.h>

typedef __int128 i128;
typedef unsigned __int128 u128;

struct Unsupported {
  std::string what;
};

enum class K : uint8_t {
  // Int
  CI, VAR, LIN, DIV, DIVX, MODX, ITE, MUL, BOP,
  // Bool
  CB, LE0, EQ0, NOT, AND, OR, RLE0, RLT0, REQ0, BVAR,
  // Real
  RVAR, POLY, RITE, RDIV, RSQRT, I2R,
};

struct E;
typedef const E* X;
struct Mono {  // product of atoms^exp, sorted by atom id
  std::vector<std::pair<X, int>> f;
  bool operator==(const Mono& o) const { return f == o.f; }
};
struct MonoLess {
  bool operator()(const Mono& a, const Mono& b) const;
};
typedef std::map<Mono, mpq_class, MonoLess> PolyMap;

struct E {
  K k;
  uint32_t id = 0;
  int op = 0;                              // BOP: 0 and 1 or 2 xor ; BOP/VAR: width in w
  int w = 0;
  i128 c = 0;                              // CI value / LIN const / DIV divisor / CB
  std::vector<std::pair<X, i128>> t;       // LIN terms
  std::vector<X> a;                        // operands
  std::string name;                        // VAR/RVAR/BVAR
  PolyMap p;                               // POLY
  i128 lo = 0, hi = 0;                     // VAR static range
  bool nz = false;                         // RVAR: known non-zero;
  bool pos = false;                        // RVAR: known positive
  // caches
  mutable uint64_t repoch = ~0ull;
  mutable i128 rlo = 0, rhi = 0;
  mutable uint64_t eepoch = ~0ull;
  mutable i128 ev = 0;
  mutable mpq_class evq;
  mutable uint64_t hash = 0;
  bool isInt() const { return k <= K::BOP; }
  bool isBool() const { return k >= K::CB && k <= K::BVAR; }
  bool isReal() const { return k >= K::RVAR; }
};

struct Rng {
  i128 lo, hi;
};

extern const i128 INF;

struct Ctx {
  std::vector<E*> all;
  std::unordered_multimap<uint64_t, X> tab;
  uint64_t epoch = 0;  // range epoch
  std::unordered_map<X, Rng> overlay;
  uint64_t eval_epoch = 0;
  const std::unordered_map<X, i128>* model = nullptr;
  const std::unordered_map<X, mpq_class>* rmodel = nullptr;

  X T, F, Z, ONE;
  Ctx();
  X intern(E&& e);
  // ints
  X ci(i128 v);
  X var(const std::string& n, i128 lo, i128 hi);
  X lin(std::map<uint32_t, std::pair<X, i128>>& t, i128 c);
  X add(X a, X b) { return addmul(a, b, 1); }
  X sub(X a, X b) { return addmul(a, b, -1); }
  X addmul(X a, X b, i128 m);  // a + m*b
  X mulc(X a, i128 m);
  X mul(X a, X b);
  X divc(X a, i128 d);  // floor, d > 0
  X modc(X a, i128 d) { return sub(a, mulc(divc(a, d), d)); }
  X divx(X a, X b);  // floor division, b > 0 assumed
  X modx(X a, X b);
  X ite(X c, X a, X b);
  X bop(int op, X a, X b, int w);
  // bools
  X cb(bool b) { return b ? T : F; }
  X bvar(const std::string& n);
  X le0(X a);
  X eq0(X a);
  X le(X a, X b) { return le0(sub(a, b)); }
  X lt(X a, X b) { return le0(addmul(sub(a, b), ONE, 1)); }
  X eq(X a, X b) { return eq0(sub(a, b)); }
  X nt(X a);
  X an(X a, X b);
  X orr(X a, X b);
  X iteb(X c, X a, X b) { return orr(an(c, a), an(nt(c), b)); }
  // reals
  X poly(PolyMap&& m);
  X rc(const mpq_class& q);
  X rvar(const std::string& n, bool nz, bool pos);
  X radd(X a, X b, int sign = 1);
  X rmul(X a, X b);
  X rdiv(X a, X b);   // b != 0 assumed
  X rsqrt(X a);
  X rite(X c, X a, X b);
  X i2r(X a);
  X rle0(X a);
  X rlt0(X a);
  X req0(X a);
  PolyMap asPoly(X a);
  bool isConstReal(X a, mpq_class& q);
  bool isAtomR(X a) { return a->k != K::POLY; }

  Rng range(X e, int depth = 0);
  Rng rawRange(X e, int depth);
  void learn(X b);  // record interval facts implied by an assumed bool
  void resetOverlay() { overlay.clear(); epoch++; }
  i128 evalI(X e);
  bool evalB(X e);
  mpq_class evalR(X e);
  std::string str(X e, int depth = 0);
};

std::string i128s(i128 v);
mpz_class toMpz(i128 v);
