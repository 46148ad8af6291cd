#include "expr.h"
#include <algorithm>
#include <cassert>
#include <functional>

const i128 INF = ((i128) 1) << 120;

static i128 sat(i128 v) { return v > INF ? INF : (v < -INF ? -INF : v); }
static i128 satadd(i128 a, i128 b) {
  if (a >= INF || b >= INF) return INF;
  if (a <= -INF || b <= -INF) return -INF;
  return sat(a + b);
}
static i128 satmul(i128 a, i128 b) {
  i128 r;
  if (a == 0 || b == 0) return 0;
  if (__builtin_mul_overflow(a, b, &r)) return ((a > 0) == (b > 0)) ? INF : -INF;
  return sat(r);
}
static i128 ckadd(i128 a, i128 b) {
  i128 r;
  if (__builtin_add_overflow(a, b, &r)) throw Unsupported{"i128 coefficient overflow"};
  return r;
}
static i128 ckmul(i128 a, i128 b) {
  i128 r;
  if (__builtin_mul_overflow(a, b, &r)) throw Unsupported{"i128 coefficient overflow"};
  return r;
}
static i128 fdiv(i128 a, i128 d) {
  i128 q = a / d, r = a % d;
  return (r != 0 && ((r < 0) != (d < 0))) ? q - 1 : q;
}
std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool n = v < 0;
  u128 u = n ? -(u128) v : (u128) v;
  std::string s;
  while (u) { s += char('0' + (int) (u % 10)); u /= 10; }
  if (n) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
mpz_class toMpz(i128 v) { return mpz_class(i128s(v)); }

bool MonoLess::operator()(const Mono& a, const Mono& b) const {
  size_t n = std::min(a.f.size(), b.f.size());
  for (size_t i = 0; i < n; ++i) {
    if (a.f[i].first->id != b.f[i].first->id) return a.f[i].first->id < b.f[i].first->id;
    if (a.f[i].second != b.f[i].second) return a.f[i].second < b.f[i].second;
  }
  return a.f.size() < b.f.size();
}

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
static uint64_t hashE(const E& e) {
  uint64_t h = (uint64_t) e.k;
  h = mix(h, e.op);
  h = mix(h, e.w);
  h = mix(h, (uint64_t) e.c);
  h = mix(h, (uint64_t) (e.c >> 64));
  for (auto& p : e.t) { h = mix(h, p.first->id); h = mix(h, (uint64_t) p.second); }
  for (auto x : e.a) h = mix(h, x->id);
  h = mix(h, std::hash<std::string>()(e.name));
  for (auto& p : e.p) {
    for (auto& f : p.first.f) { h = mix(h, f.first->id); h = mix(h, f.second); }
    h = mix(h, mpz_get_si(p.second.get_num_mpz_t()));
    h = mix(h, mpz_get_si(p.second.get_den_mpz_t()));
  }
  return h;
}
static bool same(const E& a, const E& b) {
  return a.k == b.k && a.op == b.op && a.w == b.w && a.c == b.c && a.t == b.t && a.a == b.a && a.name == b.name &&
         a.p.size() == b.p.size() &&
         std::equal(a.p.begin(), a.p.end(), b.p.begin(),
                    [](auto& x, auto& y) { return x.first == y.first && x.second == y.second; });
}

X Ctx::intern(E&& e) {
  uint64_t h = hashE(e);
  auto r = tab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it)
    if (same(*it->second, e)) return it->second;
  E* n = new E(std::move(e));
  n->id = all.size();
  n->hash = h;
  all.push_back(n);
  tab.emplace(h, n);
  return n;
}

Ctx::Ctx() {
  E e; e.k = K::CB; e.c = 1; T = intern(std::move(e));
  E f; f.k = K::CB; f.c = 0; F = intern(std::move(f));
  Z = ci(0);
  ONE = ci(1);
}
X Ctx::ci(i128 v) { E e; e.k = K::CI; e.c = v; return intern(std::move(e)); }
X Ctx::var(const std::string& n, i128 lo, i128 hi) {
  E e; e.k = K::VAR; e.lo = lo; e.hi = hi;
  e.c = 0;
  // ranges are part of the identity: a name may come with different ranges on different paths
  e.name = n + "." + i128s(lo) + "." + i128s(hi);
  return intern(std::move(e));
}
X Ctx::bvar(const std::string& n) { E e; e.k = K::BVAR; e.name = n; return intern(std::move(e)); }

X Ctx::lin(std::map<uint32_t, std::pair<X, i128>>& t, i128 c) {
  for (auto it = t.begin(); it != t.end();)
    if (it->second.second == 0) it = t.erase(it); else ++it;
  if (t.empty()) return ci(c);
  if (t.size() == 1 && c == 0 && t.begin()->second.second == 1) return t.begin()->second.first;
  E e; e.k = K::LIN; e.c = c;
  for (auto& p : t) e.t.push_back(p.second);
  return intern(std::move(e));
}
static void addTo(std::map<uint32_t, std::pair<X, i128>>& t, i128& c, X a, i128 m) {
  if (a->k == K::CI) { c = ckadd(c, ckmul(a->c, m)); return; }
  if (a->k == K::LIN) {
    c = ckadd(c, ckmul(a->c, m));
    for (auto& p : a->t) {
      auto& q = t[p.first->id];
      q.first = p.first;
      q.second = ckadd(q.second, ckmul(p.second, m));
    }
    return;
  }
  auto& q = t[a->id];
  q.first = a;
  q.second = ckadd(q.second, m);
}
X Ctx::addmul(X a, X b, i128 m) {
  if (b->k == K::CI && a->k == K::CI) return ci(ckadd(a->c, ckmul(b->c, m)));
  if (b->k == K::CI && b->c == 0) return a;
  std::map<uint32_t, std::pair<X, i128>> t;
  i128 c = 0;
  addTo(t, c, a, 1);
  addTo(t, c, b, m);
  return lin(t, c);
}
X Ctx::mulc(X a, i128 m) {
  if (m == 1) return a;
  if (m == 0) return Z;
  if (a->k == K::CI) return ci(ckmul(a->c, m));
  std::map<uint32_t, std::pair<X, i128>> t;
  i128 c = 0;
  addTo(t, c, a, m);
  return lin(t, c);
}
X Ctx::mul(X a, X b) {
  if (a->k == K::CI) return mulc(b, a->c);
  if (b->k == K::CI) return mulc(a, b->c);
  auto terms = [&](X x) {
    std::vector<std::pair<std::vector<X>, i128>> r;
    if (x->k == K::LIN) {
      if (x->c) r.push_back({{}, x->c});
      for (auto& p : x->t) r.push_back({p.first->k == K::MUL ? p.first->a : std::vector<X>{p.first}, p.second});
    } else
      r.push_back({x->k == K::MUL ? x->a : std::vector<X>{x}, 1});
    return r;
  };
  auto ta = terms(a), tb = terms(b);
  std::map<uint32_t, std::pair<X, i128>> t;
  i128 c = 0;
  for (auto& p : ta)
    for (auto& q : tb) {
      std::vector<X> m = p.first;
      m.insert(m.end(), q.first.begin(), q.first.end());
      std::sort(m.begin(), m.end(), [](X x, X y) { return x->id < y->id; });
      i128 cc = ckmul(p.second, q.second);
      if (m.empty()) { c = ckadd(c, cc); continue; }
      X mx;
      if (m.size() == 1) mx = m[0];
      else { E e; e.k = K::MUL; e.a = m; mx = intern(std::move(e)); }
      addTo(t, c, mx, cc);
    }
  return lin(t, c);
}
X Ctx::divc(X a, i128 d) {
  assert(d > 0);
  if (d == 1) return a;
  if (a->k == K::CI) return ci(fdiv(a->c, d));
  std::map<uint32_t, std::pair<X, i128>> q, r;
  i128 qc = 0, rc = 0;
  if (a->k == K::LIN) {
    qc = fdiv(a->c, d);
    rc = a->c - qc * d;
    for (auto& p : a->t) {
      if (p.second % d == 0) q[p.first->id] = {p.first, p.second / d};
      else {
        // keep small residues: extract the largest multiple (towards zero) when |coef| >= d
        i128 k = p.second / d;
        if (k) q[p.first->id] = {p.first, k};
        r[p.first->id] = {p.first, p.second - k * d};
      }
    }
  } else
    r[a->id] = {a, 1};
  X A = lin(q, qc);
  X B = lin(r, rc);
  if (B->k == K::CI) return add(A, ci(fdiv(B->c, d)));
  // common factor of terms and divisor: floor((g*B' + c)/(g*d')) = floor((B' + floor(c/g))/d')
  {
    i128 g = d;
    if (B->k == K::LIN) { for (auto& p : B->t) { i128 x = p.second < 0 ? -p.second : p.second; while (x) { i128 y = g % x; g = x; x = y; } } }
    else g = 1;
    if (g > 1) {
      std::map<uint32_t, std::pair<X, i128>> t;
      for (auto& p : B->t) t[p.first->id] = {p.first, p.second / g};
      return add(A, divc(lin(t, fdiv(B->c, g)), d / g));
    }
  }
  Rng R = range(B);
  if (R.lo > -INF && R.hi < INF) {
    i128 l = fdiv(R.lo, d), h = fdiv(R.hi, d);
    if (l == h) return add(A, ci(l));
  }
  // floor(floor(x/a)/d) = floor(x/(a*d)); also floor((floor(x/a)+c)/d) = floor((x+c*a)/(a*d))
  X atom = nullptr; i128 cst = 0;
  if (B->k == K::DIV) atom = B;
  else if (B->k == K::LIN && B->t.size() == 1 && B->t[0].second == 1 && B->t[0].first->k == K::DIV) { atom = B->t[0].first; cst = B->c; }
  if (atom) {
    i128 aa = atom->c, prod;
    if (!__builtin_mul_overflow(aa, d, &prod) && prod < ((i128) 1 << 100) )
      return add(A, divc(add(atom->a[0], ci(ckmul(cst, aa))), prod));
  }
  E e; e.k = K::DIV; e.c = d; e.a = {B};
  return add(A, intern(std::move(e)));
}
X Ctx::divx(X a, X b) {
  if (b->k == K::CI && b->c > 0) return divc(a, b->c);
  Rng ra = range(a), rb = range(b);
  if (ra.lo >= 0 && rb.lo > ra.hi) return Z;
  if (a == b) return ONE;
  E e; e.k = K::DIVX; e.a = {a, b};
  return intern(std::move(e));
}
X Ctx::modx(X a, X b) {
  if (b->k == K::CI && b->c > 0) return modc(a, b->c);
  Rng ra = range(a), rb = range(b);
  if (ra.lo >= 0 && rb.lo > ra.hi) return a;
  return sub(a, mul(b, divx(a, b)));
}
X Ctx::ite(X c, X a, X b) {
  if (c == T) return a;
  if (c == F) return b;
  if (a == b) return a;
  if (c->k == K::NOT) return ite(c->a[0], b, a);
  // factor a common constant difference: ite(c, k1, k2) keep as atom
  E e; e.k = K::ITE; e.a = {c, a, b};
  return intern(std::move(e));
}
X Ctx::bop(int op, X a, X b, int w) {
  if (a->id > b->id) std::swap(a, b);
  E e; e.k = K::BOP; e.op = op; e.w = w; e.a = {a, b};
  return intern(std::move(e));
}
static i128 gcdOf(X a) {
  i128 g = 0;
  for (auto& p : a->t) {
    i128 x = p.second < 0 ? -p.second : p.second;
    while (x) { i128 y = g % x; g = x; x = y; }
  }
  return g;
}
X Ctx::le0(X a) {
  if (a->k == K::CI) return cb(a->c <= 0);
  if (a->k == K::LIN) {
    i128 g = gcdOf(a);
    if (g > 1) {
      std::map<uint32_t, std::pair<X, i128>> t;
      for (auto& p : a->t) t[p.first->id] = {p.first, p.second / g};
      a = lin(t, -fdiv(-a->c, g));  // ceil
    }
  }
  Rng r = range(a);
  if (r.hi <= 0) return T;
  if (r.lo > 0) return F;
  // ite(c, k1, k2)*m + k <= 0 with decided branches
  if (a->k == K::ITE || (a->k == K::LIN && a->t.size() == 1 && a->t[0].first->k == K::ITE)) {
    X it = a->k == K::ITE ? a : a->t[0].first;
    i128 m = a->k == K::ITE ? 1 : a->t[0].second, c = a->k == K::ITE ? 0 : a->c;
    if (it->a[1]->k == K::CI && it->a[2]->k == K::CI) {
      bool t = m * it->a[1]->c + c <= 0, f = m * it->a[2]->c + c <= 0;
      if (t && f) return T;
      if (!t && !f) return F;
      return t ? it->a[0] : nt(it->a[0]);
    }
  }
  E e; e.k = K::LE0; e.a = {a};
  return intern(std::move(e));
}
X Ctx::eq0(X a) {
  if (a->k == K::CI) return cb(a->c == 0);
  if (a->k == K::LIN) {
    i128 g = gcdOf(a);
    if (a->c % g != 0) return F;
    if (a->t[0].second < 0) g = -g;
    if (g != 1) {
      std::map<uint32_t, std::pair<X, i128>> t;
      for (auto& p : a->t) t[p.first->id] = {p.first, p.second / g};
      a = lin(t, a->c / g);
    }
  }
  Rng r = range(a);
  if (r.lo > 0 || r.hi < 0) return F;
  if (r.lo == 0 && r.hi == 0) return T;
  if (a->k == K::ITE || (a->k == K::LIN && a->t.size() == 1 && a->t[0].first->k == K::ITE)) {
    X it = a->k == K::ITE ? a : a->t[0].first;
    i128 m = a->k == K::ITE ? 1 : a->t[0].second, c = a->k == K::ITE ? 0 : a->c;
    if (it->a[1]->k == K::CI && it->a[2]->k == K::CI) {
      bool t = m * it->a[1]->c + c == 0, f = m * it->a[2]->c + c == 0;
      if (t && f) return T;
      if (!t && !f) return F;
      return t ? it->a[0] : nt(it->a[0]);
    }
  }
  E e; e.k = K::EQ0; e.a = {a};
  return intern(std::move(e));
}
X Ctx::nt(X a) {
  if (a == T) return F;
  if (a == F) return T;
  if (a->k == K::NOT) return a->a[0];
  if (a->k == K::LE0) return le0(sub(ONE, a->a[0]));
  if (a->k == K::RLE0) return rlt0(rmul(rc(-1), a->a[0]));
  if (a->k == K::RLT0) return rle0(rmul(rc(-1), a->a[0]));
  E e; e.k = K::NOT; e.a = {a};
  return intern(std::move(e));
}
X Ctx::an(X a, X b) {
  if (a == F || b == F) return F;
  if (a == T) return b;
  if (b == T || a == b) return a;
  if (nt(a) == b) return F;
  if (a->id > b->id) std::swap(a, b);
  E e; e.k = K::AND; e.a = {a, b};
  return intern(std::move(e));
}
X Ctx::orr(X a, X b) {
  if (a == T || b == T) return T;
  if (a == F) return b;
  if (b == F || a == b) return a;
  if (nt(a) == b) return T;
  if (a->id > b->id) std::swap(a, b);
  E e; e.k = K::OR; e.a = {a, b};
  return intern(std::move(e));
}

// ---------------------------------------------------------------- reals
PolyMap Ctx::asPoly(X a) {
  if (a->k == K::POLY) return a->p;
  PolyMap m;
  Mono mo; mo.f.push_back({a, 1});
  m[mo] = 1;
  return m;
}
X Ctx::poly(PolyMap&& m) {
  for (auto it = m.begin(); it != m.end();)
    if (it->second == 0) it = m.erase(it); else ++it;
  if (m.size() == 1) {
    auto& mo = *m.begin();
    if (mo.second == 1 && mo.first.f.size() == 1 && mo.first.f[0].second == 1) return mo.first.f[0].first;
  }
  E e; e.k = K::POLY; e.p = std::move(m);
  return intern(std::move(e));
}
X Ctx::rc(const mpq_class& q) {
  PolyMap m;
  if (q != 0) m[Mono()] = q;
  return poly(std::move(m));
}
bool Ctx::isConstReal(X a, mpq_class& q) {
  if (a->k != K::POLY) return false;
  if (a->p.empty()) { q = 0; return true; }
  if (a->p.size() == 1 && a->p.begin()->first.f.empty()) { q = a->p.begin()->second; return true; }
  return false;
}
X Ctx::rvar(const std::string& n, bool nz, bool pos) {
  E e; e.k = K::RVAR; e.name = n + (pos ? ".pos" : nz ? ".nz" : "");
  X x = intern(std::move(e));
  const_cast<E*>(x)->nz |= nz || pos;
  const_cast<E*>(x)->pos |= pos;
  return x;
}
X Ctx::radd(X a, X b, int sign) {
  PolyMap m = asPoly(a);
  PolyMap tmp;
  const PolyMap* pb = &b->p;
  if (b->k != K::POLY) { tmp = asPoly(b); pb = &tmp; }
  for (auto& p : *pb) {
    auto& q = m[p.first];
    if (sign > 0) q += p.second; else q -= p.second;
  }
  return poly(std::move(m));
}
static Mono mulMono(const Mono& a, const Mono& b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.f.size() || j < b.f.size()) {
    if (j == b.f.size() || (i < a.f.size() && a.f[i].first->id < b.f[j].first->id)) r.f.push_back(a.f[i++]);
    else if (i == a.f.size() || b.f[j].first->id < a.f[i].first->id) r.f.push_back(b.f[j++]);
    else {
      int e = a.f[i].second + b.f[j].second;
      if (e) r.f.push_back({a.f[i].first, e});
      ++i; ++j;
    }
  }
  return r;
}
// s*s -> argument for square-root atoms is applied on products
X Ctx::rmul(X a, X b) {
  mpq_class q;
  if (isConstReal(a, q) && q == 1) return b;
  if (isConstReal(b, q) && q == 1) return a;
  PolyMap pa = asPoly(a), pb = asPoly(b);
  if (pa.empty() || pb.empty()) return rc(0);
  if (pa.size() * pb.size() > 2000000) throw Unsupported{"polynomial too large"};
  PolyMap m;
  std::vector<std::pair<Mono, mpq_class>> red;
  for (auto& x : pa)
    for (auto& y : pb) {
      Mono mo = mulMono(x.first, y.first);
      m[mo] += x.second * y.second;
    }
  // reduce even powers of square roots
  bool hasSq = false;
  for (auto& x : m) for (auto& f : x.first.f) if (f.first->k == K::RSQRT && (f.second >= 2 || f.second <= -2)) hasSq = true;
  if (!hasSq) return poly(std::move(m));
  X acc = rc(0);
  for (auto& x : m) {
    if (x.second == 0) continue;
    Mono rest; X prod = rc(x.second);
    std::vector<std::pair<X, int>> sq;
    for (auto& f : x.first.f) {
      if (f.first->k == K::RSQRT && (f.second >= 2 || f.second <= -2)) {
        int h = f.second / 2;
        sq.push_back({f.first->a[0], h});
        if (f.second % 2) rest.f.push_back({f.first, f.second % 2});
      } else rest.f.push_back(f);
    }
    PolyMap one; one[rest] = 1;
    prod = rmul(prod, poly(std::move(one)));
    for (auto& s : sq)
      for (int i = 0; i < (s.second > 0 ? s.second : -s.second); ++i)
        prod = s.second > 0 ? rmul(prod, s.first) : rdiv(prod, s.first);
    acc = radd(acc, prod);
  }
  return acc;
}
X Ctx::rdiv(X a, X b) {
  PolyMap pb = asPoly(b);
  if (pb.empty()) throw Unsupported{"division by zero (real)"};
  if (asPoly(a).empty()) return rc(0);
  if (pb.size() == 1) {
    PolyMap inv;
    Mono mo = pb.begin()->first;
    for (auto& f : mo.f) f.second = -f.second;
    inv[mo] = 1 / pb.begin()->second;
    return rmul(a, poly(std::move(inv)));
  }
  if (a == b) return rc(1);
  // exact multiple by constant
  PolyMap pa = asPoly(a);
  if (pa.size() == pb.size()) {
    mpq_class r = pa.begin()->second / pb.begin()->second;
    bool ok = true;
    for (auto i = pa.begin(), j = pb.begin(); i != pa.end(); ++i, ++j)
      if (!(i->first == j->first) || i->second != r * j->second) { ok = false; break; }
    if (ok) return rc(r);
  }
  // 1/b as an atom with its defining axiom
  E e; e.k = K::RDIV; e.a = {b};
  X inv = intern(std::move(e));
  return rmul(a, inv);
}
X Ctx::rsqrt(X a) {
  mpq_class q;
  if (isConstReal(a, q)) {
    if (q < 0) throw Unsupported{"sqrt of negative"};
    mpz_class n, d;
    if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) {
      mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t());
      mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t());
      return rc(mpq_class(n, d));
    }
  }
  PolyMap p = asPoly(a);
  if (p.size() == 1) {
    auto& x = *p.begin();
    bool ok = x.second > 0 && mpz_perfect_square_p(x.second.get_num_mpz_t()) && mpz_perfect_square_p(x.second.get_den_mpz_t());
    Mono mo;
    for (auto& f : x.first.f) {
      if (f.second % 2 || !f.first->pos) ok = false;
      mo.f.push_back({f.first, f.second / 2});
    }
    if (ok) {
      mpz_class n, d;
      mpz_sqrt(n.get_mpz_t(), x.second.get_num_mpz_t());
      mpz_sqrt(d.get_mpz_t(), x.second.get_den_mpz_t());
      PolyMap m; m[mo] = mpq_class(n, d);
      return poly(std::move(m));
    }
  }
  E e; e.k = K::RSQRT; e.a = {a};
  X s = intern(std::move(e));
  return s;
}
X Ctx::rite(X c, X a, X b) {
  if (c == T) return a;
  if (c == F) return b;
  if (a == b) return a;
  E e; e.k = K::RITE; e.a = {c, a, b};
  return intern(std::move(e));
}
X Ctx::i2r(X a) {
  if (a->k == K::CI) return rc(mpq_class(toMpz(a->c)));
  E e; e.k = K::I2R; e.a = {a};
  return intern(std::move(e));
}
static int signOf(Ctx& c, X a) {  // 2 unknown
  mpq_class q;
  if (c.isConstReal(a, q)) return q > 0 ? 1 : (q < 0 ? -1 : 0);
  PolyMap p = c.asPoly(a);
  int s = 0;
  bool strict = false;
  for (auto& x : p) {
    int t = x.second > 0 ? 1 : -1;
    bool st = true;
    for (auto& f : x.first.f) {
      if (f.first->pos) continue;
      if (f.second % 2 == 0) { if (!f.first->nz) st = false; continue; }
      return 2;
    }
    if (s && s != t) return 2;
    s = t;
    strict |= st;
  }
  return strict ? s : (s > 0 ? 3 : -3);  // 3: >=0, -3: <=0
}
X Ctx::rle0(X a) {
  int s = signOf(*this, a);
  if (s == -1 || s == 0 || s == -3) return T;
  if (s == 1) return F;
  E e; e.k = K::RLE0; e.a = {a};
  return intern(std::move(e));
}
X Ctx::rlt0(X a) {
  int s = signOf(*this, a);
  if (s == -1) return T;
  if (s == 1 || s == 0 || s == 3) return F;
  E e; e.k = K::RLT0; e.a = {a};
  return intern(std::move(e));
}
X Ctx::req0(X a) {
  int s = signOf(*this, a);
  if (s == 0) return T;
  if (s == 1 || s == -1) return F;
  E e; e.k = K::REQ0; e.a = {a};
  return intern(std::move(e));
}

// ---------------------------------------------------------------- ranges
Rng Ctx::range(X e, int depth) {
  if (e->k == K::CI) return {e->c, e->c};
  if (e->repoch == epoch) return {e->rlo, e->rhi};
  Rng r = rawRange(e, depth);
  auto it = overlay.find(e);
  if (it != overlay.end()) {
    r.lo = std::max(r.lo, it->second.lo);
    r.hi = std::min(r.hi, it->second.hi);
  }
  if (depth < 6) { e->repoch = epoch; e->rlo = r.lo; e->rhi = r.hi; }
  return r;
}
Rng Ctx::rawRange(X e, int depth) {
  switch (e->k) {
    case K::CI: return {e->c, e->c};
    case K::VAR: return {e->lo, e->hi};
    case K::LIN: {
      i128 lo = e->c, hi = e->c;
      for (auto& p : e->t) {
        Rng r = range(p.first, depth);
        i128 a = satmul(r.lo, p.second), b = satmul(r.hi, p.second);
        if (p.second < 0) std::swap(a, b);
        lo = satadd(lo, a);
        hi = satadd(hi, b);
      }
      if (depth < 6)
        for (auto& p : e->t)
          if (p.first->k == K::DIV && p.second % p.first->c == 0) {
            // c*DIV(B,d) = k*(B - (B mod d)), k = c/d
            i128 d = p.first->c, k = p.second / d;
            bool useful = false;
            X B = p.first->a[0];
            // only when some atom of B cancels
            auto has = [&](X atom, i128 coef) {
              for (auto& q : e->t) if (q.first == atom && q.second == coef) return true;
              return false;
            };
            if (B->k == K::LIN) { for (auto& q : B->t) { i128 r; if (!__builtin_mul_overflow(q.second, k, &r) && has(q.first, -r)) useful = true; } }
            else useful = has(B, -k);
            if (!useful) continue;
            std::map<uint32_t, std::pair<X, i128>> t;
            i128 c = 0;
            addTo(t, c, e, 1);
            addTo(t, c, p.first, -p.second);
            addTo(t, c, B, k);
            X rest = lin(t, c);
            Rng r = range(rest, depth + 1);
            i128 a = k > 0 ? satmul(-k, d - 1) : 0, b = k > 0 ? 0 : satmul(-k, d - 1);
            lo = std::max(lo, satadd(r.lo, a));
            hi = std::min(hi, satadd(r.hi, b));
          }
      return {lo, hi};
    }
    case K::DIV: {
      Rng r = range(e->a[0], depth);
      return {r.lo <= -INF ? -INF : fdiv(r.lo, e->c), r.hi >= INF ? INF : fdiv(r.hi, e->c)};
    }
    case K::DIVX: {
      Rng a = range(e->a[0], depth), b = range(e->a[1], depth);
      if (b.lo < 1) b.lo = 1;
      if (a.lo >= 0) return {b.hi >= INF ? 0 : a.lo / b.hi, a.hi >= INF ? INF : a.hi / b.lo};
      return {a.lo, std::max<i128>(a.hi, 0)};
    }
    case K::ITE: {
      Rng a = range(e->a[1], depth), b = range(e->a[2], depth);
      return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
    }
    case K::MUL: {
      Rng r = range(e->a[0], depth);
      for (size_t i = 1; i < e->a.size(); ++i) {
        if (i == 1 && e->a.size() == 2 && e->a[0] == e->a[1]) {
          i128 m = std::max(satmul(r.lo, r.lo), satmul(r.hi, r.hi));
          return {(r.lo <= 0 && r.hi >= 0) ? 0 : std::min(satmul(r.lo, r.lo), satmul(r.hi, r.hi)), m};
        }
        Rng s = range(e->a[i], depth);
        i128 v[4] = {satmul(r.lo, s.lo), satmul(r.lo, s.hi), satmul(r.hi, s.lo), satmul(r.hi, s.hi)};
        r = {*std::min_element(v, v + 4), *std::max_element(v, v + 4)};
      }
      return r;
    }
    case K::BOP: {
      Rng a = range(e->a[0], depth), b = range(e->a[1], depth);
      if (e->op == 0 && a.lo >= 0 && b.lo >= 0) return {0, std::min(a.hi, b.hi)};
      i128 m = ((i128) 1) << (e->w - 1);
      if (a.lo >= 0 && b.lo >= 0) {
        i128 h = 1;
        while (h <= a.hi || h <= b.hi) h <<= 1;
        return {0, h - 1};
      }
      return {-m, m - 1};
    }
    default: return {-INF, INF};
  }
}
void Ctx::learn(X b) {
  if (b->k == K::AND) { learn(b->a[0]); learn(b->a[1]); return; }
  auto put = [&](X atom, i128 lo, i128 hi) {
    Rng cur = range(atom);
    if (lo > cur.lo || hi < cur.hi) {
      auto it = overlay.find(atom);
      if (it == overlay.end()) overlay[atom] = {std::max(lo, cur.lo), std::min(hi, cur.hi)};
      else { it->second.lo = std::max(it->second.lo, std::max(lo, cur.lo)); it->second.hi = std::min(it->second.hi, std::min(hi, cur.hi)); }
      epoch++;
    }
  };
  X a = b->k == K::NOT ? b->a[0]->a.empty() ? nullptr : b->a[0]->a[0] : (b->a.empty() ? nullptr : b->a[0]);
  if (!a) return;
  bool le = b->k == K::LE0, eq = b->k == K::EQ0;
  if (b->k == K::NOT && b->a[0]->k == K::EQ0) {
    // e != 0: tighten if 0 is an end point
    X v = b->a[0]->a[0];
    Rng r = range(v);
    if (r.lo == 0) put(v, 1, INF);
    else if (r.hi == 0) put(v, -INF, -1);
    // single atom with coefficient 1
    if (v->k == K::LIN && v->t.size() == 1 && v->t[0].second == 1) {
      Rng q = range(v->t[0].first);
      if (q.lo == -v->c) put(v->t[0].first, -v->c + 1, INF);
      else if (q.hi == -v->c) put(v->t[0].first, -INF, -v->c - 1);
    }
    return;
  }
  if (!le && !eq) return;
  // whole expression
  put(a, eq ? 0 : -INF, 0);
  X neg = nullptr;
  if (a->k == K::LIN) {
    neg = mulc(a, -1);
    put(neg, 0, eq ? 0 : INF);
    // propagate to each atom:  c*x <= -rest  => bound
    for (auto& p : a->t) {
      if (a->t.size() > 6) break;
      X rest = addmul(a, p.first, -p.second);
      Rng r = range(rest);
      // c*x <= -rest.lo
      if (r.lo > -INF) {
        i128 bnd = -r.lo;
        if (p.second > 0) put(p.first, -INF, fdiv(bnd, p.second));
        else put(p.first, -fdiv(bnd, -p.second), INF);
      }
      if (eq && r.hi < INF) {
        i128 bnd = -r.hi;  // c*x >= -rest.hi
        if (p.second > 0) put(p.first, -fdiv(-bnd, p.second), INF);
        else put(p.first, -INF, fdiv(-bnd, -p.second));
      }
    }
  }
}
// ---------------------------------------------------------------- evaluation under a model
i128 Ctx::evalI(X e) {
  if (e->k == K::CI) return e->c;
  if (e->eepoch == eval_epoch) return e->ev;
  i128 v = 0;
  switch (e->k) {
    case K::VAR: { auto it = model->find(e); v = it == model->end() ? (e->lo > 0 ? e->lo : (e->hi < 0 ? e->hi : 0)) : it->second; break; }
    case K::LIN: v = e->c; for (auto& p : e->t) v = ckadd(v, ckmul(p.second, evalI(p.first))); break;
    case K::DIV: v = fdiv(evalI(e->a[0]), e->c); break;
    case K::DIVX: { i128 d = evalI(e->a[1]); v = d > 0 ? fdiv(evalI(e->a[0]), d) : 0; break; }
    case K::ITE: v = evalB(e->a[0]) ? evalI(e->a[1]) : evalI(e->a[2]); break;
    case K::MUL: v = 1; for (auto x : e->a) v = ckmul(v, evalI(x)); break;
    case K::BOP: {
      i128 a = evalI(e->a[0]), b = evalI(e->a[1]);
      v = e->op == 0 ? (a & b) : e->op == 1 ? (a | b) : (a ^ b);
      break;
    }
    default: throw Unsupported{"evalI"};
  }
  e->eepoch = eval_epoch;
  e->ev = v;
  return v;
}
bool Ctx::evalB(X e) {
  if (e->k == K::CB) return e->c != 0;
  if (e->eepoch == eval_epoch) return e->ev != 0;
  bool v = false;
  switch (e->k) {
    case K::LE0: v = evalI(e->a[0]) <= 0; break;
    case K::EQ0: v = evalI(e->a[0]) == 0; break;
    case K::NOT: v = !evalB(e->a[0]); break;
    case K::AND: v = evalB(e->a[0]) && evalB(e->a[1]); break;
    case K::OR: v = evalB(e->a[0]) || evalB(e->a[1]); break;
    case K::BVAR: { auto it = model->find(e); v = it != model->end() && it->second; break; }
    case K::RLE0: v = evalR(e->a[0]) <= 0; break;
    case K::RLT0: v = evalR(e->a[0]) < 0; break;
    case K::REQ0: v = evalR(e->a[0]) == 0; break;
    default: throw Unsupported{"evalB"};
  }
  e->eepoch = eval_epoch;
  e->ev = v;
  return v;
}
mpq_class Ctx::evalR(X e) {
  if (e->eepoch == eval_epoch) return e->evq;
  mpq_class v;
  switch (e->k) {
    case K::RVAR: { auto it = rmodel->find(e); v = it == rmodel->end() ? mpq_class(e->nz ? 1 : 0) : it->second; break; }
    case K::I2R: v = mpq_class(toMpz(evalI(e->a[0]))); break;
    case K::RITE: v = evalB(e->a[0]) ? evalR(e->a[1]) : evalR(e->a[2]); break;
    case K::RDIV: { mpq_class d = evalR(e->a[0]); if (d == 0) throw Unsupported{"evalR div0"}; v = 1 / d; break; }
    case K::POLY:
      v = 0;
      for (auto& x : e->p) {
        mpq_class m = x.second;
        for (auto& f : x.first.f) {
          mpq_class b = evalR(f.first);
          int n = f.second;
          if (n < 0) { if (b == 0) throw Unsupported{"evalR div0"}; b = 1 / b; n = -n; }
          for (int i = 0; i < n; ++i) m *= b;
        }
        v += m;
      }
      break;
    default: throw Unsupported{"evalR"};
  }
  e->eepoch = eval_epoch;
  e->evq = v;
  return v;
}
std::string Ctx::str(X e, int depth) {
  if (depth > 5) return "..";
  auto S = [&](X x) { return str(x, depth + 1); };
  switch (e->k) {
    case K::CI: return i128s(e->c);
    case K::CB: return e->c ? "true" : "false";
    case K::VAR: case K::RVAR: case K::BVAR: return e->name;
    case K::LIN: { std::string s = "("; for (auto& p : e->t) s += i128s(p.second) + "*" + S(p.first) + "+"; return s + i128s(e->c) + ")"; }
    case K::DIV: return "floor(" + S(e->a[0]) + "/" + i128s(e->c) + ")";
    case K::DIVX: return "floor(" + S(e->a[0]) + "/" + S(e->a[1]) + ")";
    case K::ITE: case K::RITE: return "(" + S(e->a[0]) + "?" + S(e->a[1]) + ":" + S(e->a[2]) + ")";
    case K::MUL: { std::string s; for (auto x : e->a) s += (s.empty() ? "" : "*") + S(x); return s; }
    case K::BOP: return std::string(e->op == 0 ? "and" : e->op == 1 ? "or" : "xor") + "(" + S(e->a[0]) + "," + S(e->a[1]) + ")";
    case K::LE0: return S(e->a[0]) + "<=0";
    case K::EQ0: return S(e->a[0]) + "==0";
    case K::NOT: return "!(" + S(e->a[0]) + ")";
    case K::AND: return "(" + S(e->a[0]) + " && " + S(e->a[1]) + ")";
    case K::OR: return "(" + S(e->a[0]) + " || " + S(e->a[1]) + ")";
    case K::RLE0: return S(e->a[0]) + "<=0";
    case K::RLT0: return S(e->a[0]) + "<0";
    case K::REQ0: return S(e->a[0]) + "==0";
    case K::RDIV: return "1/(" + S(e->a[0]) + ")";
    case K::RSQRT: return "sqrt(" + S(e->a[0]) + ")";
    case K::I2R: return "real(" + S(e->a[0]) + ")";
    case K::POLY: {
      if (e->p.empty()) return "0";
      std::string s;
      int n = 0;
      for (auto& x : e->p) {
        if (++n > 6) { s += "+.."; break; }
        if (!s.empty()) s += "+";
        s += x.second.get_str();
        for (auto& f : x.first.f) s += "*" + S(f.first) + (f.second != 1 ? "^" + std::to_string(f.second) : "");
      }
      return s;
    }
  }
  return "?";
}
