#include "solver.h"
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <functional>
#include <random>
#include <sstream>
#include <unistd.h>

Solver::Solver(Ctx& cc) : c(cc), s(z) {
  z3::params p(z);
  p.set("timeout", timeoutMs);
  s.set(p);
}
void Solver::reset() {
  s.reset();
  path.clear();
  asserted = 0;
  declared.clear();
  haveModel = false;
  mi.clear();
  mr.clear();
}
void Solver::assume(X b) {
  if (b == c.T) return;
  path.push_back(b);
  c.learn(b);
  if (haveModel) {
    bool v;
    if (!evalCur(b, v) || !v) haveModel = false;
  }
}
static void mergeInto(std::vector<X>& r, const std::vector<X>& o) {
  std::vector<X> out;
  out.reserve(r.size() + o.size());
  std::set_union(r.begin(), r.end(), o.begin(), o.end(), std::back_inserter(out),
                 [](X a, X b) { return a->id < b->id; });
  r.swap(out);
}
const std::vector<X>& Solver::leaves(X e) {
  auto it = leavesCache.find(e);
  if (it != leavesCache.end()) return it->second;
  std::vector<X> r;
  switch (e->k) {
    case K::VAR: case K::BVAR: case K::RVAR: r = {e}; break;
    default:
      for (auto& p : e->t) mergeInto(r, leaves(p.first));
      for (auto x : e->a) mergeInto(r, leaves(x));
      for (auto& x : e->p) for (auto& f : x.first.f) mergeInto(r, leaves(f.first));
      if (e->k == K::RDIV || e->k == K::RSQRT) mergeInto(r, {e});
  }
  return leavesCache.emplace(e, std::move(r)).first->second;
}
z3::expr Solver::realCmp(X e) {  // POLY with cleared negative exponents of even power
  X a = e;
  PolyMap p = c.asPoly(a);
  std::map<X, int> neg;
  for (auto& x : p)
    for (auto& f : x.first.f)
      if (f.second < 0) neg[f.first] = std::max(neg[f.first], -f.second);
  if (neg.empty()) return T(a);
  PolyMap m;
  Mono mo;
  std::vector<std::pair<X, int>> fs;
  for (auto& n : neg) fs.push_back({n.first, n.first->pos ? n.second : (n.second + 1) / 2 * 2});
  std::sort(fs.begin(), fs.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  mo.f = fs;
  m[mo] = 1;
  return T(c.rmul(a, c.poly(std::move(m))));
}
z3::expr Solver::T(X e) {
  auto it = tr.find(e);
  if (it != tr.end()) return it->second;
  z3::expr r(z);
  auto num = [&](i128 v) { return z.int_val(i128s(v).c_str()); };
  switch (e->k) {
    case K::CI: r = num(e->c); break;
    case K::CB: r = z.bool_val(e->c != 0); break;
    case K::VAR: r = z.int_const((e->name + "!" + std::to_string(e->id)).c_str()); break;
    case K::BVAR: r = z.bool_const((e->name + "!" + std::to_string(e->id)).c_str()); break;
    case K::LIN: {
      z3::expr_vector v(z);
      for (auto& p : e->t) v.push_back(p.second == 1 ? T(p.first) : num(p.second) * T(p.first));
      if (e->c != 0) v.push_back(num(e->c));
      r = v.size() == 1 ? v[0] : z3::sum(v);
      break;
    }
    case K::DIV: r = z3::expr(z, Z3_mk_div(z, T(e->a[0]), num(e->c))); break;
    case K::DIVX: r = z3::expr(z, Z3_mk_div(z, T(e->a[0]), T(e->a[1]))); break;
    case K::ITE: case K::RITE: r = z3::ite(T(e->a[0]), T(e->a[1]), T(e->a[2])); break;
    case K::MUL: r = T(e->a[0]); for (size_t i = 1; i < e->a.size(); ++i) r = r * T(e->a[i]); break;
    case K::BOP: {
      z3::expr a = z3::int2bv(e->w, T(e->a[0])), b = z3::int2bv(e->w, T(e->a[1]));
      z3::expr q = e->op == 0 ? (a & b) : e->op == 1 ? (a | b) : (a ^ b);
      r = z3::bv2int(q, true);
      break;
    }
    case K::LE0: r = T(e->a[0]) <= 0; break;
    case K::EQ0: r = T(e->a[0]) == 0; break;
    case K::NOT: r = !T(e->a[0]); break;
    case K::AND: r = T(e->a[0]) && T(e->a[1]); break;
    case K::OR: r = T(e->a[0]) || T(e->a[1]); break;
    case K::RLE0: r = realCmp(e->a[0]) <= 0; break;
    case K::RLT0: r = realCmp(e->a[0]) < 0; break;
    case K::REQ0: r = realCmp(e->a[0]) == 0; break;
    case K::RVAR: case K::RDIV: case K::RSQRT:
      r = z.real_const(((e->k == K::RVAR ? e->name : e->k == K::RDIV ? "inv" : "sqrt") + "!" + std::to_string(e->id)).c_str());
      break;
    case K::I2R: r = z3::to_real(T(e->a[0])); break;
    case K::POLY: {
      if (e->p.empty()) { r = z.real_val(0); break; }
      z3::expr_vector v(z);
      for (auto& x : e->p) {
        z3::expr_vector m(z);
        if (x.second != 1 || x.first.f.empty()) m.push_back(z.real_val(x.second.get_str().c_str()));
        for (auto& f : x.first.f) {
          z3::expr b = T(f.first);
          int n = f.second < 0 ? -f.second : f.second;
          for (int i = 0; i < n; ++i) m.push_back(f.second < 0 ? z.real_val(1) / b : b);
        }
        z3::expr q = m[0];
        for (unsigned i = 1; i < m.size(); ++i) q = q * m[i];
        v.push_back(q);
      }
      r = v.size() == 1 ? v[0] : z3::sum(v);
      break;
    }
    default: throw Unsupported{"translate"};
  }
  tr.emplace(e, r);
  return r;
}
void Solver::declare(X e, z3::solver& sv, std::set<X>& decl) {
  for (X l : leaves(e)) {
    if (!decl.insert(l).second) continue;
    switch (l->k) {
      case K::VAR:
        if (l->lo > -INF) sv.add(T(l) >= z.int_val(i128s(l->lo).c_str()));
        if (l->hi < INF) sv.add(T(l) <= z.int_val(i128s(l->hi).c_str()));
        break;
      case K::RVAR:
        if (l->pos) sv.add(T(l) > 0);
        else if (l->nz) sv.add(T(l) != 0);
        break;
      case K::RDIV: sv.add(T(l) * T(l->a[0]) == 1); break;
      case K::RSQRT: sv.add(T(l) * T(l) == T(l->a[0]) && T(l) >= 0); break;
      default: break;
    }
  }
}
bool Solver::evalCur(X b, bool& out) {
  if (!haveModel) return false;
  c.model = &mi;
  c.rmodel = &mr;
  c.eval_epoch++;
  try {
    out = c.evalB(b);
    return true;
  } catch (Unsupported&) {
    return false;
  }
}
void Solver::extract(z3::model m, const std::vector<X>& lv) {
  for (X l : lv) {
    z3::expr v = m.eval(T(l), true);
    if (l->k == K::VAR) {
      std::string st = v.get_decimal_string(0);
      i128 r = 0; bool neg = false;
      std::string t = Z3_get_numeral_string(z, v);
      for (char ch : t) if (ch == '-') neg = true; else if (isdigit(ch)) r = r * 10 + (ch - '0');
      pi[l] = neg ? -r : r;
    } else if (l->k == K::BVAR) pi[l] = v.is_true();
    else if (l->k == K::RVAR) {
      if (v.is_numeral()) {
        std::string t = Z3_get_numeral_string(z, v);
        mpq_class q(t); q.canonicalize();
        pr[l] = q;
      } else {
        std::string t = v.get_decimal_string(15);
        if (!t.empty() && t.back() == '?') t.pop_back();
        pr[l] = mpq_class(std::stod(t));
      }
    }
  }
}
bool Solver::guessReal(X extra) {
  std::set<X> lv;
  for (X p : path) for (X l : leaves(p)) lv.insert(l);
  for (X l : leaves(extra)) lv.insert(l);
  bool anyReal = false;
  for (X l : lv) {
    if (l->k == K::RVAR) anyReal = true;
    if (l->k == K::RSQRT) return false;
  }
  if (!anyReal) return false;
  std::mt19937 g(12345);
  std::vector<X> ord(lv.begin(), lv.end());
  std::sort(ord.begin(), ord.end(), [](X a, X b) { return a->id < b->id; });
  for (int trial = 0; trial < 12; ++trial) {
    std::unordered_map<X, i128> gi = haveModel ? mi : std::unordered_map<X, i128>();
    std::unordered_map<X, mpq_class> gr;
    for (X l : ord)
      if (l->k == K::RVAR) {
        int n = (int) (g() % 9) - 4;
        if (l->pos) n = std::abs(n);
        if (n == 0 && l->nz) n = 2;
        gr[l] = mpq_class(n, 1 + (trial > 2 ? g() % 3 : 0));
        gr[l].canonicalize();
      }
    c.model = &gi;
    c.rmodel = &gr;
    c.eval_epoch++;
    try {
      bool ok = c.evalB(extra);
      for (X p : path) if (ok) ok = c.evalB(p);
      if (ok) {
        pi = gi;
        pr = gr;
        return true;
      }
    } catch (Unsupported&) {
    }
  }
  return false;
}
std::string Solver::smt2(X extra, std::vector<X>& lv) {
  // slice: constraints connected with the query
  std::vector<char> used(path.size(), 0);
  std::set<X> vars(leaves(extra).begin(), leaves(extra).end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < path.size(); ++i) {
      if (used[i]) continue;
      auto& l = leaves(path[i]);
      bool hit = l.empty();
      for (X v : l) if (vars.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; vars.insert(l.begin(), l.end()); }
    }
  }
  z3::solver f(z);
  std::set<X> decl;
  declare(extra, f, decl);
  for (size_t i = 0; i < path.size(); ++i) if (used[i]) { declare(path[i], f, decl); f.add(T(path[i])); }
  f.add(T(extra));
  lv.assign(decl.begin(), decl.end());
  return f.to_smt2();
}
R Solver::ext(const std::string& smt, const char* cmd) {
  char fn[] = "/tmp/vsymqXXXXXX";
  int fd = mkstemp(fn);
  if (fd < 0) return R::UNKNOWN;
  if (write(fd, smt.data(), smt.size()) < 0) {}
  close(fd);
  std::string full = std::string("timeout ") + std::to_string(extTimeoutS) + " " + cmd + " " + fn + " 2>&1";
  FILE* p = popen(full.c_str(), "r");
  std::string out;
  char buf[512];
  while (p && fgets(buf, sizeof buf, p)) out += buf;
  if (p) pclose(p);
  unlink(fn);
  if (out.find("(error") != std::string::npos) return R::UNKNOWN;
  if (out.compare(0, 5, "unsat") == 0) return R::UNSAT;
  if (out.compare(0, 3, "sat") == 0) return R::SAT;
  return R::UNKNOWN;
}
R Solver::check(X extra, bool) {
  if (extra == c.F) return R::UNSAT;
  if (std::chrono::steady_clock::now() > deadline) throw Unsupported{"time limit inside a path"};
  auto t0 = std::chrono::steady_clock::now();
  auto done = [&](R r) {
    double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    time += d;
    maxTime = std::max(maxTime, d);
    queries++;
    static const char* slow = getenv("VSYM_SLOW");
    if (slow && d > atof(slow)) { std::vector<X> lv; fprintf(stderr, "SLOW %.2fs result %d at %s\n%s\n", d, (int) r, whereFn ? whereFn().c_str() : "", smt2(extra, lv).substr(0, 6000).c_str()); }
    if (r == R::SAT) sat++;
    else if (r == R::UNSAT) unsat++;
    else unknown++;
    return r;
  };
  if (dumped < dumpMax && !dumpDir.empty()) {
    std::vector<X> lv;
    std::ofstream(dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumped++) + ".smt2") << smt2(extra, lv);
  }
  if (guessReal(extra)) return done(R::SAT);
  for (; asserted < path.size(); ++asserted) {
    declare(path[asserted], s, declared);
    s.add(T(path[asserted]));
  }
  declare(extra, s, declared);
  s.push();
  s.add(T(extra));
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception& e) { r = z3::unknown; }
  if (r == z3::sat) {
    std::set<X> lv = declared;
    for (X l : leaves(extra)) lv.insert(l);
    pi.clear();
    pr.clear();
    extract(s.get_model(), std::vector<X>(lv.begin(), lv.end()));
    s.pop();
    return done(R::SAT);
  }
  s.pop();
  if (r == z3::unsat) return done(R::UNSAT);
  // ladder: sliced query, fresh solver, then other solvers
  external++;
  std::vector<X> lv;
  std::string smt = smt2(extra, lv);
  {
    z3::solver f(z);
    z3::params p(z);
    p.set("timeout", timeoutMs);
    f.set(p);
    f.from_string(smt.c_str());
    try { r = f.check(); } catch (z3::exception&) { r = z3::unknown; }
    if (r == z3::unsat) return done(R::UNSAT);
    if (r == z3::sat) {
      pi.clear(); pr.clear();
      if (haveModel) { pi = mi; pr = mr; }
      extract(f.get_model(), lv);
      return done(R::SAT);
    }
  }
  R q = ext(smt, "cvc5 --nl-cov");
  if (q == R::UNSAT) return done(R::UNSAT);
  R q2 = ext(smt, "z3-new");
  if (q2 == R::UNSAT) return done(R::UNSAT);
  return done(R::UNKNOWN);
}
void Solver::commitModel() {
  mi = pi;
  mr = pr;
  haveModel = true;
}
