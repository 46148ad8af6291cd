// vsym: bounded symbolic executor for LLVM IR (clang 18) with an SMT back end.
// Paths are explored by re-execution from the entry with a decision prefix.
#include "solver.h"
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

using namespace llvm;

enum VK : uint8_t { UNDEF, INT, SYM, SB, FP, FR, AGG };
struct Agg;
struct Val {
  uint8_t k = UNDEF;
  uint8_t w = 0;
  union {
    int64_t c;
    double d;
    X e;
    Agg* g;
  };
  Val() : c(0) {}
  static Val I(int64_t v, int w) {
    Val r; r.k = INT; r.w = w;
    r.c = w >= 64 ? v : (w == 1 ? (v & 1) : (int64_t) ((uint64_t) v << (64 - w)) >> (64 - w));
    return r;
  }
  static Val D(double v, int w = 64) { Val r; r.k = FP; r.w = w; r.d = w == 32 ? (double) (float) v : v; return r; }
};
struct Agg { std::vector<Val> v; };

struct PathEnd { enum Kind { OK, ASSUME, ABORT, ERROR, SHARD } kind; std::string msg; };

struct Cell { Val v; uint32_t size; };
struct Obj {
  uint64_t base = 0, size = 0;
  bool alive = true, backed = true, ro = false, dirty = false;
  uint8_t kind = 0;  // 0 stack 1 heap 2 global
  std::vector<uint8_t> data, mask;  // mask: 0 uninit 1 concrete 2 cell start 3 cell continuation
  std::unordered_map<uint32_t, Cell> cells;
  std::string name;
};

struct Opnd { int slot = -1; Val c; };
struct GepIdx { int op; int64_t scale; };
struct Inst {
  const Instruction* I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  std::vector<Opnd> ops;
  Type* ty = nullptr;
  int64_t imm = 0;
  std::vector<GepIdx> gep;
  Function* callee = nullptr;
  std::vector<int> succ;
  std::vector<std::pair<int, Opnd>> phi;  // pred block -> value
  std::vector<std::pair<Opnd, bool>> guard;  // speculated instruction: its (poison) result is used only under these conditions
};
struct Block { std::vector<Inst> insts; int nphi = 0; };
struct Code {
  Function* F;
  int nslots = 0;
  std::vector<Block> blocks;
  std::string dname;
  bool ran = false, byval = false;
};
struct Frame {
  Code* code;
  std::vector<Val> r;
  int bb = 0, ip = 0, prev = -1;
  std::vector<uint32_t> allocas;
  int retDst = -1;       // slot in the caller
  bool viaInvoke = false;
};
struct Fiber { std::vector<Frame> st; bool done = false; };

struct Decision { uint8_t kind; int64_t v; };  // kind: 0 branch-forced 1 branch-fork 2 pick 3 conc 4 check-done 5 query result

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> vals; };

struct Interp {
  LLVMContext lc;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  Ctx c;
  Solver S{c};
  std::unordered_map<const Function*, std::unique_ptr<Code>> codes;
  // address space
  std::vector<uint32_t> regionObj;  // addr>>32 -> obj index+1
  std::deque<Obj> objs;
  std::unordered_map<const GlobalVariable*, uint32_t> globals;
  std::unordered_map<const Function*, uint64_t> fnAddr;
  std::vector<const Function*> fnByIdx;
  std::vector<std::unique_ptr<Agg>> aggs;
  std::deque<uint32_t> freeStack;
  // exploration
  std::vector<std::vector<Decision>> work;
  std::vector<Decision> prefix;
  size_t pos = 0;
  bool abortOk = false;
  std::string curCover;
  std::vector<Fiber> fibers;
  int cur = 0;
  std::vector<std::pair<std::string, Val>> nondet;
  std::map<std::string, int> nameCount;
  long steps = 0;
  // exceptions
  struct Exc { uint64_t obj; uint64_t tinfo; };
  std::vector<Exc> caught;
  uint64_t curExcObj = 0, curExcTinfo = 0;
  std::unordered_map<uint64_t, uint64_t> excType;  // object -> typeinfo
  // configuration
  long maxSteps = 100000000, maxPaths = 1000000000;
  double timeLimit = 600;
  int shard = 0, nshard = 1;
  std::map<std::string, std::vector<int64_t>> pins;
  std::map<std::string, int64_t> params;
  bool epsFP = false;
  int maxViol = 3;
  // results
  long paths = 0, okPaths = 0, assumeEnds = 0, abortEnds = 0, totalSteps = 0, checks = 0, checksTrivial = 0, obligations = 0, obligTrivial = 0, forks = 0, picks = 0;
  std::map<std::string, long> covers, checkCount, inconcl;
  std::vector<Violation> viols;
  std::map<std::string, int> violCount;
  std::set<std::string> fnsRun;
  std::map<std::string, long> stubs;
  std::vector<std::string> samples;
  struct Witness { std::string cover; bool full = false; std::vector<std::pair<std::string, std::string>> vals; };
  std::vector<Witness> witnesses;
  std::vector<size_t> openWit;
  void closeWitnesses() {  // the path is complete: give its witnesses the values of a full run
    if (openWit.empty()) return;
    if (!S.haveModel && !S.path.empty()) { if (S.check(c.T) != R::SAT) return; S.commitModel(); }
    c.model = &S.mi; c.rmodel = &S.mr; c.eval_epoch++;
    for (size_t i : openWit) {
      bool ok = true;
      std::vector<std::pair<std::string, std::string>> v;
      for (auto& q : nondet) v.push_back({q.first, valString(q.second, ok)});
      if (ok) { witnesses[i].vals = v; witnesses[i].full = true; }
    }
  }
  std::chrono::steady_clock::time_point t0;
  std::string pathNote;
  bool sharded = false;
  std::mt19937_64 rng{1};
  long depthLimit = 2000;

  // ------------------------------------------------------------ helpers
  [[noreturn]] void fail(const std::string& m) { throw Unsupported{m + where()}; }
  std::string where() {
    if (fibers.empty() || fibers[cur].st.empty()) return "";
    std::string s;
    int n = 0;
    auto& st = fibers[cur].st;
    for (int i = (int) st.size() - 1; i >= 0 && n < 4; --i, ++n) {
      Frame& f = st[i];
      auto& b = f.code->blocks[f.bb].insts;
      int ip = std::max(0, std::min((int) b.size() - 1, f.ip - 1));
      std::string loc;
      if (!b.empty() && b[ip].I)
        if (auto& d = b[ip].I->getDebugLoc()) loc = ":" + std::to_string(d.getLine());
      s += " @ " + f.code->dname.substr(0, 100) + loc;
    }
    return s;
  }
  Val SYMv(X e, int w) {
    if (e->k == K::CI && w <= 64) return Val::I((int64_t) e->c, w);
    Val r; r.k = SYM; r.w = w; r.e = e;
    return r;
  }
  Val SBv(X b) {
    if (b == c.T) return Val::I(1, 1);
    if (b == c.F) return Val::I(0, 1);
    Val r; r.k = SB; r.w = 1; r.e = b;
    return r;
  }
  Val FRv(X e) { Val r; r.k = FR; r.w = 64; r.e = e; return r; }
  bool decoding = false;
  std::vector<std::unique_ptr<Agg>> constAggs;
  Val AGGv(std::vector<Val> v) {
    auto& ar = decoding ? constAggs : aggs;
    ar.emplace_back(new Agg{std::move(v)});
    Val r; r.k = AGG; r.g = ar.back().get();
    return r;
  }
  X asInt(const Val& v) {  // signed integer expression
    switch (v.k) {
      case INT: return c.ci(v.w == 1 ? -v.c : v.c);
      case SYM: return v.e;
      case SB: return c.ite(v.e, c.ci(-1), c.ci(0));
      case UNDEF: fail("use of uninitialised value");
      default: fail("integer expected (kind " + std::to_string(v.k) + ")");
    }
  }
  X asUns(const Val& v) {
    if (v.k == INT) return v.w == 1 ? c.ci(v.c) : c.ci(v.w >= 64 ? (i128) (uint64_t) v.c : (i128) ((uint64_t) v.c & ((1ull << v.w) - 1)));
    if (v.k == SB) return c.ite(v.e, c.ci(1), c.ci(0));
    X e = asInt(v);
    return toUns(e, v.w);
  }
  X toUns(X e, int w) {
    Rng r = c.range(e);
    if (r.lo >= 0) return e;
    i128 m = ((i128) 1) << w;
    if (r.hi < 0) return c.add(e, c.ci(m));
    X st = modStrip(e, m);
    if (st != e) { Rng q = c.range(st); if (q.lo >= 0 && q.hi < m) return st; }
    if (!mayBe(c.lt(e, c.Z))) return e;
    if (!mayBe(c.le(c.Z, e))) return c.add(e, c.ci(m));
    return c.ite(c.lt(e, c.Z), c.add(e, c.ci(m)), e);
  }
  // e modulo m, choosing a representative without the case splits of sign conversions
  X modStrip(X e, i128 m) {
    if (e->k == K::ITE) {
      X d = c.sub(e->a[1], e->a[2]);
      if (d->k == K::CI && d->c % m == 0) return modStrip(e->a[2], m);
      return e;
    }
    if (e->k != K::LIN) return e;
    X r = c.ci(e->c);
    bool ch = false;
    for (auto& p : e->t) {
      X a = p.first;
      if (p.second % m == 0) { ch = true; continue; }
      if (a->k == K::ITE) {
        X d = c.sub(a->a[1], a->a[2]);
        i128 pr;
        if (d->k == K::CI && !__builtin_mul_overflow(d->c, p.second, &pr) && pr % m == 0) { a = modStrip(a->a[2], m); ch = true; }
      }
      r = c.addmul(r, a, p.second);
    }
    return ch ? r : e;
  }
  X asBool(const Val& v) {
    switch (v.k) {
      case INT: return c.cb(v.c & 1);
      case SB: return v.e;
      case SYM: return c.nt(c.eq0(v.e));
      case UNDEF: fail("branch on uninitialised value");
      default: fail("bool expected");
    }
  }
  X asReal(const Val& v) {
    if (v.k == FR) return v.e;
    if (v.k == FP) {
      if (!std::isfinite(v.d)) fail("non-finite constant in real arithmetic");
      return c.rc(mpq_class(v.d));
    }
    if (v.k == UNDEF) fail("use of uninitialised floating-point value");
    fail("real expected");
  }
  // ------------------------------------------------------------ decisions
  bool replaying() { return pos < prefix.size(); }
  // is `b` possible on this path?  (recorded so that re-execution does not query again)
  bool mayBe(X b, bool keepModel = false) {
    if (b == c.T) return true;
    if (b == c.F) return false;
    if (replaying()) {
      Decision d = prefix[pos++];
      if (d.kind != 5) throw Unsupported{"non-deterministic replay (query)"};
      return d.v;
    }
    bool v, r;
    if (S.evalCur(b, v) && v) { r = true; S.modelHits++; }
    else {
      R q = S.check(b);
      r = q != R::UNSAT;
      if (keepModel && q == R::SAT) S.commitModel();
    }
    prefix.push_back({5, r});
    pos++;
    return r;
  }
  bool branch(X b) {
    if (b == c.T) return true;
    if (b == c.F) return false;
    if (replaying()) {
      Decision d = prefix[pos++];
      if (d.kind > 1) throw Unsupported{"non-deterministic replay (branch)"};
      S.assume(d.v ? b : c.nt(b));
      return d.v;
    }
    bool mv, known = S.evalCur(b, mv);
    if (known) S.modelHits++;
    else {
      R r = S.check(b);
      if (r == R::SAT) { S.commitModel(); mv = true; }
      else if (r == R::UNSAT) {
        prefix.push_back({0, 0});
        pos++;
        S.assume(c.nt(b));
        return false;
      } else { note("unknown branch feasibility"); mv = true; }
    }
    X other = mv ? c.nt(b) : b;
    R r = S.check(other);
    if (r == R::UNKNOWN) note("unknown branch feasibility");
    if (r == R::UNSAT) prefix.push_back({0, mv});
    else {
      std::vector<Decision> p(prefix.begin(), prefix.end());
      p.push_back({1, !mv});
      work.push_back(std::move(p));
      forks++;
      prefix.push_back({1, mv});
    }
    pos++;
    S.assume(mv ? b : c.nt(b));
    return mv;
  }
  void note(const std::string& m) { pathNote = m; inconcl[m]++; }
  int64_t pick(const std::string& name, int64_t lo, int64_t hi) {
    std::vector<int64_t> vals;
    auto it = pins.find(name);
    if (it != pins.end()) { for (auto v : it->second) if (v >= lo && v <= hi) vals.push_back(v); }
    else for (int64_t i = lo; i <= hi; ++i) vals.push_back(i);
    if (vals.empty()) throw PathEnd{PathEnd::ASSUME, ""};
    int64_t v;
    if (vals.size() == 1) v = vals[0];
    else if (replaying()) {
      Decision d = prefix[pos++];
      if (d.kind != 2) throw Unsupported{"non-deterministic replay (pick)"};
      v = d.v;
    } else {
      for (size_t i = vals.size(); i-- > 1;) {
        std::vector<Decision> p(prefix);
        p.push_back({2, vals[i]});
        work.push_back(std::move(p));
      }
      picks++;
      v = vals[0];
      prefix.push_back({2, v});
      pos++;
    }
    nondet.push_back({name, Val::I(v, 64)});
    return v;
  }
  i128 concretize(X e, const char* why) {
    if (e->k == K::CI) return e->c;
    for (int n = 0; n < 5000; ++n) {
      Rng r = c.range(e);
      if (r.lo == r.hi) return r.lo;
      i128 v;
      if (replaying()) {
        Decision d = prefix[pos++];
        if (d.kind != 3) throw Unsupported{"non-deterministic replay (conc)"};
        v = d.v;
      } else {
        if (!S.haveModel) {
          R q = S.check(c.T);
          if (q != R::SAT) { note("cannot get a model to concretise"); throw PathEnd{PathEnd::ERROR, "no model"}; }
          S.commitModel();
        }
        c.model = &S.mi; c.rmodel = &S.mr; c.eval_epoch++;
        v = c.evalI(e);
        prefix.push_back({3, (int64_t) v});
        pos++;
      }
      if (branch(c.eq(e, c.ci(v)))) return v;
    }
    fail(std::string("too many values to concretise: ") + why);
  }
  // ------------------------------------------------------------ verdicts
  std::string valString(const Val& q, bool& ok) {  // value under the current evaluation model
    char b[64];
    try {
      switch (q.k) {
        case INT: return std::to_string(q.c);
        case SYM: return i128s(c.evalI(q.e));
        case SB: return c.evalB(q.e) ? "1" : "0";
        case FR: snprintf(b, sizeof b, "%.17g", c.evalR(q.e).get_d()); return b;
        case FP: snprintf(b, sizeof b, "%.17g", q.d); return b;
        default: return "0";
      }
    } catch (Unsupported&) { ok = false; return "1"; }
  }
  void violation(const std::string& kind, const std::string& msg) {
    std::string key = kind + ":" + msg;
    if (violCount[key]++ >= maxViol) return;
    Violation v;
    v.kind = kind; v.msg = msg; v.where = where();
    c.model = &S.pi; c.rmodel = &S.pr; c.eval_epoch++;
    bool ok = true;
    for (auto& n : nondet) v.vals.push_back({n.first, valString(n.second, ok)});
    viols.push_back(v);
  }
  // assert `b` on this path; false = violated on every continuation
  void require(X b, const char* kind, const std::string& msg, bool isCheck) {
    if (isCheck) { checkCount[msg]++; }
    if (b == c.T) { (isCheck ? checksTrivial : obligTrivial)++; if (!isCheck) obligations++; else checks++; return; }
    if (replaying()) {
      Decision d = prefix[pos++];
      if (d.kind != 4) throw Unsupported{"non-deterministic replay (check)"};
      S.assume(b);
      return;
    }
    (isCheck ? checks : obligations)++;
    X nb = c.nt(b);
    bool v;
    R r;
    if (S.evalCur(b, v) && !v) { S.pi = S.mi; S.pr = S.mr; r = R::SAT; S.modelHits++; }
    else r = S.check(nb);
    prefix.push_back({4, 0});
    pos++;
    if (r == R::UNKNOWN) inconcl[std::string("unknown: ") + kind + ": " + msg]++;
    if (r == R::SAT) {
      violation(kind, msg);
      // can the path go on at all?
      if (b == c.F || S.check(b) == R::UNSAT) throw PathEnd{PathEnd::ERROR, msg};
      S.assume(b);
      return;
    }
    // b is implied by the path: recording it only helps interval reasoning
    c.learn(b);
  }
  void abortPath(const std::string& why) {
    if (abortOk) throw PathEnd{PathEnd::ABORT, why};
    // need a model of the path
    if (!S.haveModel) {
      R r = S.check(c.T);
      if (r == R::UNSAT) throw PathEnd{PathEnd::ASSUME, ""};
      if (r == R::UNKNOWN) { inconcl["unknown: abort reachable: " + why]++; throw PathEnd{PathEnd::ERROR, why}; }
      S.commitModel();
    }
    S.pi = S.mi; S.pr = S.mr;
    violation("abort", why);
    throw PathEnd{PathEnd::ERROR, why};
  }
  void bug(const char* kind, const std::string& msg) {  // definite error on this path
    require(c.F, kind, msg, false);
    throw PathEnd{PathEnd::ERROR, msg};
  }
  // ------------------------------------------------------------ memory
  uint32_t newObj(uint64_t size, uint8_t kind, const std::string& name, bool backed = true) {
    uint32_t id;
    if (kind == 0 && freeStack.size() > 4096) {
      id = freeStack.front();
      freeStack.pop_front();
      Obj& o = objs[id];
      if (o.size != size) {
        if (size < (1ull << 30)) { o.size = size; }
      }
      if (o.size == size) {
        o.alive = true;
        o.data.assign(size, 0);
        o.mask.assign(size, 0);
        o.cells.clear();
        o.name = name;
        return id;
      }
    }
    id = objs.size();
    objs.emplace_back();
    Obj& o = objs.back();
    uint64_t regions = (size >> 32) + 1;
    o.base = ((uint64_t) regionObj.size() << 32) + (1ull << 31);
    o.base &= ~63ull;
    if (backed && size > (1ull << 30)) fail("allocation too large");
    for (uint64_t i = 0; i < std::min<uint64_t>(regions + (size > (1u << 30)), 1u << 20); ++i) regionObj.push_back(id + 1);
    o.size = size;
    o.kind = kind;
    o.name = name;
    o.backed = backed;
    if (backed) { o.data.assign(size, 0); o.mask.assign(size, 0); }
    return id;
  }
  uint32_t findObj(uint64_t addr) {  // index+1 or 0
    uint64_t r = addr >> 32;
    return r < regionObj.size() ? regionObj[r] : 0;
  }
  struct Ref { uint32_t obj; uint64_t off; };
  // resolve an address for an access of `size` bytes; symbolic offsets are returned through `sym`
  Ref resolve(Val& a, uint64_t size, const char* what, X* sym = nullptr) {
    if (a.k == UNDEF) bug("ub", std::string(what) + " through an uninitialised pointer");
    if (a.k == SYM) {
      X e = a.e;
      // branch on ITE atoms so that the address has one base
      for (int guard = 0; guard < 64; ++guard) {
        X it = nullptr;
        if (e->k == K::ITE) it = e;
        else if (e->k == K::LIN) for (auto& p : e->t) if (p.first->k == K::ITE) { Rng r = c.range(p.first); if (r.hi - r.lo > 0) { it = p.first; break; } }
        if (!it) break;
        bool t = branch(it->a[0]);
        if (e == it) e = t ? it->a[1] : it->a[2];
        else {
          i128 m = 1;
          for (auto& p : e->t) if (p.first == it) m = p.second;
          e = c.add(c.addmul(e, it, -m), c.mulc(t ? it->a[1] : it->a[2], m));
        }
      }
      Rng r = c.range(e);
      if (r.lo == r.hi) { a = Val::I((int64_t) r.lo, 64); }
      else {
        // base object: that of the constant part
        i128 k = e->k == K::LIN ? e->c : 0;
        uint32_t id = k > 0 ? findObj((uint64_t) k) : 0;
        if (!id && r.lo > 0 && r.lo < INF) id = findObj((uint64_t) r.lo);
        if (!id) fail(std::string("unresolvable symbolic address for ") + what + " " + c.str(e));
        Obj& o = objs[id - 1];
        X off = c.sub(e, c.ci(o.base));
        X in = c.an(c.le(c.Z, off), c.le(off, c.ci((i128) o.size - (i128) size)));
        if (!o.alive) bug("ub", std::string(what) + " of freed memory " + o.name);
        require(in, "ub", std::string(what) + " out of bounds of " + o.name, false);
        if (sym && off->k != K::CI && (!o.backed || o.size / (size ? size : 1) <= 4096)) {
          *sym = off;
          return {id - 1, 0};
        }
        i128 v = concretize(off, what);
        a = Val::I((int64_t) (o.base + (uint64_t) v), 64);
      }
    }
    if (a.k != INT) fail(std::string("bad address kind in ") + what);
    uint64_t ad = (uint64_t) a.c;
    uint32_t id = findObj(ad);
    if (!id) bug("ub", std::string(what) + (ad < 4096 ? " through a null pointer" : " through an invalid pointer"));
    Obj& o = objs[id - 1];
    if (!o.alive) bug("ub", std::string(what) + " of freed memory (" + o.name + ")");
    if (ad < o.base || ad + size > o.base + o.size) bug("ub", std::string(what) + " out of bounds of " + o.name + " (size " + std::to_string(o.size) + ", offset " + std::to_string((int64_t) (ad - o.base)) + ")");
    return {id - 1, ad - o.base};
  }
  Val byteOf(const Val& v, int i) {
    if (v.k == INT) return Val::I((v.c >> (8 * i)) & 0xff, 8);
    if (v.k == FP) {
      uint64_t u;
      if (v.w == 32) { float f = v.d; uint32_t t; memcpy(&t, &f, 4); u = t; } else memcpy(&u, &v.d, 8);
      return Val::I((u >> (8 * i)) & 0xff, 8);
    }
    if (v.k == UNDEF) return Val();
    if (v.k == SB) return i == 0 ? SYMv(c.ite(v.e, c.ONE, c.Z), 8) : Val::I(0, 8);
    if (v.k == SYM) {
      X b = c.modc(c.divc(v.e, ((i128) 1) << (8 * i)), 256);
      return SYMv(wrapS(b, 8), 8);
    }
    fail("byte access to a symbolic real");
  }
  void explode(Obj& o, uint32_t start) {
    Cell cl = o.cells[start];
    o.cells.erase(start);
    for (uint32_t i = 0; i < cl.size; ++i) {
      if (cl.v.k == FR) { o.mask[start + i] = 0; continue; }
      Val b = byteOf(cl.v, i);
      if (b.k == INT) { o.data[start + i] = (uint8_t) b.c; o.mask[start + i] = 1; }
      else if (b.k == UNDEF) o.mask[start + i] = 0;
      else { o.cells[start + i] = {b, 1}; o.mask[start + i] = 2; }
    }
  }
  void clearRange(Obj& o, uint64_t off, uint64_t n) {
    // cells overlapping the borders are split into bytes
    if (o.cells.empty()) return;
    if (o.mask[off] == 3) {
      uint64_t s = off;
      while (o.mask[s] == 3) --s;
      explode(o, s);
    }
    uint64_t end = off + n;
    if (end < o.size && o.mask[end] == 3) {
      uint64_t s = end;
      while (o.mask[s] == 3) --s;
      if (s >= off || true) explode(o, s);
    }
    for (uint64_t i = off; i < end; ++i)
      if (o.mask[i] == 2) o.cells.erase(i);
  }
  void storeAt(Obj& o, uint64_t off, const Val& v, uint64_t n) {
    if (o.ro) bug("ub", "write to constant memory " + o.name);
    o.dirty = true;
    if (!o.backed) fail("write to an unbacked buffer " + o.name);
    clearRange(o, off, n);
    if (v.k == INT) {
      for (uint64_t i = 0; i < n; ++i) {
        o.data[off + i] = i < 8 ? (uint8_t) (v.c >> (8 * i)) : (v.c < 0 ? 0xff : 0);
        o.mask[off + i] = 1;
      }
    } else if (v.k == FP) {
      uint64_t u;
      if (v.w == 32) { float f = v.d; uint32_t t; memcpy(&t, &f, 4); u = t; } else memcpy(&u, &v.d, 8);
      for (uint64_t i = 0; i < n; ++i) { o.data[off + i] = (uint8_t) (u >> (8 * i)); o.mask[off + i] = 1; }
    } else if (v.k == UNDEF) {
      for (uint64_t i = 0; i < n; ++i) o.mask[off + i] = 0;
    } else {
      o.cells[off] = {v, (uint32_t) n};
      o.mask[off] = 2;
      for (uint64_t i = 1; i < n; ++i) o.mask[off + i] = 3;
    }
  }
  Val loadAt(Obj& o, uint64_t off, Type* ty, uint64_t n) {
    if (!o.backed) fail("read from an unbacked buffer " + o.name);
    bool fp = ty->isFloatingPointTy();
    int w = ty->isPointerTy() ? 64 : ty->isIntegerTy() ? (int) ty->getIntegerBitWidth() : ty->isFloatTy() ? 32 : 64;
    if (ty->isX86_FP80Ty()) fail("long double load");
    uint8_t m0 = o.mask[off];
    if (m0 == 2) {
      auto& cl = o.cells[off];
      if (cl.size == n) {
        Val v = cl.v;
        if (v.k == SB) { if (w != 1) v = SYMv(c.ite(v.e, c.ONE, c.Z), w); }
        else if (v.k == SYM && !fp) {
          if (w == 1) v = SBv(c.nt(c.eq0(c.modc(v.e, 2))));
          else v.w = w;
        }
        return v;
      }
    }
    bool all1 = true, any1 = false, anyCell = false;
    for (uint64_t i = 0; i < n; ++i) {
      uint8_t m = o.mask[off + i];
      if (m != 1) all1 = false; else any1 = true;
      if (m >= 2) anyCell = true;
    }
    if (all1) {
      if (fp) {
        if (w == 32) { float f; memcpy(&f, &o.data[off], 4); return Val::D(f, 32); }
        double d; memcpy(&d, &o.data[off], 8); return Val::D(d);
      }
      if (n > 8) {
        i128 v = 0;
        memcpy(&v, &o.data[off], std::min<uint64_t>(n, 16));
        return SYMv(c.ci(v), w);
      }
      int64_t v = 0;
      memcpy(&v, &o.data[off], n);
      return Val::I(v, w);
    }
    if (!anyCell && !any1) return Val();
    if (fp) { if (!anyCell) return Val(); fail("partial read of a symbolic cell"); }
    // assemble the pieces (padding bytes read as 0)
    X acc = c.Z;
    for (uint64_t i = 0; i < n;) {
      uint8_t m = o.mask[off + i];
      if (m == 0) { ++i; continue; }
      if (m == 1) {
        bool top = i + 1 == n;
        i128 b = top ? (i128) (int8_t) o.data[off + i] : (i128) o.data[off + i];
        acc = c.add(acc, c.ci(b << (8 * i)));
        ++i;
        continue;
      }
      uint64_t s = off + i;
      while (o.mask[s] == 3) --s;
      Cell& cl = o.cells[s];
      uint64_t k = off + i - s, len = std::min<uint64_t>(cl.size - k, n - i);
      const Val& cv = cl.v;
      X e;
      switch (cv.k) {
        case SB: e = c.ite(cv.e, c.ONE, c.Z); break;
        case SYM: e = cv.e; break;
        case UNDEF: e = c.Z; break;
        default: fail("partial read of a symbolic real");
      }
      if (k) e = c.divc(e, ((i128) 1) << (8 * k));
      bool whole = k + len == cl.size && cv.k == SYM;
      if (i + len == n) { if (!whole) e = wrapS(c.modc(e, ((i128) 1) << (8 * len)), 8 * len); }
      else {
        Rng rg = c.range(e);
        if (!(rg.lo >= 0 && rg.hi < (((i128) 1) << (8 * len)))) e = c.modc(e, ((i128) 1) << (8 * len));
      }
      acc = c.addmul(acc, e, ((i128) 1) << (8 * i));
      i += len;
    }
    X r = acc;
    if (n <= 8) { Rng rg = c.range(r); if (!(rg.lo >= -(((i128) 1) << (8 * n - 1)) && rg.hi < (((i128) 1) << (8 * n - 1)))) r = wrapS(r, 8 * n); }
    if (w == 1) return SBv(c.nt(c.eq0(c.modc(r, 2))));
    return SYMv(r, w);
  }
  uint64_t sizeOf(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
  Val load(Val a, Type* ty) {
    if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy()) {
      std::vector<Val> v;
      if (auto* st = dyn_cast<StructType>(ty)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(load(addOff(a, sl->getElementOffset(i)), st->getElementType(i)));
      } else {
        uint64_t n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
        Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
        uint64_t es = DL->getTypeAllocSize(et).getFixedValue();
        for (uint64_t i = 0; i < n; ++i) v.push_back(load(addOff(a, i * es), et));
      }
      return AGGv(std::move(v));
    }
    uint64_t n = sizeOf(ty);
    X sym = nullptr;
    Ref r = resolve(a, n, "read", &sym);
    Obj& o = objs[r.obj];
    if (!sym) return loadAt(o, r.off, ty, n);
    // symbolic offset: if-then-else over the aligned slots
    if (!o.backed) fail("read from an unbacked buffer " + o.name);
    Rng rg = c.range(sym);
    i128 lo = std::max<i128>(rg.lo, 0), hi = std::min<i128>(rg.hi, (i128) o.size - (i128) n);
    // alignment residue
    i128 st = n;
    if (c.modc(sym, st)->k != K::CI) st = 1;
    i128 res = st == 1 ? 0 : c.modc(sym, st)->c;
    Val acc;
    bool first = true;
    if ((hi - lo) / st > 512) { i128 v = concretize(sym, "read"); return loadAt(o, (uint64_t) v, ty, n); }
    for (i128 p = lo - ((lo % st) + st - res) % st + 0; p <= hi; p += st) {
      if (p < lo) continue;
      X eq = c.eq(sym, c.ci(p));
      if (eq == c.F) continue;
      Val v = loadAt(o, (uint64_t) p, ty, n);
      if (first) { acc = v; first = false; }
      else {
        if (v.k == UNDEF || acc.k == UNDEF) { i128 q = concretize(sym, "read"); return loadAt(o, (uint64_t) q, ty, n); }
        acc = sel(eq, v, acc);
      }
    }
    return acc;
  }
  Val sel(X b, const Val& x, const Val& y) {
    if (b == c.T) return x;
    if (b == c.F) return y;
    if (x.k == UNDEF || y.k == UNDEF || x.k == AGG || y.k == AGG) return branch(b) ? x : y;
    if (x.w == 1 && (x.k == INT || x.k == SB || x.k == SYM)) return SBv(c.iteb(b, asBool(x), asBool(y)));
    if ((x.k == INT || x.k == SYM) && (y.k == INT || y.k == SYM)) {
      if (x.k == INT && y.k == INT && x.c == y.c) return x;
      return SYMv(c.ite(b, asInt(x), asInt(y)), x.w);
    }
    if ((x.k == FP || x.k == FR) && (y.k == FP || y.k == FR)) {
      if (x.k == FP && y.k == FP && x.d == y.d) return x;
      if ((x.k == FP && !std::isfinite(x.d)) || (y.k == FP && !std::isfinite(y.d))) return branch(b) ? x : y;
      X r = c.rite(b, asReal(x), asReal(y));
      return FRv(r);
    }
    return branch(b) ? x : y;
  }
  void store(Val a, const Val& v, Type* ty) {
    if (v.k == AGG) {
      if (auto* st = dyn_cast<StructType>(ty)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) store(addOff(a, sl->getElementOffset(i)), v.g->v[i], st->getElementType(i));
      } else {
        Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
        uint64_t es = DL->getTypeAllocSize(et).getFixedValue();
        for (size_t i = 0; i < v.g->v.size(); ++i) store(addOff(a, i * es), v.g->v[i], et);
      }
      return;
    }
    uint64_t n = sizeOf(ty);
    X sym = nullptr;
    Ref r = resolve(a, n, "write", &sym);
    Obj& o = objs[r.obj];
    if (!sym) { storeAt(o, r.off, v, n); return; }
    Rng rg = c.range(sym);
    i128 lo = std::max<i128>(rg.lo, 0), hi = std::min<i128>(rg.hi, (i128) o.size - (i128) n);
    X md = c.modc(sym, n);
    if (md->k != K::CI || (hi - lo) / (i128) n > 128 || v.k == UNDEF) { i128 q = concretize(sym, "write"); storeAt(o, (uint64_t) q, v, n); return; }
    std::vector<uint64_t> slots;
    for (i128 p = lo; p <= hi; ++p)
      if (p % (i128) n == md->c && c.eq(sym, c.ci(p)) != c.F) slots.push_back((uint64_t) p);
    bool ok = true;
    for (auto p : slots) { Val old = loadAt(o, p, ty, n); if (old.k == UNDEF) ok = false; }
    if (!ok) { i128 q = concretize(sym, "write"); storeAt(o, (uint64_t) q, v, n); return; }
    for (auto p : slots) { Val old = loadAt(o, p, ty, n); storeAt(o, p, sel(c.eq(sym, c.ci(p)), v, old), n); }
  }
  Val addOff(const Val& a, int64_t k) {
    if (k == 0) return a;
    if (a.k == INT) return Val::I(a.c + k, 64);
    if (a.k == SYM) return SYMv(c.add(a.e, c.ci(k)), 64);
    return a;
  }
  void copyBytes(Val d, Val s, Val n) {
    uint64_t len = (uint64_t) concretize(asUns(n), "memcpy length");
    if (!len) return;
    Ref rs = resolve(s, len, "memcpy read"), rd = resolve(d, len, "memcpy write");
    Obj& os = objs[rs.obj];
    Obj& od = objs[rd.obj];
    if (!os.backed || !od.backed) fail("memcpy on an unbacked buffer");
    if (od.ro) bug("ub", "memcpy to constant memory");
    od.dirty = true;
    struct Piece { uint64_t off; Cell cl; };
    std::vector<Piece> pcs;
    if (!os.cells.empty()) {
      if (os.mask[rs.off] == 3) { uint64_t q = rs.off; while (os.mask[q] == 3) --q; explode(os, q); }
      uint64_t end = rs.off + len;
      if (end < os.size && os.mask[end] == 3) { uint64_t q = end; while (os.mask[q] == 3) --q; explode(os, q); }
      for (uint64_t i = 0; i < len; ++i)
        if (os.mask[rs.off + i] == 2) pcs.push_back({i, os.cells[rs.off + i]});
    }
    std::vector<uint8_t> dt(os.data.begin() + rs.off, os.data.begin() + rs.off + len), mk(os.mask.begin() + rs.off, os.mask.begin() + rs.off + len);
    clearRange(od, rd.off, len);
    std::copy(dt.begin(), dt.end(), od.data.begin() + rd.off);
    std::copy(mk.begin(), mk.end(), od.mask.begin() + rd.off);
    for (auto& p : pcs) od.cells[rd.off + p.off] = p.cl;
  }
  // ------------------------------------------------------------ constants / globals
  uint64_t addrOfFn(const Function* F) {
    auto it = fnAddr.find(F);
    if (it != fnAddr.end()) return it->second;
    uint64_t a = 0x100000ull + 16 * fnByIdx.size();
    fnByIdx.push_back(F);
    fnAddr[F] = a;
    return a;
  }
  uint64_t addrOfGlobal(const GlobalVariable* G) {
    auto it = globals.find(G);
    if (it != globals.end()) return objs[it->second].base;
    Type* t = G->getValueType();
    uint64_t sz = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 64;
    bool ext = !G->hasInitializer();
    uint32_t id = newObj(std::max<uint64_t>(sz, 1), 2, std::string("global ") + demangle(G->getName().str()));
    globals[G] = id;
    uint64_t base = objs[id].base;
    if (ext) {
      // external data: typeinfo vtables, std::cerr, ...: opaque zero bytes, larger than declared
      objs[id].size = std::max<uint64_t>(sz, 1024);
      objs[id].data.assign(objs[id].size, 0);
      objs[id].mask.assign(objs[id].size, 1);
      if (G->getName() == "__libc_single_threaded") objs[id].data[0] = 1;
    } else {
      objs[id].mask.assign(objs[id].size, 1);
      initConst(id, 0, G->getInitializer());
      if (G->isConstant()) objs[id].ro = true;
    }
    return base;
  }
  void initConst(uint32_t id, uint64_t off, const Constant* C) {
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C) || C->isNullValue()) return;
    if (isa<UndefValue>(C)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(C)) {
      auto* sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); ++i) initConst(id, off + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto* ca = dyn_cast<ConstantDataSequential>(C)) {
      uint64_t es = ca->getElementByteSize();
      for (unsigned i = 0; i < ca->getNumElements(); ++i) initConst(id, off + i * es, ca->getElementAsConstant(i));
      return;
    }
    if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
      Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
      uint64_t es = DL->getTypeAllocSize(et).getFixedValue();
      for (unsigned i = 0; i < C->getNumOperands(); ++i) initConst(id, off + i * es, cast<Constant>(C->getOperand(i)));
      return;
    }
    Val v = constVal(C);
    storeAt(objs[id], off, v, sizeOf(t));
  }
  Val constVal(const Constant* C) {
    Type* t = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
      unsigned w = ci->getBitWidth();
      if (w <= 64) return Val::I(ci->getSExtValue(), w);
      i128 v = 0;
      auto& ap = ci->getValue();
      v = (i128) (((u128) ap.getRawData()[1] << 64) | ap.getRawData()[0]);
      Val r; r.k = SYM; r.w = w; r.e = c.ci(v);
      return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
      if (t->isFloatTy()) return Val::D(cf->getValueAPF().convertToFloat(), 32);
      if (t->isDoubleTy()) return Val::D(cf->getValueAPF().convertToDouble());
      APFloat f = cf->getValueAPF();
      bool li;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      return Val::D(f.convertToDouble());
    }
    if (isa<ConstantPointerNull>(C)) return Val::I(0, 64);
    if (isa<UndefValue>(C)) {
      if (t->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getStructNumElements(); ++i) v.push_back(constVal(UndefValue::get(t->getStructElementType(i)))); return AGGv(v); }
      if (auto* vt = dyn_cast<FixedVectorType>(t)) return AGGv(std::vector<Val>(vt->getNumElements()));
      if (t->isArrayTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getArrayNumElements(); ++i) v.push_back(constVal(UndefValue::get(t->getArrayElementType()))); return AGGv(v); }
      return Val();
    }
    if (auto* G = dyn_cast<GlobalVariable>(C)) return Val::I(addrOfGlobal(G), 64);
    if (auto* F = dyn_cast<Function>(C)) return Val::I(addrOfFn(F), 64);
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
    if (isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C) || isa<ConstantDataSequential>(C)) {
      std::vector<Val> v;
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; ++i) v.push_back(constVal(C->getAggregateElement(i)));
      return AGGv(v);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        auto* g = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) fail("constant gep");
        Val b = constVal(cast<Constant>(g->getPointerOperand()));
        return addOff(b, off.getSExtValue());
      }
      if (ce->isCast()) {
        Val v = constVal(ce->getOperand(0));
        if (ce->getOpcode() == Instruction::Trunc) return Val::I(v.c, t->getIntegerBitWidth());
        return v;
      }
      if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) {
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        return Val::I(ce->getOpcode() == Instruction::Sub ? a.c - b.c : a.c + b.c, a.w);
      }
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    fail("constant " + s);
  }
  // ------------------------------------------------------------ decoding
  Code* getCode(Function* F) {
    auto& p = codes[F];
    if (p) return p.get();
    p.reset(new Code);
    struct Dec { bool& d; Dec(bool& x) : d(x) { d = true; } ~Dec() { d = false; } } decGuard(decoding);
    Code* cd = p.get();
    cd->F = F;
    if (F->isMaterializable()) cantFail(F->materialize());
    for (auto& a : F->args()) if (a.hasByValAttr()) cd->byval = true;
    cd->dname = demangle(F->getName().str());
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const BasicBlock*, int> bb;
    for (auto& a : F->args()) slot[&a] = cd->nslots++;
    int nb = 0;
    for (auto& B : *F) {
      bb[&B] = nb++;
      for (auto& I : B)
        if (!I.getType()->isVoidTy()) slot[&I] = cd->nslots++;
    }
    auto opnd = [&](const Value* v) {
      Opnd o;
      auto it = slot.find(v);
      if (it != slot.end()) o.slot = it->second;
      else if (auto* C = dyn_cast<Constant>(v)) {
        // aggregates referenced by constants must outlive the path
        o.c = constVal(C);
      }
      return o;
    };
    for (auto& B : *F) {
      cd->blocks.emplace_back();
      Block& bl = cd->blocks.back();
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        bl.insts.emplace_back();
        Inst& in = bl.insts.back();
        in.I = &I;
        in.opc = I.getOpcode();
        in.ty = I.getType();
        if (!I.getType()->isVoidTy()) in.dst = slot[&I];
        if (isa<OverflowingBinaryOperator>(&I)) {
          const Instruction* u = &I;
          for (int depth = 0; depth < 8 && u->hasOneUse(); ++depth) {
            auto* n = dyn_cast<Instruction>(*u->user_begin());
            if (!n || n->getParent() != I.getParent()) break;
            if (auto* sl = dyn_cast<SelectInst>(n)) {
              const Value* cnd = sl->getCondition();
              if (cnd == u) break;
              auto* ci = dyn_cast<Instruction>(cnd);
              if (!ci || ci->getParent() != I.getParent() || ci->comesBefore(&I)) in.guard.push_back({opnd(cnd), sl->getTrueValue() == u});
            } else if (!(isa<BinaryOperator>(n) || isa<CastInst>(n) || isa<ICmpInst>(n)))
              break;
            u = n;
          }
        }
        if (auto* ph = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) in.phi.push_back({bb[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
          bl.nphi++;
          continue;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          in.ops.push_back(opnd(g->getPointerOperand()));
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value* ix = it.getOperand();
            if (auto* st = it.getStructTypeOrNull()) {
              in.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              int64_t es = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
              if (auto* ci = dyn_cast<ConstantInt>(ix)) in.imm += ci->getSExtValue() * es;
              else { in.ops.push_back(opnd(ix)); in.gep.push_back({(int) in.ops.size() - 1, es}); }
            }
          }
          continue;
        }
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          in.callee = cb->getCalledFunction();
          if (!in.callee) if (auto* A = dyn_cast<GlobalAlias>(cb->getCalledOperand())) in.callee = dyn_cast<Function>(A->getAliasee());
          if (in.callee && in.callee->isIntrinsic()) {
            // metadata operands stay undecoded
            for (auto& a : cb->args()) in.ops.push_back(isa<MetadataAsValue>(a) ? Opnd() : opnd(a));
          } else {
            for (auto& a : cb->args()) in.ops.push_back(opnd(a));
            in.ops.push_back(opnd(cb->getCalledOperand()));
          }
          if (auto* iv = dyn_cast<InvokeInst>(&I)) in.succ = {bb[iv->getNormalDest()], bb[iv->getUnwindDest()]};
          continue;
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) in.ops.push_back(opnd(br->getCondition()));
          for (unsigned i = 0; i < br->getNumSuccessors(); ++i) in.succ.push_back(bb[br->getSuccessor(i)]);
          continue;
        }
        if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          in.ops.push_back(opnd(sw->getCondition()));
          in.succ.push_back(bb[sw->getDefaultDest()]);
          for (auto& cs : sw->cases()) { in.ops.push_back(opnd(cs.getCaseValue())); in.succ.push_back(bb[cs.getCaseSuccessor()]); }
          continue;
        }
        if (isa<LandingPadInst>(&I)) continue;
        for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) in.ops.push_back(opnd(o));
      }
    }
    return cd;
  }
  // ------------------------------------------------------------ integer arithmetic
  X wrapS(X e, int w) {
    i128 h = ((i128) 1) << (w - 1), m = h << 1;
    Rng r = c.range(e);
    if (w >= 127) {
      i128 q = ((i128) 1) << 126;
      if (r.lo >= -q && r.hi <= q) return e;
      fail("128-bit arithmetic outside the supported range");
    }
    if (r.lo >= -h && r.hi < h) return e;
    X st = modStrip(e, m);
    if (st != e) return wrapS(st, w);
    if (!mayBe(c.orr(c.lt(e, c.ci(-h)), c.le(c.ci(h), e)))) return e;
    return c.sub(c.modc(c.add(e, c.ci(h)), m), c.ci(h));
  }
  X inS(X e, int w) {
    i128 h = ((i128) 1) << (w - 1);
    return c.an(c.le(c.ci(-h), e), c.lt(e, c.ci(h)));
  }
  X andConst(X a, i128 mask, int w) {  // mask given as unsigned w-bit
    X r = c.Z;
    int i = 0;
    while (i < w) {
      if (!((mask >> i) & 1)) { ++i; continue; }
      int j = i;
      while (j < w && ((mask >> j) & 1)) ++j;
      X f = c.modc(c.divc(a, ((i128) 1) << i), ((i128) 1) << (j - i));
      r = c.addmul(r, f, ((i128) 1) << i);
      i = j;
    }
    return wrapS(r, w);
  }
  bool is01(X a) { Rng r = c.range(a); return r.lo >= 0 && r.hi <= 1; }
  X b01(X a) {
    if (a->k == K::ITE && a->a[1] == c.ONE && a->a[2] == c.Z) return a->a[0];
    if (a->k == K::ITE && a->a[1] == c.Z && a->a[2] == c.ONE) return c.nt(a->a[0]);
    return c.nt(c.eq0(a));
  }
  X bitand_(X a, X b, int w) {
    if (a->k == K::CI) std::swap(a, b);
    i128 um = (((i128) 1) << w) - 1;
    if (b->k == K::CI) return andConst(a, b->c & um, w);
    return c.bop(0, a, b, w);
  }
  bool disjoint(X a, X b) {  // a multiple of 2^k, 0 <= b < 2^k
    Rng r = c.range(b);
    if (r.lo < 0) return false;
    i128 k = 1;
    while (k <= r.hi && k < ((i128) 1 << 100)) k <<= 1;
    X m = c.modc(a, k);
    return m->k == K::CI && m->c == 0;
  }
  Val intBin(const Inst& in, const Val& a, const Val& b, X guard) {
    int w = a.w ? a.w : b.w;
    if (in.ty->isIntegerTy()) w = in.ty->getIntegerBitWidth();
    if (a.k == UNDEF || b.k == UNDEF) return Val();
    unsigned op = in.opc;
    if (w == 1) {
      X x = asBool(a), y = asBool(b);
      switch (op) {
        case Instruction::And: return SBv(c.an(x, y));
        case Instruction::Or: return SBv(c.orr(x, y));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return SBv(c.orr(c.an(x, c.nt(y)), c.an(c.nt(x), y)));
        case Instruction::Mul: return SBv(c.an(x, y));
        default: fail("i1 op");
      }
    }
    auto* ov = dyn_cast<OverflowingBinaryOperator>(in.I);
    if (a.k == INT && b.k == INT && w <= 64) {
      __int128 r;
      uint64_t um = w == 64 ? ~0ull : ((1ull << w) - 1);
      switch (op) {
        case Instruction::Add: r = (__int128) a.c + b.c; break;
        case Instruction::Sub: r = (__int128) a.c - b.c; break;
        case Instruction::Mul: r = (__int128) a.c * b.c; break;
        case Instruction::SDiv: case Instruction::SRem:
          if (b.c == 0) bug("ub", "division by zero");
          if (b.c == -1) { r = op == Instruction::SDiv ? -(__int128) a.c : 0; }
          else r = op == Instruction::SDiv ? a.c / b.c : a.c % b.c;
          if (op == Instruction::SDiv && r > (__int128) (um >> 1)) bug("ub", "signed division overflow");
          return Val::I((int64_t) r, w);
        case Instruction::UDiv: case Instruction::URem: {
          uint64_t x = a.c & um, y = b.c & um;
          if (y == 0) bug("ub", "division by zero");
          return Val::I(op == Instruction::UDiv ? x / y : x % y, w);
        }
        case Instruction::And: return Val::I(a.c & b.c, w);
        case Instruction::Or: return Val::I(a.c | b.c, w);
        case Instruction::Xor: return Val::I(a.c ^ b.c, w);
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          uint64_t s = b.c & um;
          if (s >= (uint64_t) w) bug("ub", "shift amount out of range");
          if (op == Instruction::Shl) return Val::I((uint64_t) a.c << s, w);
          if (op == Instruction::LShr) return Val::I((a.c & um) >> s, w);
          return Val::I(a.c >> s, w);
        }
        default: fail("int op");
      }
      if (ov && ov->hasNoSignedWrap()) {
        __int128 h = (__int128) 1 << (w - 1);
        if (r < -h || r >= h) require(c.nt(guard), "ub", "signed integer overflow", false);
      }
      return Val::I((int64_t) r, w);
    }
    X x = asInt(a), y = asInt(b), r;
    switch (op) {
      case Instruction::Add: r = c.add(x, y); break;
      case Instruction::Sub: r = c.sub(x, y); break;
      case Instruction::Mul:
        if (!(ov && ov->hasNoSignedWrap()) && w <= 64) { X p = modStrip(x, ((i128) 1) << w), q = modStrip(y, ((i128) 1) << w); r = c.mul(p, q); }
        else {
          auto canon = [&](X e) { if (w > 64) return e; X p = modStrip(e, ((i128) 1) << w); return p != e && !mayBe(c.nt(inS(p, w))) ? p : e; };
          r = c.mul(canon(x), canon(y));
        }
        break;
      case Instruction::SDiv: case Instruction::SRem: {
        require(c.nt(c.eq0(y)), "ub", "division by zero", false);
        X q = sdiv(x, y);
        if (op == Instruction::SDiv) {
          if (c.range(y).lo <= -1) require(inS(q, w), "ub", "signed division overflow", false);
          return SYMv(q, w);
        }
        return SYMv(c.sub(x, c.mul(q, y)), w);
      }
      case Instruction::UDiv: case Instruction::URem: {
        require(c.nt(c.eq0(y)), "ub", "division by zero", false);
        X ux = toUns(x, w), uy = toUns(y, w);
        X q = c.divx(ux, uy);
        return SYMv(wrapS(op == Instruction::UDiv ? q : c.sub(ux, c.mul(q, uy)), w), w);
      }
      case Instruction::And:
        if (is01(x) && is01(y)) return SYMv(c.ite(c.an(b01(x), b01(y)), c.ONE, c.Z), w);
        return SYMv(bitand_(x, y, w), w);
      case Instruction::Or:
        if (is01(x) && is01(y)) return SYMv(c.ite(c.orr(b01(x), b01(y)), c.ONE, c.Z), w);
        if (disjoint(x, y) || disjoint(y, x)) return SYMv(wrapS(c.add(x, y), w), w);
        if (x->k == K::CI || y->k == K::CI) return SYMv(wrapS(c.sub(c.add(x, y), bitand_(x, y, w)), w), w);
        return SYMv(c.bop(1, x, y, w), w);
      case Instruction::Xor:
        if (is01(x) && is01(y)) return SYMv(c.ite(b01(x), c.ite(b01(y), c.Z, c.ONE), c.ite(b01(y), c.ONE, c.Z)), w);
        if (x->k == K::CI || y->k == K::CI) {
          if (y->k == K::CI && y->c == -1) return SYMv(c.sub(c.ci(-1), x), w);
          if (x->k == K::CI && x->c == -1) return SYMv(c.sub(c.ci(-1), y), w);
          return SYMv(wrapS(c.addmul(c.add(x, y), bitand_(x, y, w), -2), w), w);
        }
        return SYMv(c.bop(2, x, y, w), w);
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        i128 s = concretize(toUns(y, w), "shift amount");
        if (s >= w) bug("ub", "shift amount out of range");
        if (op == Instruction::Shl) {
          if (ov && ov->hasNoSignedWrap()) { X v = c.mulc(x, ((i128) 1) << s); X ok = inS(v, w); require(c.orr(c.nt(guard), ok), "ub", "signed integer overflow", false); return SYMv(guard == c.T ? v : wrapS(v, w), w); }
          return SYMv(c.mulc(wrapS(x, w - (int) s), ((i128) 1) << s), w);
        }
        if (op == Instruction::LShr) {
          if (s == 0) return a;
          X d = c.divc(x, ((i128) 1) << s);
          if (c.range(d).lo < 0) d = c.modc(d, ((i128) 1) << (w - (int) s));
          return SYMv(d, w);
        }
        return SYMv(c.divc(x, ((i128) 1) << s), w);
      }
      default: fail("int op");
    }
    if (ov && ov->hasNoSignedWrap()) {
      require(c.orr(c.nt(guard), inS(r, w)), "ub", "signed integer overflow", false);
      if (guard == c.T) return SYMv(r, w);
    }
    return SYMv(wrapS(r, w), w);
  }
  X sdiv(X x, X y) {
    Rng ry = c.range(y), rx = c.range(x);
    auto dv = [&](X n, X d) { return c.divx(n, d); };
    X my = c.mulc(y, -1), mx = c.mulc(x, -1);
    if (ry.lo > 0 && rx.lo >= 0) return dv(x, y);
    bool yneg = ry.lo < 0 && mayBe(c.lt(y, c.Z)), ypos = ry.hi > 0 && mayBe(c.lt(c.Z, y));
    bool xneg = rx.lo < 0 && mayBe(c.lt(x, c.Z)), xpos = rx.hi >= 0 && mayBe(c.le(c.Z, x));
    auto forY = [&](X d, bool neg) {
      X md = neg ? c.mulc(d, -1) : d;  // positive
      X p = dv(x, md), q = c.mulc(dv(mx, md), -1);
      X r = xneg ? (xpos ? c.ite(c.lt(x, c.Z), q, p) : q) : p;
      return neg ? c.mulc(r, -1) : r;
    };
    (void) my;
    if (!yneg) return forY(y, false);
    if (!ypos) return forY(y, true);
    return c.ite(c.lt(c.Z, y), forY(y, false), forY(y, true));
  }
  Val icmp(const ICmpInst* I, const Val& a, const Val& b) {
    if (a.k == AGG) fail("vector icmp");
    if (a.k == UNDEF || b.k == UNDEF) return Val();
    auto p = I->getPredicate();
    if (a.k == INT && b.k == INT) {
      int w = a.w;
      uint64_t um = w >= 64 ? ~0ull : ((1ull << w) - 1);
      uint64_t ua = a.c & um, ub = b.c & um;
      int64_t sa = w == 1 ? -a.c : a.c, sb = w == 1 ? -b.c : b.c;
      bool r = false;
      switch (p) {
        case CmpInst::ICMP_EQ: r = ua == ub; break;
        case CmpInst::ICMP_NE: r = ua != ub; break;
        case CmpInst::ICMP_UGT: r = ua > ub; break;
        case CmpInst::ICMP_UGE: r = ua >= ub; break;
        case CmpInst::ICMP_ULT: r = ua < ub; break;
        case CmpInst::ICMP_ULE: r = ua <= ub; break;
        case CmpInst::ICMP_SGT: r = sa > sb; break;
        case CmpInst::ICMP_SGE: r = sa >= sb; break;
        case CmpInst::ICMP_SLT: r = sa < sb; break;
        case CmpInst::ICMP_SLE: r = sa <= sb; break;
        default: fail("icmp");
      }
      return Val::I(r, 1);
    }
    if (a.k == FR || b.k == FR || a.k == FP || b.k == FP) fail("icmp on a real");
    if (a.w == 1) {
      X x = asBool(a), y = asBool(b);
      X eq = c.orr(c.an(x, y), c.an(c.nt(x), c.nt(y)));
      if (p == CmpInst::ICMP_EQ) return SBv(eq);
      if (p == CmpInst::ICMP_NE) return SBv(c.nt(eq));
      fail("i1 icmp");
    }
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
      X e = c.eq(asInt(a), asInt(b));
      return SBv(p == CmpInst::ICMP_EQ ? e : c.nt(e));
    }
    bool uns = CmpInst::isUnsigned(p);
    X x = uns ? asUns(a) : asInt(a), y = uns ? asUns(b) : asInt(b);
    switch (p) {
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return SBv(c.lt(y, x));
      case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return SBv(c.le(y, x));
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return SBv(c.lt(x, y));
      default: return SBv(c.le(x, y));
    }
  }
  Val fpBin(unsigned op, const Val& a, const Val& b, int w) {
    if (a.k == UNDEF || b.k == UNDEF) fail("arithmetic on an uninitialised floating-point value");
    if (a.k == FP && b.k == FP) {
      double r;
      switch (op) {
        case Instruction::FAdd: r = a.d + b.d; break;
        case Instruction::FSub: r = a.d - b.d; break;
        case Instruction::FMul: r = a.d * b.d; break;
        case Instruction::FDiv: r = a.d / b.d; break;
        case Instruction::FRem: r = std::fmod(a.d, b.d); break;
        default: fail("fp op");
      }
      return Val::D(r, w);
    }
    X x = asReal(a), y = asReal(b), r;
    switch (op) {
      case Instruction::FAdd: r = c.radd(x, y); break;
      case Instruction::FSub: r = c.radd(x, y, -1); break;
      case Instruction::FMul: r = c.rmul(x, y); break;
      case Instruction::FDiv:
        require(c.nt(c.req0(y)), "fp", "floating-point division by zero", false);
        r = c.rdiv(x, y);
        break;
      default: fail("fp op");
    }
    if (epsFP) r = rounded(r, w);
    return realVal(r, w);
  }
  // standard model of rounding: |fl(x) - x| <= u |x|  (no underflow: stated in the bounds)
  X rounded(X r, int w) {
    mpq_class q;
    if (c.isConstReal(r, q)) return r;
    X e = c.rvar("eps#" + std::to_string(nameCount["eps"]++), false, false);
    mpq_class u(1);
    for (int i = 0; i < (w == 32 ? 24 : 53); ++i) u /= 2;
    // e is the absolute error
    X ab = c.rite(c.rle0(r), c.rmul(c.rc(-1), r), r);
    X bound = c.rmul(c.rc(u), ab);
    S.assume(c.rle0(c.radd(e, bound, -1)));
    S.assume(c.rle0(c.radd(c.rmul(c.rc(-1), e), bound, -1)));
    return c.radd(r, e);
  }
  Val realVal(X r, int w) {
    mpq_class q;
    if (c.isConstReal(r, q)) {
      double d = q.get_d();
      if (mpq_class(d) == q) return Val::D(d, w);
    }
    return FRv(r);
  }
  Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.k == UNDEF || b.k == UNDEF) return Val();
    if (a.k == FP && b.k == FP) {
      double x = a.d, y = b.d;
      bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (p) {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_OEQ: r = x == y; break;
        case CmpInst::FCMP_OGT: r = x > y; break;
        case CmpInst::FCMP_OGE: r = x >= y; break;
        case CmpInst::FCMP_OLT: r = x < y; break;
        case CmpInst::FCMP_OLE: r = x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = x != y; break;
        default: r = true;
      }
      return Val::I(r, 1);
    }
    if (p == CmpInst::FCMP_UNO) return Val::I(0, 1);
    if (p == CmpInst::FCMP_ORD) return Val::I(1, 1);
    // infinities against finite reals
    auto infcmp = [&](const Val& k, bool left) -> int { if (k.k == FP && std::isinf(k.d)) return (k.d > 0) == left ? 1 : -1; return 0; };
    int s = infcmp(a, true);
    if (!s) s = infcmp(b, false);
    X d = nullptr;
    if (s) { Val z = Val::D(0); return fcmp(p, Val::D(s), z); }
    d = c.radd(asReal(a), asReal(b), -1);
    switch (p) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return SBv(c.req0(d));
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return SBv(c.nt(c.req0(d)));
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return SBv(c.nt(c.rle0(d)));
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return SBv(c.nt(c.rlt0(d)));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return SBv(c.rlt0(d));
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return SBv(c.rle0(d));
      default: fail("fcmp");
    }
  }
  // floor of a real as a fresh integer
  X floorOf(X r) {
    mpq_class q;
    if (c.isConstReal(r, q)) {
      mpz_class f;
      mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
      return c.ci((i128) std::stoll(f.get_str()));
    }
    if (r->k == K::I2R) return r->a[0];
    X t = c.var("floor#" + std::to_string(nameCount["floor"]++), -((i128) 1 << 100), (i128) 1 << 100);
    X tr = c.i2r(t);
    S.assume(c.rle0(c.radd(tr, r, -1)));
    S.assume(c.rlt0(c.radd(c.radd(r, tr, -1), c.rc(-1))));
    return t;
  }
  X truncOf(X r) {
    bool neg = mayBe(c.rlt0(r));
    if (!neg) return floorOf(r);
    bool ps = mayBe(c.nt(c.rlt0(r)));
    if (!ps) return c.mulc(floorOf(c.rmul(c.rc(-1), r)), -1);
    if (branch(c.rlt0(r))) return c.mulc(floorOf(c.rmul(c.rc(-1), r)), -1);
    return floorOf(r);
  }
  Val castOp(const Inst& in, const Val& a) {
    Type* st = in.I->getOperand(0)->getType();
    Type* dt = in.ty;
    if (a.k == AGG) {
      if (in.opc == Instruction::BitCast) {
        if (dt->isVectorTy()) return a;
        // <2 x float> -> i64/double
        if (a.g->v.size() == 2 && a.g->v[0].k == FP && a.g->v[1].k == FP) {
          float f0 = a.g->v[0].d, f1 = a.g->v[1].d;
          uint32_t u0, u1;
          memcpy(&u0, &f0, 4); memcpy(&u1, &f1, 4);
          uint64_t u = ((uint64_t) u1 << 32) | u0;
          if (dt->isDoubleTy()) { double d; memcpy(&d, &u, 8); return Val::D(d); }
          return Val::I((int64_t) u, 64);
        }
      }
      fail("aggregate cast");
    }
    int dw = dt->isIntegerTy() ? (int) dt->getIntegerBitWidth() : dt->isPointerTy() ? 64 : dt->isFloatTy() ? 32 : 64;
    int sw = st->isIntegerTy() ? (int) st->getIntegerBitWidth() : st->isPointerTy() ? 64 : 64;
    if (a.k == UNDEF) return Val();
    switch (in.opc) {
      case Instruction::Trunc:
        if (a.k == INT) return Val::I(a.c, dw);
        if (dw == 1) return SBv(c.nt(c.eq0(c.modc(asInt(a), 2))));
        if (a.k == FR) fail("trunc of real");
        return SYMv(wrapS(asInt(a), dw), dw);
      case Instruction::ZExt:
        if (a.k == INT && dw <= 64) return Val::I((int64_t) (sw >= 64 ? (uint64_t) a.c : ((uint64_t) a.c & ((1ull << sw) - 1))), dw);
        return SYMv(asUns(a), dw);
      case Instruction::SExt:
        if (a.k == INT && dw <= 64) return Val::I(sw == 1 ? -a.c : a.c, dw);
        return SYMv(asInt(a), dw);
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        if (a.k == INT) return Val::I(a.c, dw);
        return SYMv(wrapS(asInt(a), dw), dw);
      case Instruction::BitCast:
        if (dt->isDoubleTy() || dt->isFloatTy()) {
          if (a.k == INT) {
            if (dt->isDoubleTy()) { double d; memcpy(&d, &a.c, 8); return Val::D(d); }
            float f; int32_t i = a.c; memcpy(&f, &i, 4); return Val::D(f, 32);
          }
          return a;
        }
        if (dt->isIntegerTy() && a.k == FP) {
          int64_t u; if (a.w == 32) { float f = a.d; int32_t i; memcpy(&i, &f, 4); u = i; } else memcpy(&u, &a.d, 8);
          return Val::I(u, dw);
        }
        if (dt->isVectorTy() && a.k == INT) {
          float f0, f1; uint32_t u0 = a.c, u1 = (uint64_t) a.c >> 32;
          memcpy(&f0, &u0, 4); memcpy(&f1, &u1, 4);
          return AGGv({Val::D(f0, 32), Val::D(f1, 32)});
        }
        return a;
      case Instruction::SIToFP: case Instruction::UIToFP: {
        if (a.k == INT) return Val::D(in.opc == Instruction::SIToFP ? (double) (sw == 1 ? -a.c : a.c) : (double) (uint64_t) (sw >= 64 ? (uint64_t) a.c : ((uint64_t) a.c & ((1ull << sw) - 1))), dw);
        X r = c.i2r(in.opc == Instruction::SIToFP ? asInt(a) : asUns(a));
        if (epsFP) {
          Rng g = c.range(asInt(a));
          i128 lim = dw == 32 ? ((i128) 1 << 24) : ((i128) 1 << 53);
          if (g.lo < -lim || g.hi > lim) r = rounded(r, dw);
        }
        return FRv(r);
      }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        if (a.k == FP) {
          double lim = std::ldexp(1.0, dw - (in.opc == Instruction::FPToSI));
          double t = std::trunc(a.d);
          if (std::isnan(t) || t >= lim || t < (in.opc == Instruction::FPToSI ? -lim : 0)) bug("ub", "floating-point to integer conversion out of range");
          return Val::I(in.opc == Instruction::FPToSI ? (int64_t) t : (int64_t) (uint64_t) t, dw);
        }
        X t = truncOf(asReal(a));
        require(in.opc == Instruction::FPToSI ? inS(t, dw) : c.an(c.le(c.Z, t), c.lt(t, c.ci(((i128) 1) << dw))), "ub", "floating-point to integer conversion out of range", false);
        return SYMv(in.opc == Instruction::FPToSI ? t : wrapS(t, dw), dw);
      }
      case Instruction::FPExt:
        if (a.k == FP) return Val::D(a.d, dw);
        return a;
      case Instruction::FPTrunc:
        if (a.k == FP) return Val::D(a.d, dw);
        if (epsFP) return FRv(rounded(asReal(a), dw));
        return a;
    }
    fail("cast");
  }
#include "exec.inc"
};

#include "main.inc"
