// C14: pipelines grant accesses one at a time, in request order; sub-pipelines stay inside their slot.
#include "algo.h"
#include <dlaf/common/pipeline.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/matrix/matrix.h>
using namespace mx;
namespace ex = pika::execution::experimental;
namespace {
// ---- the pipelines under test behind one interface
struct PlainAd {  // Pipeline<T>
  using P = common::Pipeline<double>;
  using R = P::ReadOnlyWrapper;
  using W = P::ReadWriteWrapper;
  static constexpr bool resets = true, retile = false;
  static P make() { return P(0.); }
  static auto read(P& p) { return p.read(); }
  static auto write(P& p) { return p.readwrite(); }
  static P sub(P& p) { return p.sub_pipeline(); }
  static void reset(P& p) { p.reset(); vf_check(!p.valid(), "a pipeline is not valid after it has been reset"); }
  static double get(R& r) { return r.get(); }
  static double& get(W& w) { return w.get(); }
};
template <int kind> struct MatAd {  // a tile of a Matrix; sub-pipelines: 0 sub_pipeline, 1 retiled (1x1 tiles, the first and the last one observed together)
  using P = Mat<double>;
  using R = matrix::internal::TileAsyncRwMutexReadOnlyWrapper<double, Device::CPU>;
  using W = matrix::Tile<double, Device::CPU>;
  static constexpr bool resets = true, retile = false;
  static P make() { P p(LocalElementSize(1, 1), TileElementSize(1, 1)); auto t = tt::sync_wait(p.readwrite(LocalTileIndex(0, 0))); t({0, 0}) = 0.; return p; }
  static auto read(P& p) { return p.read(LocalTileIndex(0, 0)); }
  static auto write(P& p) { return p.readwrite(LocalTileIndex(0, 0)); }
  static P sub(P& p) { if constexpr (kind == 0) return p.sub_pipeline(); else return p.retiled_sub_pipeline(LocalTileSize(1, 1)); }
  static void reset(P& p) { p.done(LocalTileIndex(0, 0)); }
  static double get(R& r) { return r.get()({0, 0}); }
  static double& get(W& w) { return w({0, 0}); }
};
// ---- reference model
struct Slot {
  int kind = 0;  // 0 read, 1 write, 2 sub-pipeline
  bool started = true, granted = false, released = false;
  int child = -1;
};
struct MPipe {
  std::vector<int> q;  // slots
  bool open = true;
  int parent = -1, pos = 0;  // slot of the parent: pipe index and position
};
template <class Ad> struct Run {
  std::vector<Slot> s;
  std::vector<MPipe> p;
  double cur = 0.;
  // implementation side
  std::vector<std::unique_ptr<typename Ad::P>> pipes;
  std::vector<std::unique_ptr<typename Ad::R>> rd;
  std::vector<std::unique_ptr<typename Ad::W>> wr;
  std::vector<std::unique_ptr<ex::unique_any_sender<>>> held;  // requested, not started
  Run() { s.reserve(32); rd.resize(32); wr.resize(32); held.resize(32); p.reserve(8); pipes.resize(8); p.emplace_back(); pipes[0] = std::make_unique<typename Ad::P>(Ad::make()); }
  bool complete(int k) {
    const Slot& x = s[(size_t) k];
    if (x.kind < 2) return x.released;
    const MPipe& c = p[(size_t) x.child];
    if (c.open) return false;
    for (int q : c.q) if (!complete(q)) return false;
    // the slot ends only once it has begun
    return may(c.parent, c.pos);
  }
  bool may(int pi, int pos) {
    const MPipe& m = p[(size_t) pi];
    if (m.parent >= 0 && !may(m.parent, m.pos)) return false;
    bool group = s[(size_t) m.q[(size_t) pos]].kind == 0;
    for (int j = pos - 1; j >= 0; --j) {
      const Slot& e = s[(size_t) m.q[(size_t) j]];
      if (e.kind != 0) group = false;
      if (!group && !complete(m.q[(size_t) j])) return false;
    }
    return true;
  }
  void owner(int k, int& pi, int& pos) {
    for (size_t a = 0; a < p.size(); ++a) for (size_t b = 0; b < p[a].q.size(); ++b) if (p[a].q[b] == k) { pi = (int) a; pos = (int) b; }
  }
  void on_grant(int k, double v) {
    int pi = -1, pos = -1;
    owner(k, pi, pos);
    vf_check(!s[(size_t) k].granted && !s[(size_t) k].released, "an access is granted once");
    vf_check(may(pi, pos), "an access is granted only after every earlier one is released");
    vf_check(v == cur, "an access sees the value left by the access before it");
    s[(size_t) k].granted = true;
  }
  void settle() {
    mini::wait_idle();
    for (size_t a = 0; a < p.size(); ++a) for (size_t b = 0; b < p[a].q.size(); ++b) {
      const Slot& x = s[(size_t) p[a].q[b]];
      if (x.kind < 2 && x.started && !x.released) vf_check(x.granted == may((int) a, (int) b), "an access is granted once every earlier one is released");
    }
  }
  void request(int pi, int kind, bool start) {
    const int k = (int) s.size();
    s.emplace_back();
    s.back().kind = kind;
    s.back().started = start;
    p[(size_t) pi].q.push_back(k);
    auto& P = *pipes[(size_t) pi];
    ex::unique_any_sender<> u;
    if (kind == 0) u = Ad::read(P) | ex::then([this, k](typename Ad::R w) { const double v = Ad::get(w); on_grant(k, v); rd[(size_t) k] = std::make_unique<typename Ad::R>(std::move(w)); });
    else u = Ad::write(P) | ex::then([this, k](typename Ad::W w) { const double v = Ad::get(w); on_grant(k, v); cur = 1. + k; Ad::get(w) = cur; wr[(size_t) k] = std::make_unique<typename Ad::W>(std::move(w)); });
    if (start) ex::start_detached(std::move(u)); else held[(size_t) k] = std::make_unique<ex::unique_any_sender<>>(std::move(u));
  }
  void make_sub(int pi) {
    const int k = (int) s.size();
    s.emplace_back();
    s.back().kind = 2;
    s.back().child = (int) p.size();
    p[(size_t) pi].q.push_back(k);
    MPipe c;
    c.parent = pi;
    c.pos = (int) p[(size_t) pi].q.size() - 1;
    p.push_back(c);
    pipes[p.size() - 1] = std::make_unique<typename Ad::P>(Ad::sub(*pipes[(size_t) pi]));
  }
  void release(int k) { s[(size_t) k].released = true; rd[(size_t) k].reset(); wr[(size_t) k].reset(); }
  void step() {
    // the possible operations
    struct Op { int o, a, b; };
    std::vector<Op> v;
    for (int a = 0; a < (int) p.size(); ++a) {
      if (!p[(size_t) a].open) continue;
      v.push_back({0, a, 0}); v.push_back({0, a, 1}); v.push_back({1, a, 1});
      if (p.size() < 3) v.push_back({2, a, 0});
      v.push_back({3, a, 0});
      v.push_back({4, a, 0});
      v.push_back({5, a, 0});
      for (int b = 0; b < (int) p.size(); ++b) if (b != a && p[(size_t) b].open) v.push_back({6, a, b});
    }
    for (int k = 0; k < (int) s.size(); ++k) {
      const Slot& x = s[(size_t) k];
      if (x.kind == 2 || x.released) continue;
      if (!x.started) { v.push_back({7, k, 0}); v.push_back({8, k, 0}); }
      if (x.granted) v.push_back({9, k, 0});
    }
    const Op o = v[(size_t) vf_pick("operation", 0, (int64_t) v.size() - 1)];
    const size_t a = (size_t) o.a;
    switch (o.o) {
      case 0: request(o.a, o.b, true); break;
      case 1: request(o.a, 1, false); break;
      case 2: make_sub(o.a); break;
      case 3: p[a].open = false; pipes[a].reset(); break;
      case 4: p[a].open = false; Ad::reset(*pipes[a]); break;
      case 5: { auto t = std::make_unique<typename Ad::P>(std::move(*pipes[a])); pipes[a] = std::move(t); break; }
      case 6: p[a].open = false; *pipes[a] = std::move(*pipes[(size_t) o.b]); pipes[(size_t) o.b] = std::move(pipes[a]); break;  // the pipeline assigned to is closed; the object now holds the other one
      case 7: s[a].started = true; ex::start_detached(std::move(*held[a])); held[a].reset(); break;
      case 8: s[a].released = true; held[a].reset(); break;
      case 9: release(o.a); break;
    }
  }
  void run(int64_t n, bool settle_each) {
    for (int64_t k = 0; k < n; ++k) { step(); if (settle_each) settle(); }
    settle();
    // let everything end
    const bool parents_first = vf_pick("parents closed first", 0, 1);
    for (size_t k = 0; k < p.size(); ++k) { const size_t a = parents_first ? k : p.size() - 1 - k; if (p[a].open) { p[a].open = false; pipes[a].reset(); settle(); } }
    for (size_t k = 0; k < s.size(); ++k) if (held[k]) { s[k].started = true; ex::start_detached(std::move(*held[k])); held[k].reset(); settle(); }
    for (bool more = true; more;) {
      more = false;
      for (size_t k = 0; k < s.size(); ++k) if (s[k].kind < 2 && s[k].granted && !s[k].released) { release((int) k); settle(); more = true; break; }
    }
    for (size_t k = 0; k < s.size(); ++k) vf_check(complete((int) k), "every access is granted in the end");
    vf_cover("history");
  }
};
template <class Ad> void go() {
  static const int pol[] = {0, 1};
  mini::policy = pol[vf_pick("scheduler", 0, 1)];
  const bool each = vf_pick("tasks run after every operation", 0, 1);
  const int64_t start = vf_pick("state", 0, 3);
  Run<Ad> r;
  if (start & 1) r.request(0, 1, true);
  if (start & 2) { r.make_sub(0); r.request(1, 1, true); r.request(0, 1, true); }
  vf_shard();
  r.run(vf_param("len", 3), each);
}
}
extern "C" void c14_pipeline() { go<PlainAd>(); }
extern "C" void c14_tile() { go<MatAd<0>>(); }
extern "C" void c14_retiled() { go<MatAd<1>>(); }
