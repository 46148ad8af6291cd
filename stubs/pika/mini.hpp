// Single-threaded stand-in for pika (sender/receiver runtime) used by the harnesses.
// Same observable semantics as pika: operation states, lazy senders, task queue, async_rw_mutex with
// release-on-last-destruction; the order in which ready tasks run is chosen by mini::policy.
// Several "ranks" (processes) can be simulated: each has its own ready queue and runs on its own fiber.
#pragma once
#include <atomic>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "vf.h"

namespace mini {
// ---------------------------------------------------------------- happens-before bookkeeping
// cur = event the running code belongs to; every hand-over of control publishes / joins events.
extern int64_t cur_ev;
extern bool track;
inline int64_t publish() {
  if (!track) return 0;
  int64_t r = cur_ev;
  cur_ev = vf_ev(r, r);
  return r;
}
inline int64_t join(int64_t a, int64_t b) { return !track || a == b ? a : vf_ev(a, b); }
struct Ctx {
  int64_t saved;
  Ctx(int64_t ev) : saved(cur_ev) { cur_ev = ev; }
  ~Ctx() { cur_ev = saved; }
};
// ---------------------------------------------------------------- tasks
struct Task {
  Task* next = nullptr;
  int64_t ev = 0;
  int prio = 0;
  virtual void run() = 0;
  virtual ~Task() = default;
};
void push(Task* t);                      // ready task of the current rank
void run_until(bool (*done)(void*), void* arg);
void wait_idle();
bool block_until(bool (*ready)(void*), void* arg);  // inside a task: let other tasks run until ready
int cur_rank();
void run_ranks(int n, void (*f)(int rank, void* arg), void* arg);  // simulate n processes
int threads();                           // worker threads reported by the runtime
extern int n_threads;
extern int policy;                       // 0 FIFO 1 LIFO 2 solver's choice 3 FIFO on even processes, LIFO on odd ones
extern bool runtime_up;
extern int suspended;
struct MpiOp {                           // outstanding MPI request of the current rank
  int64_t ev = 0;
  virtual bool test() = 0;               // completed?
  virtual void complete() = 0;
  virtual ~MpiOp() = default;
};
void push_request(MpiOp*);

template <class... Ts> struct TL {};
template <class L> struct decay_tuple;
template <class... Ts> struct decay_tuple<TL<Ts...>> { using type = std::tuple<std::decay_t<Ts>...>; };
template <class L> using decay_tuple_t = typename decay_tuple<L>::type;
template <class A, class B> struct cat2;
template <class... A, class... B> struct cat2<TL<A...>, TL<B...>> { using type = TL<A..., B...>; };
template <class... Ls> struct cat { using type = TL<>; };
template <class L> struct cat<L> { using type = L; };
template <class A, class B, class... R> struct cat<A, B, R...> { using type = typename cat<typename cat2<A, B>::type, R...>::type; };
template <class L> struct rvals;  // types delivered when the stored values are moved out
template <class... Ts> struct rvals<TL<Ts...>> { using type = TL<std::decay_t<Ts>...>; };
template <class L> struct crefs;
template <class... Ts> struct crefs<TL<Ts...>> { using type = TL<const std::decay_t<Ts>&...>; };
template <class R> struct ret_list { using type = TL<R>; };
template <> struct ret_list<void> { using type = TL<>; };
template <class F, class L> struct call_list;
template <class F, class... Ts> struct call_list<F, TL<Ts...>> { using ret = std::invoke_result_t<F, Ts&&...>; using type = typename ret_list<ret>::type; };
template <class F, class L> struct call_lref;
template <class F, class... Ts> struct call_lref<F, TL<Ts...>> { using ret = std::invoke_result_t<F, std::decay_t<Ts>&...>; };

template <class S> using bare = std::remove_cv_t<std::remove_reference_t<S>>;
template <class S> using vals_of = typename bare<S>::vals;
template <class S, class R> using op_of = decltype(std::declval<S>().connect(std::declval<R>()));

template <class F> struct elide {  // guaranteed elision into optional/tuple
  F f;
  operator decltype(std::declval<F&>()())() { return f(); }
};
template <class F> elide(F) -> elide<F>;

struct Nothing {};
template <class S, class = void> struct is_snd : std::false_type {};
template <class S> struct is_snd<S, std::void_t<typename bare<S>::mini_sender>> : std::true_type {};

// ---- closures
template <class F> struct closure {
  F f;
  template <class S, class = std::enable_if_t<is_snd<S>::value>>
  friend auto operator|(S&& s, closure c) { return std::move(c.f)(std::forward<S>(s)); }
};
template <class F> closure(F) -> closure<F>;
}

namespace pika {
namespace threads { class thread_pool_base { public: std::size_t get_os_thread_count() const { return (std::size_t) mini::threads(); } }; }
namespace resource {
inline threads::thread_pool_base& get_thread_pool(const std::string&) { static threads::thread_pool_base p; return p; }
inline std::size_t get_num_threads(const std::string&) { return (std::size_t) mini::threads(); }
inline std::size_t get_num_threads() { return (std::size_t) mini::threads(); }
inline bool pool_exists(const std::string&) { return true; }
}
inline bool is_runtime_initialized() { return mini::runtime_up; }
inline void wait() { mini::wait_idle(); }
inline void resume() { --mini::suspended; vf_check(mini::suspended == 0, "runtime resumed exactly once"); }
inline void suspend() { mini::wait_idle(); ++mini::suspended; vf_check(mini::suspended == 1, "runtime suspended exactly once"); }

namespace execution {
enum class thread_priority { default_, low, low_recursive = low, boost, normal, high, high_recursive, bound };
enum class thread_stacksize { small_ = 1, medium, large, huge, nostack, default_ = small_ };
namespace experimental {
using mini::TL;
template <class S> inline constexpr bool is_sender_v = mini::is_snd<S>::value;
template <class S> struct is_sender : std::bool_constant<is_sender_v<S>> {};
template <class L> struct mini_traits;
template <class... Ts> struct mini_traits<TL<Ts...>> {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = Variant<Tuple<std::decay_t<Ts>...>>;
};
template <class S> struct sender_traits : mini_traits<mini::vals_of<S>> {};

template <class S, class R> auto connect(S&& s, R r) { return std::forward<S>(s).connect(std::move(r)); }
template <class Op> void start(Op& o) { o.start(); }

// ---------------------------------------------------------------- just
template <class... Ts> struct just_sender {
  using mini_sender = void;
  using vals = TL<Ts...>;
  std::tuple<Ts...> v;
  template <class R> struct op {
    std::tuple<Ts...> v; R r;
    void start() { std::apply([&](Ts&... t) { std::move(r).set_value(std::move(t)...); }, v); }
  };
  template <class R> op<R> connect(R r) && { return op<R>{std::move(v), std::move(r)}; }
  template <class R> op<R> connect(R r) const& { return op<R>{v, std::move(r)}; }
};
template <class... Ts> auto just(Ts&&... ts) { return just_sender<std::decay_t<Ts>...>{std::tuple<std::decay_t<Ts>...>(std::forward<Ts>(ts)...)}; }

// ---------------------------------------------------------------- then
template <class S, class F> struct then_sender {
  using mini_sender = void;
  using CL = mini::call_list<F, mini::vals_of<S>>;
  using vals = typename CL::type;
  S s; F f;
  template <class R> struct rcv {
    F f; R r;
    template <class... Ts> void set_value(Ts&&... ts) && {
      if constexpr (std::is_void_v<typename CL::ret>) { std::invoke(std::move(f), std::forward<Ts>(ts)...); std::move(r).set_value(); }
      else std::move(r).set_value(std::invoke(std::move(f), std::forward<Ts>(ts)...));
    }
  };
  template <class R> auto connect(R r) && { return std::move(s).connect(rcv<R>{std::move(f), std::move(r)}); }
  template <class R> auto connect(R r) const& { return s.connect(rcv<R>{f, std::move(r)}); }
};
template <class F> auto then(F&& f) {
  return mini::closure{[f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable { return then_sender<mini::bare<decltype(s)>, std::decay_t<F>>{std::forward<decltype(s)>(s), std::move(f)}; }};
}
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>> auto then(S&& s, F&& f) { return then_sender<mini::bare<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }

// ---------------------------------------------------------------- unpack / drop_value
template <class T> struct tuple_list;
template <class... Ts> struct tuple_list<std::tuple<Ts...>> { using type = TL<Ts...>; };
template <class A, class B> struct tuple_list<std::pair<A, B>> { using type = TL<A, B>; };
template <class T, class Q> struct rep_list;
template <class T, std::size_t... I> struct rep_list<T, std::index_sequence<I...>> { template <std::size_t> using X = T; using type = TL<X<I>...>; };
template <class T, std::size_t N> struct tuple_list<std::array<T, N>> { using type = typename rep_list<T, std::make_index_sequence<N>>::type; };
template <class L> struct single;
template <class T> struct single<TL<T>> { using type = T; };
template <class S> struct unpack_sender {
  using mini_sender = void;
  using T = typename single<mini::vals_of<S>>::type;
  using vals = typename tuple_list<std::decay_t<T>>::type;
  S s;
  template <class R> struct rcv {
    R r;
    template <class X> void set_value(X&& x) && { std::apply([&](auto&&... t) { std::move(r).set_value(std::forward<decltype(t)>(t)...); }, std::forward<X>(x)); }
  };
  template <class R> auto connect(R r) && { return std::move(s).connect(rcv<R>{std::move(r)}); }
};
inline auto unpack() { return mini::closure{[](auto&& s) { return unpack_sender<mini::bare<decltype(s)>>{std::forward<decltype(s)>(s)}; }}; }
template <class S> struct drop_value_sender {
  using mini_sender = void;
  using vals = TL<>;
  S s;
  template <class R> struct rcv {
    R r;
    template <class... X> void set_value(X&&...) && { std::move(r).set_value(); }
  };
  template <class R> auto connect(R r) && { return std::move(s).connect(rcv<R>{std::move(r)}); }
  template <class R> auto connect(R r) const& { return s.connect(rcv<R>{std::move(r)}); }
};
inline auto drop_value() { return mini::closure{[](auto&& s) { return drop_value_sender<mini::bare<decltype(s)>>{std::forward<decltype(s)>(s)}; }}; }
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto drop_value(S&& s) { return drop_value_sender<mini::bare<S>>{std::forward<S>(s)}; }

// ---------------------------------------------------------------- drop_operation_state
template <class S> struct dos_sender {
  using mini_sender = void;
  using vals = typename mini::rvals<mini::vals_of<S>>::type;
  S s;
  template <class R> struct op {
    struct rcv {
      op* o;
      template <class... Ts> void set_value(Ts&&... ts) && {
        op* p = o;
        std::tuple<std::decay_t<Ts>...> v(std::forward<Ts>(ts)...);
        p->pre.reset();
        std::apply([&](auto&... t) { std::move(p->r).set_value(std::move(t)...); }, v);
      }
    };
    std::optional<mini::op_of<S, rcv>> pre;
    R r;
    template <class SS> op(SS&& s, R r_) : r(std::move(r_)) { pre.emplace(mini::elide{[&] { return std::forward<SS>(s).connect(rcv{this}); }}); }
    op(op&&) = delete;
    void start() { pre->start(); }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(s), std::move(r)); }
};
inline auto drop_operation_state() { return mini::closure{[](auto&& s) { return dos_sender<mini::bare<decltype(s)>>{std::forward<decltype(s)>(s)}; }}; }
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto drop_operation_state(S&& s) { return dos_sender<mini::bare<S>>{std::forward<S>(s)}; }

// ---------------------------------------------------------------- schedulers, continues_on
struct thread_pool_scheduler {
  thread_pool_scheduler() = default;
  explicit thread_pool_scheduler(pika::threads::thread_pool_base*) {}
  thread_priority prio = thread_priority::normal;
};
inline thread_pool_scheduler with_priority(thread_pool_scheduler s, thread_priority p) { s.prio = p; return s; }
inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, thread_stacksize) { return s; }
inline thread_priority get_priority(const thread_pool_scheduler& s) { return s.prio; }
template <class S> struct co_sender {
  using mini_sender = void;
  using vals = typename mini::rvals<mini::vals_of<S>>::type;
  S s; thread_pool_scheduler sch;
  template <class R> struct op : mini::Task {
    struct rcv {
      op* o;
      template <class... Ts> void set_value(Ts&&... ts) && {
        o->v.emplace(std::forward<Ts>(ts)...);
        mini::push(o);
      }
    };
    std::optional<mini::decay_tuple_t<mini::vals_of<S>>> v;
    R r;
    mini::op_of<S, rcv> pre;
    template <class SS> op(SS&& s, thread_pool_scheduler sc, R r_) : r(std::move(r_)), pre(std::forward<SS>(s).connect(rcv{this})) { prio = sc.prio == thread_priority::high; }
    op(op&&) = delete;
    void start() { pre.start(); }
    void run() override { std::apply([&](auto&... t) { std::move(r).set_value(std::move(t)...); }, *v); }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(s), sch, std::move(r)); }
  template <class R> op<R> connect(R r) const& { return op<R>(s, sch, std::move(r)); }
};
inline auto continues_on(thread_pool_scheduler sc) { return mini::closure{[sc](auto&& s) { return co_sender<mini::bare<decltype(s)>>{std::forward<decltype(s)>(s), sc}; }}; }
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto continues_on(S&& s, thread_pool_scheduler sc) { return co_sender<mini::bare<S>>{std::forward<S>(s), sc}; }
inline auto schedule(thread_pool_scheduler sc) { return just() | continues_on(sc); }

// ---------------------------------------------------------------- let_value
template <class S, class F> struct let_sender {
  using mini_sender = void;
  using inner = typename mini::call_lref<F, mini::vals_of<S>>::ret;
  using vals = mini::vals_of<inner>;
  S s; F f;
  template <class R> struct op {
    struct irv {
      op* o;
      template <class... Ts> void set_value(Ts&&... ts) && { std::move(o->r).set_value(std::forward<Ts>(ts)...); }
    };
    struct rcv {
      op* o;
      template <class... Ts> void set_value(Ts&&... ts) && {
        op* p = o;
        p->v.emplace(std::forward<Ts>(ts)...);
        std::apply([&](auto&... t) { p->in.emplace(mini::elide{[&] { return std::invoke(std::move(p->f), t...).connect(irv{p}); }}); }, *p->v);
        p->in->start();
      }
    };
    F f; R r;
    std::optional<mini::decay_tuple_t<mini::vals_of<S>>> v;
    std::optional<mini::op_of<inner, irv>> in;
    mini::op_of<S, rcv> pre;
    template <class SS, class FF> op(SS&& s, FF&& f_, R r_) : f(std::forward<FF>(f_)), r(std::move(r_)), pre(std::forward<SS>(s).connect(rcv{this})) {}
    op(op&&) = delete;
    void start() { pre.start(); }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(s), std::move(f), std::move(r)); }
  template <class R> op<R> connect(R r) const& { return op<R>(s, f, std::move(r)); }
};
template <class F> auto let_value(F&& f) {
  return mini::closure{[f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable { return let_sender<mini::bare<decltype(s)>, std::decay_t<F>>{std::forward<decltype(s)>(s), std::move(f)}; }};
}
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>> auto let_value(S&& s, F&& f) { return let_sender<mini::bare<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }

// ---------------------------------------------------------------- bulk: one task per index
template <class S, class F> struct bulk_sender {
  using mini_sender = void;
  using vals = typename mini::rvals<mini::vals_of<S>>::type;
  S s; int64_t n; F f;
  template <class R> struct op {
    struct chunk : mini::Task {
      op* o; int64_t i;
      void run() override {
        op* p = o;
        std::apply([&](auto&... t) { p->f((p->n_conv(i)), t...); }, *p->v);
        p->done_ev = mini::join(p->done_ev, mini::publish());
        if (--p->left == 0) { mini::cur_ev = p->done_ev; p->finish(); }
      }
    };
    struct rcv {
      op* o;
      template <class... Ts> void set_value(Ts&&... ts) && {
        op* p = o;
        p->v.emplace(std::forward<Ts>(ts)...);
        p->left = p->n;
        if (p->n <= 0) return p->finish();
        p->chunks.reset(new chunk[(std::size_t) p->n]);
        for (int64_t i = 0; i < p->n; ++i) { p->chunks[i].o = p; p->chunks[i].i = i; }
        const int64_t n = p->n;
        chunk* c = p->chunks.get();
        for (int64_t i = 0; i < n; ++i) mini::push(c + i);
      }
    };
    int64_t n_conv(int64_t i) { return i; }
    void finish() { std::apply([&](auto&... t) { std::move(r).set_value(std::move(t)...); }, *v); }
    int64_t n, left = 0, done_ev = 0;
    F f; R r;
    std::unique_ptr<chunk[]> chunks;
    std::optional<mini::decay_tuple_t<mini::vals_of<S>>> v;
    mini::op_of<S, rcv> pre;
    template <class SS, class FF> op(SS&& s, int64_t n_, FF&& f_, R r_) : n(n_), f(std::forward<FF>(f_)), r(std::move(r_)), pre(std::forward<SS>(s).connect(rcv{this})) {}
    op(op&&) = delete;
    void start() { pre.start(); }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(s), n, std::move(f), std::move(r)); }
};
template <class N, class F> auto bulk(N n, F&& f) {
  return mini::closure{[n, f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable { return bulk_sender<mini::bare<decltype(s)>, std::decay_t<F>>{std::forward<decltype(s)>(s), (int64_t) n, std::move(f)}; }};
}
template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>> auto bulk(S&& s, N n, F&& f) { return bulk_sender<mini::bare<S>, std::decay_t<F>>{std::forward<S>(s), (int64_t) n, std::forward<F>(f)}; }

// ---------------------------------------------------------------- when_all
template <class... Ss> struct wa_sender {
  using mini_sender = void;
  using vals = typename mini::cat<typename mini::rvals<mini::vals_of<Ss>>::type...>::type;
  std::tuple<Ss...> ss;
  template <class R> struct op {
    template <std::size_t I> struct rcv {
      op* o;
      template <class... Ts> void set_value(Ts&&... ts) && {
        std::get<I>(o->v).emplace(std::forward<Ts>(ts)...);
        o->done();
      }
    };
    template <std::size_t I> using S = std::tuple_element_t<I, std::tuple<Ss...>>;
    template <class Seq> struct store;
    template <std::size_t... I> struct store<std::index_sequence<I...>> { using type = std::tuple<std::optional<mini::op_of<S<I>, rcv<I>>>...>; };
    using Seq = std::index_sequence_for<Ss...>;
    R r;
    int left = sizeof...(Ss);
    int64_t ev = 0;
    std::tuple<std::optional<mini::decay_tuple_t<mini::vals_of<Ss>>>...> v;
    typename store<Seq>::type ops;
    template <class T, std::size_t... I> void init(T&& t, std::index_sequence<I...>) {
      (std::get<I>(ops).emplace(mini::elide{[&] { return std::get<I>(std::forward<T>(t)).connect(rcv<I>{this}); }}), ...);
    }
    template <class T> op(T&& t, R r_) : r(std::move(r_)) { init(std::forward<T>(t), Seq{}); }
    op(op&&) = delete;
    void done() {
      ev = mini::join(ev, mini::publish());
      if (--left) return;
      mini::Ctx c(mini::join(ev, ev));
      deliver(Seq{});
    }
    template <std::size_t... I> void deliver(std::index_sequence<I...>) {
      std::apply([&](auto&... t) { std::move(r).set_value(std::move(t)...); }, std::tuple_cat(refs(*std::get<I>(v))...));
    }
    template <class... T> static std::tuple<T&...> refs(std::tuple<T...>& t) { return std::apply([](T&... x) { return std::tuple<T&...>(x...); }, t); }
    void start() { start_all(Seq{}); }
    template <std::size_t... I> void start_all(std::index_sequence<I...>) {
      if constexpr (sizeof...(I) == 0) std::move(r).set_value();
      else (std::get<I>(ops)->start(), ...);
    }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(ss), std::move(r)); }
  template <class R> op<R> connect(R r) const& { return op<R>(ss, std::move(r)); }
};
template <class... Ss, class = std::enable_if_t<(is_sender_v<Ss> && ...)>> auto when_all(Ss&&... ss) { return wa_sender<mini::bare<Ss>...>{std::tuple<mini::bare<Ss>...>(std::forward<Ss>(ss)...)}; }

template <class S> struct wav_sender {
  using mini_sender = void;
  using V = mini::decay_tuple_t<mini::vals_of<S>>;
  static constexpr bool none = std::tuple_size_v<V> == 0;
  static_assert(std::tuple_size_v<V> <= 1);
  template <class X, bool> struct el { using type = mini::Nothing; };
  template <class X> struct el<X, false> { using type = std::tuple_element_t<0, X>; };
  using E = typename el<V, none>::type;
  using vals = std::conditional_t<none, TL<>, TL<std::vector<E>>>;
  std::vector<S> ss;
  template <class R> struct op {
    struct rcv {
      op* o; std::size_t i;
      template <class... Ts> void set_value(Ts&&... ts) && {
        if constexpr (!none) o->v[i].emplace(std::forward<Ts>(ts)...);
        o->done();
      }
    };
    using O = mini::op_of<S, rcv>;
    R r;
    std::size_t n, left;
    int64_t ev = 0;
    std::unique_ptr<std::optional<E>[]> v;
    std::unique_ptr<std::optional<O>[]> ops;
    op(std::vector<S> s, R r_) : r(std::move(r_)), n(s.size()), left(n), v(new std::optional<E>[n]), ops(new std::optional<O>[n]) {
      for (std::size_t i = 0; i < n; ++i) ops[i].emplace(mini::elide{[&] { return std::move(s[i]).connect(rcv{this, i}); }});
    }
    op(op&&) = delete;
    void finish() {
      if constexpr (none) std::move(r).set_value();
      else {
        std::vector<E> out;
        out.reserve(n);
        for (std::size_t i = 0; i < n; ++i) out.push_back(std::move(*v[i]));
        std::move(r).set_value(std::move(out));
      }
    }
    void done() {
      ev = mini::join(ev, mini::publish());
      if (--left) return;
      mini::Ctx c(mini::join(ev, ev));
      finish();
    }
    void start() {
      if (n == 0) return finish();
      const std::size_t m = n;
      auto* p = ops.get();
      for (std::size_t i = 0; i < m; ++i) p[i]->start();
    }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(ss), std::move(r)); }
  template <class R> op<R> connect(R r) const& { return op<R>(ss, std::move(r)); }
};
template <class S> auto when_all_vector(std::vector<S> ss) { return wav_sender<S>{std::move(ss)}; }

// ---------------------------------------------------------------- shared results: split, ensure_started, split_tuple
struct Waiter {
  Waiter* next = nullptr;
  int64_t ev = 0;
  virtual void notify() = 0;
};
template <class S> struct shared {
  using V = mini::decay_tuple_t<mini::vals_of<S>>;
  struct rcv {
    shared* h;
    template <class... Ts> void set_value(Ts&&... ts) && {
      shared* p = h;
      std::shared_ptr<shared> keep = std::move(p->self);
      p->v.emplace(std::forward<Ts>(ts)...);
      p->op.reset();
      p->done = true;
      p->ev = mini::publish();
      Waiter* w = p->head;
      p->head = nullptr;
      while (w) {
        Waiter* nx = w->next;
        mini::Ctx c(mini::join(p->ev, w->ev));
        w->notify();
        w = nx;
      }
    }
  };
  std::optional<mini::op_of<S, rcv>> op;
  std::optional<V> v;
  bool started = false, done = false;
  int64_t ev = 0;
  Waiter* head = nullptr;
  Waiter** tail = &head;
  std::shared_ptr<shared> self;  // while running
  explicit shared(S s) { op.emplace(mini::elide{[&] { return std::move(s).connect(rcv{this}); }}); }
  shared(const shared&) = delete;
  static void begin(const std::shared_ptr<shared>& p) {
    if (p->started) return;
    p->started = true;
    p->self = p;
    p->op->start();
  }
  static void attach(const std::shared_ptr<shared>& p, Waiter* w) {
    if (p->done) { mini::Ctx c(mini::join(p->ev, mini::cur_ev)); w->notify(); return; }
    w->ev = mini::publish();
    if (!p->head) p->tail = &p->head;
    *p->tail = w;
    p->tail = &w->next;
    begin(p);
  }
};
template <class S> struct split_sender {
  using mini_sender = void;
  using vals = typename mini::crefs<mini::vals_of<S>>::type;
  std::shared_ptr<shared<S>> st;
  template <class R> struct op : Waiter {
    std::shared_ptr<shared<S>> st; R r;
    op(std::shared_ptr<shared<S>> s, R r_) : st(std::move(s)), r(std::move(r_)) {}
    op(op&&) = delete;
    void notify() override { std::apply([&](auto&... t) { std::move(r).set_value(std::as_const(t)...); }, *st->v); }
    void start() { shared<S>::attach(st, this); }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(st), std::move(r)); }
  template <class R> op<R> connect(R r) const& { return op<R>(st, std::move(r)); }
};
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto split(S&& s) { return split_sender<mini::bare<S>>{std::make_shared<shared<mini::bare<S>>>(std::forward<S>(s))}; }
inline auto split() { return mini::closure{[](auto&& s) { return split(std::forward<decltype(s)>(s)); }}; }
template <class S> struct es_sender {
  using mini_sender = void;
  using vals = typename mini::rvals<mini::vals_of<S>>::type;
  std::shared_ptr<shared<S>> st;
  es_sender(std::shared_ptr<shared<S>> s) : st(std::move(s)) {}
  es_sender(es_sender&&) = default;
  es_sender& operator=(es_sender&&) = default;
  template <class R> struct op : Waiter {
    std::shared_ptr<shared<S>> st; R r;
    op(std::shared_ptr<shared<S>> s, R r_) : st(std::move(s)), r(std::move(r_)) {}
    op(op&&) = delete;
    void notify() override { std::apply([&](auto&... t) { std::move(r).set_value(std::move(t)...); }, *st->v); }
    void start() { shared<S>::attach(st, this); }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(st), std::move(r)); }
};
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto ensure_started(S&& s) {
  auto p = std::make_shared<shared<mini::bare<S>>>(std::forward<S>(s));
  shared<mini::bare<S>>::begin(p);
  return es_sender<mini::bare<S>>{std::move(p)};
}
inline auto ensure_started() { return mini::closure{[](auto&& s) { return ensure_started(std::forward<decltype(s)>(s)); }}; }

template <class S, std::size_t I> struct st_sender {
  using mini_sender = void;
  using T = std::decay_t<typename single<mini::vals_of<S>>::type>;
  using vals = TL<std::tuple_element_t<I, T>>;
  std::shared_ptr<shared<S>> st;
  template <class R> struct op : Waiter {
    std::shared_ptr<shared<S>> st; R r;
    op(std::shared_ptr<shared<S>> s, R r_) : st(std::move(s)), r(std::move(r_)) {}
    op(op&&) = delete;
    void notify() override { std::move(r).set_value(std::move(std::get<I>(std::get<0>(*st->v)))); }
    void start() { shared<S>::attach(st, this); }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(st), std::move(r)); }
  template <class R> op<R> connect(R r) const& { return op<R>(st, std::move(r)); }
};
template <class S, std::size_t... I> auto split_tuple_impl(std::shared_ptr<shared<S>> p, std::index_sequence<I...>) { return std::make_tuple(st_sender<S, I>{p}...); }
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto split_tuple(S&& s) {
  using B = mini::bare<S>;
  using T = std::decay_t<typename single<mini::vals_of<B>>::type>;
  return split_tuple_impl<B>(std::make_shared<shared<B>>(std::forward<S>(s)), std::make_index_sequence<std::tuple_size_v<T>>{});
}
inline auto split_tuple() { return mini::closure{[](auto&& s) { return split_tuple(std::forward<decltype(s)>(s)); }}; }

// ---------------------------------------------------------------- type-erased senders
template <class... Ts> struct any_rcv_base { virtual void set_value(Ts... ts) = 0; };
struct any_op_base { virtual ~any_op_base() = default; virtual void start() = 0; };
template <class... Ts> struct any_rcv {
  any_rcv_base<Ts...>* b;
  template <class... Us> void set_value(Us&&... us) && { b->set_value(Ts(std::forward<Us>(us))...); }
};
template <class S, class... Ts> struct any_op : any_op_base {
  mini::op_of<S, any_rcv<Ts...>> o;
  template <class SS> any_op(SS&& s, any_rcv<Ts...> r) : o(std::forward<SS>(s).connect(r)) {}
  void start() override { o.start(); }
};
template <class... Ts> struct any_base {
  virtual ~any_base() = default;
  virtual any_op_base* connect_move(any_rcv<Ts...> r) = 0;
  virtual any_op_base* connect_copy(any_rcv<Ts...> r) { return nullptr; }
  virtual any_base* clone() const { return nullptr; }
};
template <class S, class... Ts> struct uany_impl : any_base<Ts...> {
  S s;
  template <class SS> uany_impl(std::nullptr_t, SS&& x) : s(std::forward<SS>(x)) {}
  any_op_base* connect_move(any_rcv<Ts...> r) override { return new any_op<S, Ts...>(std::move(s), r); }
};
template <class S, class... Ts> struct any_impl : any_base<Ts...> {
  S s;
  template <class SS> any_impl(std::nullptr_t, SS&& x) : s(std::forward<SS>(x)) {}
  any_op_base* connect_move(any_rcv<Ts...> r) override { return new any_op<S, Ts...>(std::move(s), r); }
  any_base<Ts...>* clone() const override { return new any_impl(nullptr, s); }
};
template <class R, class... Ts> struct any_conn : any_rcv_base<Ts...> {
  R r;
  std::unique_ptr<any_op_base> o;
  any_conn(any_base<Ts...>* b, R r_) : r(std::move(r_)) {
    vf_check(b != nullptr, "an empty any_sender is connected");
    o.reset(b->connect_move(any_rcv<Ts...>{this}));
  }
  any_conn(any_conn&&) = delete;
  void set_value(Ts... ts) override { std::move(r).set_value(std::move(ts)...); }
  void start() { o->start(); }
};
template <class... Ts> class unique_any_sender {
public:
  using mini_sender = void;
  using vals = TL<Ts...>;
  std::unique_ptr<any_base<Ts...>> p;
  unique_any_sender() = default;
  unique_any_sender(unique_any_sender&&) = default;
  unique_any_sender& operator=(unique_any_sender&&) = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<mini::bare<S>, unique_any_sender>>>
  unique_any_sender(S&& s) : p(new uany_impl<mini::bare<S>, Ts...>(nullptr, std::forward<S>(s))) {}
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<mini::bare<S>, unique_any_sender>>>
  unique_any_sender& operator=(S&& s) { p.reset(new uany_impl<mini::bare<S>, Ts...>(nullptr, std::forward<S>(s))); return *this; }
  template <class R> any_conn<R, Ts...> connect(R r) && { std::unique_ptr<any_base<Ts...>> q = std::move(p); return any_conn<R, Ts...>(q.get(), std::move(r)); }
  explicit operator bool() const { return (bool) p; }
  bool empty() const { return !p; }
  void reset() { p.reset(); }
};
template <class... Ts> class any_sender {
public:
  using mini_sender = void;
  using vals = TL<Ts...>;
  std::unique_ptr<any_base<Ts...>> p;
  any_sender() = default;
  any_sender(any_sender&&) = default;
  any_sender& operator=(any_sender&&) = default;
  any_sender(const any_sender& o) : p(o.p ? o.p->clone() : nullptr) {}
  any_sender& operator=(const any_sender& o) { p.reset(o.p ? o.p->clone() : nullptr); return *this; }
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<mini::bare<S>, any_sender>>>
  any_sender(S&& s) : p(new any_impl<mini::bare<S>, Ts...>(nullptr, std::forward<S>(s))) {}
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<mini::bare<S>, any_sender>>>
  any_sender& operator=(S&& s) { p.reset(new any_impl<mini::bare<S>, Ts...>(nullptr, std::forward<S>(s))); return *this; }
  template <class R> any_conn<R, Ts...> connect(R r) && { std::unique_ptr<any_base<Ts...>> q = std::move(p); return any_conn<R, Ts...>(q.get(), std::move(r)); }
  template <class R> any_conn<R, Ts...> connect(R r) const& { std::unique_ptr<any_base<Ts...>> q(p ? p->clone() : nullptr); return any_conn<R, Ts...>(q.get(), std::move(r)); }
  explicit operator bool() const { return (bool) p; }
  bool empty() const { return !p; }
  void reset() { p.reset(); }
};
template <class L> struct any_of;
template <class... Ts> struct any_of<TL<Ts...>> { using u = unique_any_sender<std::decay_t<Ts>...>; using a = any_sender<std::decay_t<Ts>...>; };
template <class S> auto make_unique_any_sender(S&& s) { return typename any_of<mini::vals_of<S>>::u(std::forward<S>(s)); }
template <class S> auto make_any_sender(S&& s) { return typename any_of<mini::vals_of<S>>::a(std::forward<S>(s)); }

// ---------------------------------------------------------------- start_detached
template <class S> struct detached {
  struct rcv {
    detached* d;
    template <class... Ts> void set_value(Ts&&...) && { delete d; }
  };
  mini::op_of<S, rcv> o;
  template <class SS> detached(SS&& s) : o(std::forward<SS>(s).connect(rcv{this})) {}
};
template <class S> void start_detached(S&& s) { (new detached<mini::bare<S>>(std::forward<S>(s)))->o.start(); }
struct start_detached_closure {
  template <class S, class = std::enable_if_t<is_sender_v<S>>> friend void operator|(S&& s, start_detached_closure) { start_detached(std::forward<S>(s)); }
};
inline start_detached_closure start_detached() { return {}; }

// ---------------------------------------------------------------- async_rw_mutex
enum class async_rw_mutex_access_type { read, readwrite };
template <class RW> struct arm_state {
  std::shared_ptr<RW> value;
  std::shared_ptr<arm_state> next;
  bool granted = false;
  async_rw_mutex_access_type type;
  int64_t ev = 0, rel = 0;
  Waiter* head = nullptr;
  Waiter** tail = &head;
  explicit arm_state(async_rw_mutex_access_type t) : type(t) {}
  ~arm_state() {
    if (next) {
      std::shared_ptr<arm_state> n = std::move(next);
      n->value = std::move(value);
      n->ev = mini::join(rel, ev);
      grant(std::move(n));
    }
  }
  static void grant(std::shared_ptr<arm_state> s) {
    s->granted = true;
    Waiter* w = s->head;
    s->head = nullptr;
    int64_t e = s->ev;
    s.reset();  // only requests and wrappers keep the state alive
    while (w) {
      Waiter* nx = w->next;
      mini::Ctx c(mini::join(e, w->ev));
      w->notify();
      w = nx;
    }
  }
};
template <class RW> struct arm_ref {  // reference to a state; the last one to go releases it
  std::shared_ptr<arm_state<RW>> s;
  arm_ref() = default;
  explicit arm_ref(std::shared_ptr<arm_state<RW>> p) : s(std::move(p)) {}
  arm_ref(arm_ref&& o) noexcept = default;
  arm_ref(const arm_ref& o) = default;
  arm_ref& operator=(arm_ref&& o) noexcept { if (this != &o) { drop(); s = std::move(o.s); } return *this; }
  arm_ref& operator=(const arm_ref& o) { if (this != &o) { drop(); s = o.s; } return *this; }
  ~arm_ref() { drop(); }
  void drop() {
    if (!s) return;
    if (mini::track) s->rel = mini::join(s->rel, mini::publish());
    std::shared_ptr<arm_state<RW>> t = std::move(s);
    t.reset();
  }
};
template <class RW, class R, async_rw_mutex_access_type at> class async_rw_mutex_access_wrapper;
template <class RW, class R> class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
public:
  arm_ref<RW> a;
  async_rw_mutex_access_wrapper() = delete;
  explicit async_rw_mutex_access_wrapper(arm_ref<RW> x) : a(std::move(x)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = default;
  R& get() const { vf_check((bool) a.s, "access wrapper is not empty"); return *a.s->value; }
  operator R&() const { return get(); }
};
template <class RW, class R> class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
public:
  arm_ref<RW> a;
  async_rw_mutex_access_wrapper() = delete;
  explicit async_rw_mutex_access_wrapper(arm_ref<RW> x) : a(std::move(x)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  RW& get() { vf_check((bool) a.s, "access wrapper is not empty"); return *a.s->value; }
  operator RW&() { return get(); }
};
template <class RW, class R, async_rw_mutex_access_type at> struct arm_sender {
  using mini_sender = void;
  using W = async_rw_mutex_access_wrapper<RW, R, at>;
  using vals = TL<W>;
  arm_ref<RW> a;
  arm_sender(arm_ref<RW> x) : a(std::move(x)) {}
  arm_sender(arm_sender&&) = default;
  arm_sender& operator=(arm_sender&&) = default;
  arm_sender(const std::conditional_t<at == async_rw_mutex_access_type::read, arm_sender, mini::Nothing>& o) : a(copy(o)) {}
  static const arm_ref<RW>& copy(const arm_sender& o) { return o.a; }
  static arm_ref<RW> copy(const mini::Nothing&) { return {}; }
  template <class Rv> struct op : Waiter {
    arm_ref<RW> a; Rv r;
    op(arm_ref<RW> x, Rv r_) : a(std::move(x)), r(std::move(r_)) {}
    op(op&&) = delete;
    void notify() override { std::move(r).set_value(W(std::move(a))); }
    void start() {
      auto* s = a.s.get();
      if (s->granted) { mini::Ctx c(mini::join(s->ev, mini::cur_ev)); notify(); return; }
      ev = mini::publish();
      if (!s->head) s->tail = &s->head;
      *s->tail = this;
      s->tail = &next;
    }
  };
  template <class Rv> op<Rv> connect(Rv r) && { return op<Rv>(std::move(a), std::move(r)); }
  template <class Rv> op<Rv> connect(Rv r) const& { static_assert(at == async_rw_mutex_access_type::read); return op<Rv>(a, std::move(r)); }
};
template <class RW, class R = std::add_const_t<RW>> class async_rw_mutex {
  std::shared_ptr<RW> value;
  arm_ref<RW> last;
  arm_ref<RW> request(async_rw_mutex_access_type t) {
    if (last.s && last.s->type == async_rw_mutex_access_type::read && t == async_rw_mutex_access_type::read) return last;
    auto n = std::make_shared<arm_state<RW>>(t);
    if (!last.s) { n->value = std::move(value); n->granted = true; n->ev = mini::publish(); }
    else last.s->next = n;
    arm_ref<RW> r{n};
    last = arm_ref<RW>{std::move(n)};  // may release the previous state and grant this one
    return r;
  }
public:
  using read_type = R;
  using readwrite_type = RW;
  using read_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite>;
  async_rw_mutex() = delete;
  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : value(std::make_shared<RW>(std::forward<U>(u))) {}
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;
  arm_sender<RW, R, async_rw_mutex_access_type::read> read() { return {request(async_rw_mutex_access_type::read)}; }
  arm_sender<RW, R, async_rw_mutex_access_type::readwrite> readwrite() { return {request(async_rw_mutex_access_type::readwrite)}; }
};
}  // namespace experimental
}  // namespace execution

// ---------------------------------------------------------------- sync_wait
namespace this_thread::experimental {
template <class S> struct sw {
  using V = mini::decay_tuple_t<mini::vals_of<S>>;
  std::optional<V> v;
  int64_t ev = 0;
  struct rcv {
    sw* w;
    template <class... Ts> void set_value(Ts&&... ts) && {
      sw* p = w;
      p->ev = mini::publish();
      p->v.emplace(std::forward<Ts>(ts)...);
    }
  };
};
template <class S> auto sync_wait(S&& s) {
  using B = mini::bare<S>;
  using W = sw<B>;
  W w;
  {
    auto o = std::forward<S>(s).connect(typename W::rcv{&w});
    o.start();
    mini::run_until([](void* p) { return ((W*) p)->v.has_value(); }, &w);
    mini::cur_ev = mini::join(mini::cur_ev, w.ev);
  }
  if constexpr (std::tuple_size_v<typename W::V> == 0) return;
  else if constexpr (std::tuple_size_v<typename W::V> == 1) return std::tuple_element_t<0, typename W::V>(std::move(std::get<0>(*w.v)));
  else return std::move(*w.v);
}
struct sync_wait_closure {
  template <class S, class = std::enable_if_t<mini::is_snd<S>::value>> friend auto operator|(S&& s, sync_wait_closure) { return sync_wait(std::forward<S>(s)); }
};
inline sync_wait_closure sync_wait() { return {}; }
}

// ---------------------------------------------------------------- blocking primitives (inside tasks)
template <class C = void> class barrier {
  std::ptrdiff_t n, left;
  int64_t phase = 0, ev = 0, pub = 0;
public:
  explicit barrier(std::ptrdiff_t k) : n(k), left(k) {}
  template <class... A> void arrive_and_wait(A&&...) {
    ev = mini::join(ev, mini::publish());
    if (--left == 0) { left = n; ++phase; pub = ev; ev = 0; mini::cur_ev = mini::join(mini::cur_ev, pub); return; }
    struct Q { int64_t* p; int64_t v; } q{&phase, phase};
    mini::block_until([](void* a) { return *((Q*) a)->p != ((Q*) a)->v; }, &q);
    mini::cur_ev = mini::join(mini::cur_ev, pub);
  }
};
template <std::ptrdiff_t M = 1024> class counting_semaphore {
  std::ptrdiff_t n;
  int64_t ev = 0;
public:
  explicit counting_semaphore(std::ptrdiff_t k) : n(k) {}
  void release(std::ptrdiff_t k = 1) { ev = mini::join(ev, mini::publish()); n += k; }
  void acquire() {
    if (n <= 0) mini::block_until([](void* a) { return ((counting_semaphore*) a)->n > 0; }, this);
    --n;
    mini::cur_ev = mini::join(mini::cur_ev, ev);
  }
};
struct mutex { void lock() {} void unlock() {} bool try_lock() { return true; } };
using spinlock = mutex;

// ---------------------------------------------------------------- MPI
namespace mpi::experimental {
template <class S, class F> struct tm_sender;
template <class F> auto transform_mpi(F&& f) {
  return mini::closure{[f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable { return tm_sender<mini::bare<decltype(s)>, std::decay_t<F>>{std::forward<decltype(s)>(s), std::move(f)}; }};
}
template <class S, class F> auto transform_mpi(S&& s, F&& f) { return tm_sender<mini::bare<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
}
}  // namespace pika
