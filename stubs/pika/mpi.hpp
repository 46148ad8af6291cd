#pragma once
#include <mpi.h>
#include <pika/mini.hpp>
extern "C" int mini_mpi_test(void* request);     // 1 once the request has completed
extern "C" int64_t mini_mpi_event(void* request);
namespace pika::mpi::experimental {
enum class exception_mode { no_handler, install_handler };
inline void start_polling(exception_mode) {}
inline void stop_polling() {}
inline std::string get_pool_name() { return "mpi"; }
template <class S, class F> struct tm_sender {
  using mini_sender = void;
  template <class L> struct call;
  template <class... Ts> struct call<mini::TL<Ts...>> { using ret = std::invoke_result_t<F, std::decay_t<Ts>&..., MPI_Request*>; };
  using ret = typename call<mini::vals_of<S>>::ret;
  using vals = typename mini::ret_list<ret>::type;
  S s; F f;
  template <class R> struct op : mini::Task, mini::MpiOp {
    struct rcv {
      op* o;
      template <class... Ts> void set_value(Ts&&... ts) && { o->v.emplace(std::forward<Ts>(ts)...); mini::push(o); }
    };
    using Res = std::conditional_t<std::is_void_v<ret>, mini::Nothing, ret>;
    F f; R r;
    MPI_Request req = MPI_REQUEST_NULL;
    std::optional<mini::decay_tuple_t<mini::vals_of<S>>> v;
    std::optional<Res> res;
    mini::op_of<S, rcv> pre;
    template <class SS, class FF> op(SS&& s, FF&& f_, R r_) : f(std::forward<FF>(f_)), r(std::move(r_)), pre(std::forward<SS>(s).connect(rcv{this})) {}
    op(op&&) = delete;
    void start() { pre.start(); }
    void run() override {
      std::apply([&](auto&... t) {
        if constexpr (std::is_void_v<ret>) { std::move(f)(t..., &req); res.emplace(); }
        else res.emplace(std::move(f)(t..., &req));
      }, *v);
      mini::MpiOp::ev = mini::publish();
      mini::push_request(this);
    }
    bool test() override { return mini_mpi_test(req); }
    void complete() override {
      mini::Ctx c(mini::join(mini::MpiOp::ev, mini_mpi_event(req)));
      if constexpr (std::is_void_v<ret>) std::move(r).set_value();
      else std::move(r).set_value(std::move(*res));
    }
  };
  template <class R> op<R> connect(R r) && { return op<R>(std::move(s), std::move(f), std::move(r)); }
};
}
