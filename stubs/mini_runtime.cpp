// Task scheduler of the pika stand-in: cooperative, deterministic; ranks and blocked tasks are fibers.
#include <pika/mini.hpp>
#include <pika/init.hpp>
namespace mini {
int64_t cur_ev = 0;
bool track = false;
int n_threads = 1;
int policy = 0;
bool runtime_up = true;
int suspended = 0;
int threads() { return n_threads; }
namespace {
struct Worker { int fiber; int rank; Task* t; bool (*ready)(void*); void* arg; Worker* next; };
struct Rank {
  Task *head = nullptr, *tail = nullptr;
  long n = 0;
  Worker* blocked = nullptr;  // blocked tasks, oldest first
  Worker** btail = &blocked;
  Worker* idle = nullptr;
  MpiOp* req[4096];
  int nreq = 0;
  int main_fiber = 0;
  bool done = false;
  Worker* cur = nullptr;
};
Rank* ranks[64];
int nranks = 0, rank_ = 0;
long progress = 0;
Rank& R() {
  if (!nranks) { ranks[0] = new Rank; nranks = 1; }
  return *ranks[rank_];
}
void worker_main(void* p) {
  Worker* w = (Worker*) p;
  for (;;) {
    Task* t = w->t;
    cur_ev = track ? vf_ev(t->ev, t->ev) : 0;
    t->run();
    Rank& r = *ranks[w->rank];
    w->next = r.idle;
    r.idle = w;
    r.cur = nullptr;
    vf_fiber_switch(r.main_fiber);
  }
}
void resume(Rank& r, Worker* w) {
  int64_t s = cur_ev;
  r.cur = w;
  vf_fiber_switch(w->fiber);
  cur_ev = s;
}
Task* take(Rank& r) {
  if (!r.head) return nullptr;
  long k = 0;
  if (policy == 1 || (policy == 3 && (rank_ & 1))) k = r.n - 1;
  else if (policy == 2 && r.n > 1) k = vf_pick("schedule", 0, r.n - 1 > 3 ? 3 : r.n - 1);
  Task** pp = &r.head;
  Task* prev = nullptr;
  while (k--) { prev = *pp; pp = &(*pp)->next; }
  Task* t = *pp;
  *pp = t->next;
  if (r.tail == t) r.tail = prev;
  t->next = nullptr;
  --r.n;
  return t;
}
bool step(Rank& r) {  // one unit of work of this rank
  for (Worker** pp = &r.blocked; *pp; pp = &(*pp)->next)
    if ((*pp)->ready((*pp)->arg)) {
      Worker* w = *pp;
      *pp = w->next;
      if (r.btail == &w->next) r.btail = pp;
      w->next = nullptr;
      resume(r, w);
      ++progress;
      return true;
    }
  if (Task* t = take(r)) {
    Worker* w = r.idle;
    if (w) { r.idle = w->next; w->t = t; }
    else {
      w = new Worker{0, rank_, t, nullptr, nullptr, nullptr};
      w->fiber = vf_fiber_new(worker_main, w);
    }
    w->next = nullptr;
    resume(r, w);
    ++progress;
    return true;
  }
  for (int i = 0; i < r.nreq; ++i)
    if (r.req[i]->test()) {
      MpiOp* q = r.req[i];
      for (int j = i; j + 1 < r.nreq; ++j) r.req[j] = r.req[j + 1];
      --r.nreq;
      q->complete();
      ++progress;
      return true;
    }
  return false;
}
void next_rank() {  // hand over to another rank
  int from = rank_;
  for (int k = 1; k <= nranks; ++k) {
    int q = (from + k) % nranks;
    if (ranks[q]->done) continue;
    if (q == from) return;
    int64_t s = cur_ev;
    rank_ = q;
    vf_fiber_switch(ranks[q]->main_fiber);
    cur_ev = s;
    return;
  }
}
}
int cur_rank() { return rank_; }
void push(Task* t) {
  Rank& r = R();
  t->ev = publish();
  t->next = nullptr;
  if (r.tail) r.tail->next = t;
  else r.head = t;
  r.tail = t;
  ++r.n;
}
void push_request(MpiOp* q) {
  Rank& r = R();
  vf_check(r.nreq < 4096, "mini: too many requests");
  r.req[r.nreq++] = q;
}
void run_until(bool (*done)(void*), void* arg) {
  Rank& r = R();
  if (r.cur) { block_until(done, arg); return; }
  long seen = -1;
  int stuck = 0;
  while (!done(arg)) {
    if (step(r)) { stuck = 0; continue; }
    if (progress == seen) { if (++stuck > nranks + 1) vf_fail("deadlock: nothing can run but the result is awaited"); }
    else stuck = 0;
    seen = progress;
    next_rank();
  }
}
void wait_idle() {
  run_until([](void*) { Rank& r = R(); return !r.head && !r.blocked && !r.nreq; }, nullptr);
}
bool block_until(bool (*ready)(void*), void* arg) {
  Rank& r = R();
  Worker* w = r.cur;
  if (!w) { run_until(ready, arg); return true; }
  w->ready = ready;
  w->arg = arg;
  w->next = nullptr;
  // append
  Worker** pp = &r.blocked;
  while (*pp) pp = &(*pp)->next;
  *pp = w;
  r.cur = nullptr;
  int64_t s = cur_ev;
  vf_fiber_switch(r.main_fiber);
  cur_ev = s;
  return true;
}
// ---- simulated processes
namespace {
struct RankArg { void (*f)(int, void*); void* a; int rank; int parent; };
void rank_main(void* p) {
  RankArg* a = (RankArg*) p;
  a->f(a->rank, a->a);
  wait_idle();
  ranks[a->rank]->done = true;
  ++progress;
  for (;;) {
    bool all = true;
    for (int i = 0; i < nranks; ++i) all = all && ranks[i]->done;
    if (all) vf_fiber_switch(a->parent);
    else next_rank();
  }
}
}
void run_ranks(int n, void (*f)(int, void*), void* arg) {
  vf_check(n <= 64, "mini: too many ranks");
  static RankArg ra[64];
  nranks = n;
  for (int i = 0; i < n; ++i) {
    ranks[i] = new Rank;
    ra[i] = RankArg{f, arg, i, 0};
    ranks[i]->main_fiber = vf_fiber_new(rank_main, &ra[i]);
  }
  rank_ = 0;
  vf_fiber_switch(ranks[0]->main_fiber);
  nranks = 0;
  rank_ = 0;
}
}
namespace pika {
void start(int, const char* const*, const init_params&) { mini::runtime_up = true; }
int stop() { return 0; }
}
