// See sim_mpi.h.  Deliberately does not include mpi.h: it defines the predefined handle objects of Open MPI.
#include "vf.h"
#include <cstdint>
#include <cstring>
#include <pika/mini.hpp>
#include "sim_mpi.h"
typedef char Obj[64];
extern "C" {
// kinds: i signed, u unsigned, f floating, b bool, c complex
#define TYPES(X) \
  X(ompi_mpi_char, 1, 'i') X(ompi_mpi_signed_char, 1, 'i') X(ompi_mpi_short, 2, 'i') X(ompi_mpi_int, 4, 'i') X(ompi_mpi_long, 8, 'i') X(ompi_mpi_long_long_int, 8, 'i') \
  X(ompi_mpi_unsigned_char, 1, 'u') X(ompi_mpi_unsigned_short, 2, 'u') X(ompi_mpi_unsigned, 4, 'u') X(ompi_mpi_unsigned_long, 8, 'u') X(ompi_mpi_unsigned_long_long, 8, 'u') \
  X(ompi_mpi_float, 4, 'f') X(ompi_mpi_double, 8, 'f') X(ompi_mpi_long_double, 16, 'f') X(ompi_mpi_cxx_bool, 1, 'b') X(ompi_mpi_c_bool, 1, 'b') X(ompi_mpi_byte, 1, 'x') \
  X(ompi_mpi_c_float_complex, 8, 'c') X(ompi_mpi_c_double_complex, 16, 'c') X(ompi_mpi_c_complex, 8, 'c') X(ompi_mpi_cxx_cplex, 8, 'c') X(ompi_mpi_cxx_dblcplex, 16, 'c') X(ompi_mpi_cxx_ldblcplex, 32, 'c') \
  X(ompi_mpi_int8_t, 1, 'i') X(ompi_mpi_int16_t, 2, 'i') X(ompi_mpi_int32_t, 4, 'i') X(ompi_mpi_int64_t, 8, 'i') X(ompi_mpi_uint8_t, 1, 'u') X(ompi_mpi_uint16_t, 2, 'u') X(ompi_mpi_uint32_t, 4, 'u') X(ompi_mpi_uint64_t, 8, 'u') \
  X(ompi_mpi_2int, 8, 'p') X(ompi_mpi_float_int, 8, 'p') X(ompi_mpi_wchar, 4, 'w') X(ompi_mpi_packed, 1, 'x') X(ompi_mpi_cplex, 8, 'c') X(ompi_mpi_dblcplex, 16, 'c')
#define OPS(X) X(ompi_mpi_op_sum, 1) X(ompi_mpi_op_max, 2) X(ompi_mpi_op_min, 3) X(ompi_mpi_op_prod, 4) X(ompi_mpi_op_land, 5) X(ompi_mpi_op_lor, 6) X(ompi_mpi_op_band, 7) X(ompi_mpi_op_bor, 8)
Obj ompi_mpi_comm_world, ompi_mpi_comm_null, ompi_mpi_comm_self, ompi_mpi_datatype_null, ompi_request_null, ompi_mpi_op_null, ompi_mpi_group_null, ompi_mpi_info_null;
#define X(n, s, k) Obj n;
TYPES(X)
#undef X
#define X(n, i) Obj n;
OPS(X)
#undef X
}
namespace {
enum Kind { COMM_SPLIT = 1, COMM_DUP, BARRIER, BCAST, REDUCE, ALLREDUCE };
const char* const NAME[] = {"", "split", "dup", "barrier", "bcast", "reduce", "allreduce"};
struct Type { int64_t count, bl, stride; int esize; char kind; bool live, committed, predef; };
struct Request;
struct Group;
struct Comm { Group* g; int rank; bool live; };
struct Part { bool posted = false; const void* in = nullptr; void* out = nullptr; int64_t count = 0; Type* t = nullptr; int color = 0, key = 0; void** res = nullptr; Request* rq = nullptr; int64_t ev = 0; };
struct Coll { int kind = 0, root = 0, op = 0, n = 0; char tk = 0; int es = 0; int64_t nel = 0; bool done = false; Part* p = nullptr; Coll* next = nullptr; };
struct P2P { bool send; int src, dst, tag; const void* in; void* out; int64_t count; Type* t; Request* rq; int64_t ev; P2P* next; };
struct Group { int n; int* world; Coll* head = nullptr; Coll** cur = nullptr; P2P* p2p = nullptr; Group(int k) : n(k), world(new int[k]), cur(new Coll*[k]) { for (int i = 0; i < k; ++i) cur[i] = nullptr; } };
struct Request { bool done = false; Coll* c = nullptr; Group* g = nullptr; int64_t ev = 0; };
struct World { int n = 1; Comm* comms[64]; };
World* W = nullptr;
long ncoll = 0, nmsg = 0;
int live_comms = 0, live_types = 0, pending = 0;
Type tab[64];
void* tabobj[64];
int ntab = 0;
void init() {
  if (ntab) return;
#define X(n, s, k) tabobj[ntab] = n; tab[ntab++] = Type{1, 1, 1, s, k, true, true, true};
  TYPES(X)
#undef X
}
Type* type_of(void* t) {
  init();
  for (int i = 0; i < ntab; ++i) if (tabobj[i] == t) return &tab[i];
  vf_check(t != nullptr && t != (void*) ompi_mpi_datatype_null, "MPI is given a datatype");
  Type* q = (Type*) t;
  vf_check(q->live && q->committed, "MPI is given a live, committed datatype");
  return q;
}
int64_t nels(int64_t count, Type* t) { return count * t->count * t->bl; }
int64_t off(Type* t, int64_t k) {
  if (t->predef) return k;
  const int64_t per = t->count * t->bl, item = k / per, r = k % per;
  return item * ((t->count - 1) * t->stride + t->bl) + r / t->bl * t->stride + r % t->bl;
}
int op_of(void* op) {
  int r = 0;
#define X(n, i) if (op == (void*) n) r = i;
  OPS(X)
#undef X
  vf_check(r > 0, "MPI is given a valid reduction operation");
  return r;
}
Comm* new_comm(Group* g, int rank) { ++live_comms; return new Comm{g, rank, true}; }
Comm* comm_of(void* c) {
  vf_check(W != nullptr, "simulated MPI is set up");
  if (c == (void*) ompi_mpi_comm_world) return W->comms[mini::cur_rank()];
  vf_check(c != nullptr && c != (void*) ompi_mpi_comm_null, "MPI is given a communicator, not MPI_COMM_NULL");
  Comm* q = (Comm*) c;
  vf_check(q->live, "MPI is given a live communicator");
  vf_check(q->g->world[q->rank] == mini::cur_rank(), "a process uses its own communicator handles");
  return q;
}
// next collective of this rank on the communicator; it has to match what the other ranks have posted
Coll* post(Comm* c, int kind, int root, int op, int64_t nel, Type* t, Part part) {
  Group* g = c->g;
  Coll*& last = g->cur[c->rank];
  Coll*& slot = last ? last->next : g->head;
  if (!slot) {
    slot = new Coll;
    slot->kind = kind; slot->root = root; slot->op = op; slot->nel = nel; slot->tk = t ? t->kind : 0; slot->es = t ? t->esize : 0;
    slot->p = new Part[g->n];
  }
  Coll* q = slot;
  vf_check(q->kind == kind, "the k-th collective on a communicator is the same operation on every rank");
  vf_check(q->root == root, "the k-th collective on a communicator has the same root on every rank");
  vf_check(q->op == op, "the k-th collective on a communicator has the same reduction operation on every rank");
  vf_check(q->nel == nel, "the k-th collective on a communicator has the same size on every rank");
  vf_check(q->tk == (t ? t->kind : 0) && q->es == (t ? t->esize : 0), "the k-th collective on a communicator has the same element type on every rank");
  part.posted = true;
  part.t = t;
  part.ev = mini::publish();
  q->p[c->rank] = part;
  ++q->n;
  ++pending;
  last = q;
  return q;
}
void copy_el(char* d, const char* s, int es) { std::memcpy(d, s, es); }
template <class T> void acc(int op, T* d, const T* s) {
  switch (op) {
    case 1: *d = *d + *s; break;
    case 2: *d = *s > *d ? *s : *d; break;
    case 3: *d = *s < *d ? *s : *d; break;
    case 4: *d = *d * *s; break;
    default: vf_fail("reduction operation of the simulated MPI");
  }
}
void accumulate(int op, char kind, int es, char* d, const char* s) {
  if (kind == 'f' && es == 8) acc(op, (double*) d, (const double*) s);
  else if (kind == 'f' && es == 4) acc(op, (float*) d, (const float*) s);
  else if (kind == 'c' && es == 16) { vf_check(op == 1, "complex reductions are sums"); acc(1, (double*) d, (const double*) s); acc(1, (double*) d + 1, (const double*) s + 1); }
  else if (kind == 'i' && es == 4) acc(op, (int*) d, (const int*) s);
  else if (kind == 'i' && es == 8) acc(op, (long*) d, (const long*) s);
  else if (kind == 'u' && es == 8) acc(op, (unsigned long*) d, (const unsigned long*) s);
  else vf_fail("element type of a reduction in the simulated MPI");
}
void complete(Group* g, Coll* q) {
  if (q->done) return;
  q->done = true;
  pending -= g->n;
  ++ncoll;
  const int n = g->n;
  int64_t all = 0;
  for (int r = 0; r < n; ++r) all = mini::join(all, q->p[r].ev);
  auto fin = [&](int r, int64_t ev) { if (q->p[r].rq) { q->p[r].rq->done = true; q->p[r].rq->ev = ev; } };
  if (q->kind == COMM_DUP) {
    Group* ng = new Group(n);
    for (int r = 0; r < n; ++r) ng->world[r] = g->world[r];
    for (int r = 0; r < n; ++r) *q->p[r].res = new_comm(ng, r);
  }
  else if (q->kind == COMM_SPLIT) {
    for (int r = 0; r < n; ++r) {
      if (q->p[r].res == nullptr) continue;
      const int color = q->p[r].color;
      if (color < 0) { *q->p[r].res = ompi_mpi_comm_null; q->p[r].res = nullptr; continue; }
      int m = 0;
      for (int s = 0; s < n; ++s) m += q->p[s].color == color;
      Group* ng = new Group(m);
      int* ord = new int[m];
      int k = 0;
      for (int s = 0; s < n; ++s) if (q->p[s].color == color) ord[k++] = s;
      for (int a = 1; a < m; ++a)  // stable insertion sort by key
        for (int b = a; b > 0 && q->p[ord[b]].key < q->p[ord[b - 1]].key; --b) { int x = ord[b]; ord[b] = ord[b - 1]; ord[b - 1] = x; }
      for (int a = 0; a < m; ++a) ng->world[a] = g->world[ord[a]];
      for (int a = 0; a < m; ++a) { *q->p[ord[a]].res = new_comm(ng, a); q->p[ord[a]].res = nullptr; }
      delete[] ord;
    }
  }
  else if (q->kind == BCAST) {
    const Part& s = q->p[q->root];
    for (int r = 0; r < n; ++r)
      if (r != q->root) {
        mini::Ctx cx(mini::track ? vf_ev(s.ev, q->p[r].ev) : 0);
        for (int64_t k = 0; k < q->nel; ++k) copy_el((char*) q->p[r].out + off(q->p[r].t, k) * q->es, (const char*) s.out + off(s.t, k) * q->es, q->es);
        fin(r, mini::cur_ev);
      }
    fin(q->root, mini::track ? vf_ev(s.ev, s.ev) : 0);
  }
  else if (q->kind == REDUCE || q->kind == ALLREDUCE) {
    char* buf = new char[q->nel * q->es + 16];
    {
      mini::Ctx cx(mini::track ? vf_ev(all, all) : 0);
      for (int r = 0; r < n; ++r) {
        const Part& p = q->p[r];
        const char* src = (const char*) (p.in == (const void*) 1 ? p.out : p.in);
        for (int64_t k = 0; k < q->nel; ++k)
          if (r == 0) copy_el(buf + k * q->es, src + off(p.t, k) * q->es, q->es);
          else accumulate(q->op, q->tk, q->es, buf + k * q->es, src + off(p.t, k) * q->es);
      }
      for (int r = 0; r < n; ++r)
        if (q->kind == ALLREDUCE || r == q->root)
          for (int64_t k = 0; k < q->nel; ++k) copy_el((char*) q->p[r].out + off(q->p[r].t, k) * q->es, buf + k * q->es, q->es);
      all = mini::cur_ev;
    }
    delete[] buf;
    for (int r = 0; r < n; ++r) fin(r, q->kind == ALLREDUCE || r == q->root ? all : (mini::track ? vf_ev(q->p[r].ev, q->p[r].ev) : 0));
  }
  if (q->kind == COMM_DUP || q->kind == COMM_SPLIT || q->kind == BARRIER) for (int r = 0; r < n; ++r) fin(r, all);
}
void unlink(Group* g, P2P* m) {
  for (P2P** q = &g->p2p; *q; q = &(*q)->next) if (*q == m) { *q = m->next; return; }
}
bool match_one(Group* g) {
  for (P2P* s = g->p2p; s; s = s->next) {
    if (!s->send) continue;
    for (P2P* r = g->p2p; r; r = r->next) {
      if (r->send || r->src != s->src || r->dst != s->dst || r->tag != s->tag) continue;
      vf_check(nels(s->count, s->t) == nels(r->count, r->t), "a message is received with the size it was sent with");
      vf_check(s->t->kind == r->t->kind && s->t->esize == r->t->esize, "a message is received with the type it was sent with");
      {
        mini::Ctx cx(mini::track ? vf_ev(s->ev, r->ev) : 0);
        for (int64_t k = 0; k < nels(s->count, s->t); ++k)
          copy_el((char*) r->out + off(r->t, k) * r->t->esize, (const char*) s->in + off(s->t, k) * s->t->esize, s->t->esize);
        r->rq->ev = mini::cur_ev;
        s->rq->ev = mini::track ? vf_ev(s->ev, s->ev) : 0;
      }
      s->rq->done = r->rq->done = true;
      pending -= 2;
      ++nmsg;
      unlink(g, s);
      unlink(g, r);
      delete r;
      delete s;
      return true;
    }
  }
  return false;
}
void match_p2p(Group* g) { while (match_one(g)) {} }
bool test(Request* r) {
  if (r->done) return true;
  if (r->c) { if (r->c->n == r->g->n) complete(r->g, r->c); }
  else match_p2p(r->g);
  return r->done;
}
void wait(Request* r) {
  mini::block_until([](void* a) { return test((Request*) a); }, r);
  mini::cur_ev = mini::join(mini::cur_ev, r->ev);
  delete r;
}
void check_args(int64_t count) { vf_check(count >= 0, "count is not negative"); }
Request* coll(void* comm, int kind, int root, int op, int64_t count, Type* t, Part part) {
  Comm* c = comm_of(comm);
  check_args(count);
  if (kind == BCAST || kind == REDUCE) vf_check(root >= 0 && root < c->g->n, "root is a rank of the communicator");
  if (kind == REDUCE || kind == ALLREDUCE) {
    vf_check(t->predef, "predefined reductions need predefined types");
    if (part.in == (const void*) 1) vf_check(kind == ALLREDUCE || root == c->rank, "MPI_IN_PLACE only at the root");
    else if (kind == ALLREDUCE || root == c->rank) vf_check(part.in != part.out || count == 0, "send and receive buffers do not alias");
  }
  Request* r = new Request;
  part.rq = r;
  r->g = c->g;
  r->c = post(c, kind, root, op, t ? nels(count, t) : 0, t, part);
  return r;
}
Request* p2p(void* comm, bool send, const void* in, void* out, int count, void* ty, int peer, int tag) {
  Comm* c = comm_of(comm);
  check_args(count);
  vf_check(peer >= 0 && peer < c->g->n, "peer is a rank of the communicator");
  vf_check(tag >= 0, "tag is not negative");
  Request* r = new Request;
  r->g = c->g;
  P2P* m = new P2P{send, send ? c->rank : peer, send ? peer : c->rank, tag, in, out, count, type_of(ty), r, mini::publish(), nullptr};
  P2P** q = &c->g->p2p;
  while (*q) q = &(*q)->next;
  *q = m;
  ++pending;
  return r;
}
Part part(const void* in, void* out) { Part p; p.in = in; p.out = out; return p; }
}
extern "C" {
int mini_mpi_test(void* r) { return test((Request*) r) ? 1 : 0; }
int64_t mini_mpi_event(void* r) { return ((Request*) r)->ev; }
void sim_world(int n) {
  init();
  W = new World;
  W->n = n;
  Group* g = new Group(n);
  for (int i = 0; i < n; ++i) { g->world[i] = i; W->comms[i] = new Comm{g, i, true}; }
}
long sim_collectives() { return ncoll; }
long sim_messages() { return nmsg; }
int sim_live_comms() { return live_comms; }
int sim_live_types() { return live_types; }
int sim_pending() { return pending; }
int sim_world_rank(void* c, int r) { Comm* q = c == (void*) ompi_mpi_comm_world ? W->comms[mini::cur_rank()] : (Comm*) c; vf_check(r >= 0 && r < q->g->n, "rank of the communicator"); return q->g->world[r]; }
int sim_same_group(void* a, void* b) { return comm_of(a)->g == comm_of(b)->g; }
int MPI_Comm_size(void* c, int* n) { *n = comm_of(c)->g->n; return 0; }
int MPI_Comm_rank(void* c, int* n) { *n = comm_of(c)->rank; return 0; }
int MPI_Comm_dup(void* c, void** n) { Part p; p.res = n; wait(coll(c, COMM_DUP, 0, 0, 0, nullptr, p)); return 0; }
int MPI_Comm_split(void* c, int color, int key, void** n) { Part p; p.res = n; p.color = color; p.key = key; vf_check(color >= 0 || color == -32766, "colour is not negative or MPI_UNDEFINED"); wait(coll(c, COMM_SPLIT, 0, 0, 0, nullptr, p)); return 0; }
int MPI_Comm_free(void** c) {
  vf_check(*c != (void*) ompi_mpi_comm_world && *c != (void*) ompi_mpi_comm_null, "a predefined communicator is never released");
  Comm* q = (Comm*) *c;
  vf_check(q->live, "a communicator is released at most once");
  q->live = false;
  --live_comms;
  *c = ompi_mpi_comm_null;
  return 0;
}
int MPI_Type_vector(int count, int bl, int stride, void* old, void** n) {
  vf_check(count >= 0 && bl >= 0, "datatype counts are not negative");
  Type* o = type_of(old);
  vf_check(o->predef, "derived type of an elementary type");
  ++live_types;
  *n = new Type{count, bl, stride, o->esize, o->kind, true, false, false};
  return 0;
}
int MPI_Type_commit(void** t) { Type* q = (Type*) *t; vf_check(q->live, "a live datatype is committed"); q->committed = true; return 0; }
int MPI_Type_free(void** t) {
  for (int i = 0; i < ntab; ++i) vf_check(tabobj[i] != *t, "a predefined datatype is never released");
  Type* q = (Type*) *t;
  vf_check(q->live, "a datatype is released at most once");
  q->live = false;
  --live_types;
  *t = ompi_mpi_datatype_null;
  return 0;
}
int MPI_Isend(const void* b, int count, void* ty, int dst, int tag, void* comm, void** r) { *r = p2p(comm, true, b, nullptr, count, ty, dst, tag); return 0; }
int MPI_Irecv(void* b, int count, void* ty, int src, int tag, void* comm, void** r) { *r = p2p(comm, false, nullptr, b, count, ty, src, tag); return 0; }
int MPI_Send(const void* b, int count, void* ty, int dst, int tag, void* comm) { wait(p2p(comm, true, b, nullptr, count, ty, dst, tag)); return 0; }
int MPI_Recv(void* b, int count, void* ty, int src, int tag, void* comm, void*) { wait(p2p(comm, false, nullptr, b, count, ty, src, tag)); return 0; }
int MPI_Ibcast(void* b, int count, void* ty, int root, void* comm, void** r) { *r = coll(comm, BCAST, root, 0, count, type_of(ty), part(nullptr, b)); return 0; }
int MPI_Bcast(void* b, int count, void* ty, int root, void* comm) { wait(coll(comm, BCAST, root, 0, count, type_of(ty), part(nullptr, b))); return 0; }
int MPI_Ireduce(const void* in, void* out, int count, void* ty, void* op, int root, void* comm, void** r) { *r = coll(comm, REDUCE, root, op_of(op), count, type_of(ty), part(in, out)); return 0; }
int MPI_Reduce(const void* in, void* out, int count, void* ty, void* op, int root, void* comm) { wait(coll(comm, REDUCE, root, op_of(op), count, type_of(ty), part(in, out))); return 0; }
int MPI_Iallreduce(const void* in, void* out, int count, void* ty, void* op, void* comm, void** r) { *r = coll(comm, ALLREDUCE, 0, op_of(op), count, type_of(ty), part(in, out)); return 0; }
int MPI_Allreduce(const void* in, void* out, int count, void* ty, void* op, void* comm) { wait(coll(comm, ALLREDUCE, 0, op_of(op), count, type_of(ty), part(in, out))); return 0; }
int MPI_Ibarrier(void* comm, void** r) { *r = coll(comm, BARRIER, 0, 0, 0, nullptr, part(nullptr, nullptr)); return 0; }
int MPI_Barrier(void* comm) { wait(coll(comm, BARRIER, 0, 0, 0, nullptr, part(nullptr, nullptr))); return 0; }
int MPI_Error_string(int, char* s, int* n) { s[0] = 0; *n = 0; return 0; }
int MPI_Abort(void*, int) { vf_fail("MPI_Abort called"); return 0; }
int MPI_Query_thread(int* p) { *p = 3; return 0; }
int MPI_Initialized(int* p) { *p = 1; return 0; }
int MPI_Init_thread(int*, char***, int, int* p) { *p = 3; return 0; }
int MPI_Finalize() { return 0; }
}
