// A stand-in for the MPI library seen by ONE process. Every call is checked against the MPI rules for its
// arguments (live handles, committed types, counts, aliasing, roots) and recorded.
#pragma once
#include <cstdint>
#include <mpi.h>
extern "C" {
struct MockType { int kind; int esize; int live; int committed; int predefined; int64_t count, bl, stride; int base; };  // kind 0 elementary, 1 vector
struct MockComm { int live; int rank, size; int frees; };
extern MockComm mock_comm[64];
extern int mock_ncomm;
extern MockType mock_type[160];
extern int mock_ntype;
struct MockCall { int fn; const void* in; void* out; int count; int type; int op; int peer; int tag; int comm; };
enum { MOCK_SEND = 1, MOCK_RECV, MOCK_REDUCE, MOCK_ALLREDUCE, MOCK_BCAST };
extern MockCall mock_call[64];
extern int mock_ncall;
void mock_world(int rank, int size);
MPI_Comm mock_new_comm(int rank, int size);
int mock_comm_index(MPI_Comm c);      // -1: not a communicator, 0: world, 1: null, 2..: created ones
int mock_type_index(MPI_Datatype t);  // -1 unknown, 0 null
int mock_live_types();
int64_t mock_elements(int type);                       // elements in one item of the type
// element k of a message (count items of type): offset in elements from the buffer
int64_t mock_offset(int type, int64_t k);
// data exchanged with the other ranks (elements are long)
extern long mock_wire[64];
extern long mock_sent[64];
extern int mock_nsent;
}
const char* mock_kind_of(int type);   // "i", "u", "f", "b", "c" : kind of an elementary type
