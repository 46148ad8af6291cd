// MPI of the simulated processes (mini::run_ranks): p2p, collectives, communicators, one queue of collectives per communicator.
// Most demanding legal MPI implementation: nothing completes before every participant has posted its call, the
// data are moved only after that (buffers stay in use until then).
#pragma once
#include <cstdint>
extern "C" {
void sim_world(int n);                  // size of MPI_COMM_WORLD (ranks are mini::cur_rank())
long sim_collectives();                 // collectives completed so far
long sim_messages();                    // point to point messages delivered so far
int sim_live_comms();                   // created minus released handles
int sim_live_types();
int sim_pending();                      // posted calls that never completed
int sim_world_rank(void* comm, int rank);  // world rank of a member of a communicator
int sim_same_group(void* a, void* b);   // 1: same communicator context
}
