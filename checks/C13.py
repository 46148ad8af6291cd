from common import *
SPEC = dict(
    level='model_checking',
    bounds='process grids on 1..4 (thorough 8) simulated processes, every shape that fits, both orderings, pools of 1..2 communicator copies, any values exchanged; arguments of the splits: any number of processes up to 2^30, long side of the grid up to 2^20, short side 1..5 (thorough 12), any two processes',
    outside='the behaviour of the MPI library itself (a simulated MPI that follows the standard and completes as late as allowed)',
    harnesses=[
        dict(src=['$V/harness/c13.cpp'] + MPI + COMM + [R + 'tune.cpp'] + RT, flags=ST, entries=[
            dict(entry='c13_grid', covers=['in grid', 'outside'], shards=4, time=300, thorough=dict(params=dict(n=8), shards=32, time=800))]),
        dict(src=['$V/harness/c13s.cpp', '$V/harness/mock_mpi.cpp'] + COMM + [R + 'tune.cpp'] + RT, flags=ST, entries=[
            dict(entry='c13_split', covers=['both inside', 'outside'], shards=4, time=300, thorough=dict(params=dict(side=12), shards=24, time=800))]),
    ])
