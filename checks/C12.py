SRC = ['$V/harness/c12.cpp', '$V/harness/mock_mpi.cpp', '$REPO/src/communication/communicator.cpp', '$REPO/src/communication/communicator_impl.cpp', '$REPO/src/communication/datatypes.cpp']
SPEC = dict(
    level='model_checking',
    bounds='one rank of a communicator of any size up to 2^30 (rank, size, root, peer symbolic); every shape of up to 6 elements (4 for pairs of input and output; thorough: 8 and 6), contiguous or strided; element values of this rank and of all others symbolic; sum, max and min',
    outside='the MPI library itself (a stand-in that checks arguments and combines with a symbolic contribution of the other ranks); larger blocks; other element types',
    harnesses=[dict(src=SRC, entries=[
        dict(entry='c12_p2p', covers=['send', 'receive'], shards=2, thorough=dict(params=dict(n=10), shards=8, time=800)),
        dict(entry='c12_reduce', covers=['single rank', 'result', 'no result'], shards=6, thorough=dict(params=dict(n=6), shards=16, time=800)),
        dict(entry='c12_reduce_in_place', covers=['single rank', 'result', 'no result'], shards=2, thorough=dict(params=dict(n=8), shards=8, time=800)),
        dict(entry='c12_matching', covers=['matching'], shards=2, thorough=dict(params=dict(n=8), shards=8, time=800)),
        dict(entry='c12_bad_root', covers=['bad root']),
    ])])
