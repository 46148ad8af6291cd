SRC = ['$V/harness/c10.cpp', '$V/harness/mock_mpi.cpp', '$REPO/src/communication/datatypes.cpp']
SPEC = dict(
    level='model_checking',
    bounds='all 15 supported element types; contiguous messages of 0..2^31-1 elements; strided messages with 1..2^31+1000 blocks (symbolic) and block size and gap from tables reaching beyond the range of int; element position symbolic',
    outside='block sizes and gaps not in the tables; the MPI library itself (replaced by a stand-in that records typemaps)',
    harnesses=[dict(src=SRC, entries=[
        dict(entry='c10_elementary', covers=['elementary']),
        dict(entry='c10_typemap', covers=['elementary', 'derived'], thorough=dict(params=dict(n_bs=19, n_gap=9), shards=8, time=800)),
    ])])
