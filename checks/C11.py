SRC = ['$V/harness/c11.cpp', '$V/harness/mock_mpi.cpp', '$REPO/src/communication/communicator.cpp', '$REPO/src/communication/communicator_impl.cpp', '$REPO/src/communication/datatypes.cpp']
SPEC = dict(
    level='model_checking',
    bounds='every history of up to 3 (thorough: 4) operations from 9 kinds on 2 communicator handles, and of up to 4 (thorough: 5) operations from 6 kinds on 2 datatype handles; rank, block counts and strides symbolic',
    outside='longer histories, more handles, concurrent use of one handle; failures reported by MPI itself',
    harnesses=[dict(src=SRC, entries=[
        dict(entry='c11_communicator', covers=['history'], shards=4, thorough=dict(params=dict(len=4), shards=16, time=800)),
        dict(entry='c11_not_manageable', covers=['managed world', 'managed null']),
        dict(entry='c11_datatype', covers=['history'], shards=4, thorough=dict(params=dict(len=5), shards=16, time=800)),
        dict(entry='c11_message', covers=['message']),
    ])])
