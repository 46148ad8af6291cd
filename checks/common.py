ST = ['-I', '$V/stubs', '-include', '$V/stubs/compat/compat.h']
R = '$REPO/src/'
RT = ['$V/stubs/mini_runtime.cpp']
CORE = [R + 'matrix/distribution.cpp', R + 'matrix/tile.cpp', R + 'matrix.cpp', R + 'matrix/matrix_ref.cpp', R + 'memory/memory_view.cpp', R + 'memory/memory_chunk.cpp', R + 'tune.cpp'] + RT
COMM = [R + 'communication/communicator.cpp', R + 'communication/communicator_impl.cpp', R + 'communication/communicator_grid.cpp', R + 'communication/datatypes.cpp']
KERN = [R + 'communication/kernels/%s.cpp' % k for k in ('all_reduce', 'broadcast', 'p2p', 'reduce')]
MPI = ['$V/harness/sim_mpi.cpp']
BLAS = ['$V/harness/ref_blas.cpp', R + 'common/single_threaded_blas.cpp']
ALGO = CORE + COMM + KERN + MPI + BLAS
STA = ST + ['-include', '$V/stubs/compat/eti.h']
