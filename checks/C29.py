from common import *
E = [
    dict(entry='c29_sources', covers=['both', 'option', 'environment', 'user'], shards=16, time=300, thorough=dict(params=dict(digits=19), shards=32, time=800)),
    dict(entry='c29_all', covers=['defaults', 'environment', 'options', 'both', 'alternating'], shards=5, time=200),
    dict(entry='c29_command_line', covers=['over the environment', 'given'], shards=8, time=300),
    dict(entry='c29_invalid', covers=['invalid'], shards=4, time=200),
    dict(entry='c29_mpi', covers=['initialized', 'abort'], shards=2, time=200),
]
SRC = ['$V/harness/c29.cpp', R + 'init.cpp', R + 'tune.cpp'] + RT
SPEC = dict(
    level='model_checking',
    bounds='each of the 35 parameters from any subset of its sources (environment, command line) over a user configuration with arbitrary values (64-bit integers, reals), environment integers of 1..5 (thorough 1..19) arbitrary digits, every spelling of the flags and layouts in a table; all parameters from the same source or from alternating sources; command lines with one option; both versions of the stream parameters (pika before and from 0.31) and the GPU build of the configuration',
    outside='integers with signs, spaces, other bases or overflow in the environment (std::stoull/stoll decide); reals in the environment other than a table of 4; abbreviated options and other behaviour of the option parser (stand-in for pika::program_options); printing of the configuration',
    harnesses=[
        dict(src=SRC, flags=ST, entries=E),
        dict(src=SRC, flags=ST + ['-I', '$V/stubs/gpu', '-DC29_GPU', '-DDLAF_WITH_GPU', '-DDLAF_WITH_CUDA', '-DPIKA_VERSION_FULL=0x001F00'], entries=[dict(e, entry=e['entry'].replace('c29_', 'c29_gpu_')) for e in E[:3]]),
    ])
