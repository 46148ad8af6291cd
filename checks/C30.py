from common import *
SPEC = dict(
    level='model_checking',
    bounds='band: minimum from a table of 8 (thorough 15) values and any block size below 9 (thorough 25) times the minimum, any minimum up to 2^40 with any smaller block; 1D block: 12 block sizes and any base up to 2^40; workers: any number of threads up to 2^20 and any 64-bit tuning values; split of the T factor work: 1..9 (thorough 1..24) threads, any tuning value and any number of tiles up to 2^40',
    outside='minimum sizes not in the table with larger blocks; user-set tuning values that break a documented precondition (minimum band below 2, 1D base below 1) are refused by assertions',
    harnesses=[dict(src=['$V/harness/c30.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c30_band', covers=['divisor', 'no divisor', 'small block'], shards=8, time=300, thorough=dict(params=dict(mins=15, quotients=25), shards=64, time=800)),
        dict(entry='c30_band_small', covers=['block below the minimum'], time=100),
        dict(entry='c30_block_1d', covers=['several blocks', 'one block'], shards=4, time=200),
        dict(entry='c30_workers', covers=['workers'], time=200),
        dict(entry='c30_split', covers=['split', 'one worker'], shards=8, time=300, thorough=dict(params=dict(threads=24), shards=24, time=800)),
    ])])
