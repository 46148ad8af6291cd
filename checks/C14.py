from common import *
SPEC = dict(
    level='model_checking',
    bounds='every history of 3 operations (thorough 4) for Pipeline and of 2 (thorough 3) for the pipelines of a matrix tile, from four starting states (idle, held, with a live sub-pipeline and a request behind it, both), out of: shared and exclusive requests, requests started later or dropped, release, sub-pipeline (up to depth 2), destruction, reset, move construction and assignment over a live pipeline; followed by closing everything parents first or children first; the ready tasks run after every operation or only at the end, in two orders',
    outside='longer histories; requests and releases made concurrently by several threads (the runtime\'s own async_rw_mutex is replaced by a stand-in with its documented behaviour)',
    harnesses=[dict(src=['$V/harness/c14.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c14_pipeline', covers=['history'], shards=32, time=400, params=dict(len=3), thorough=dict(params=dict(len=4), shards=64, time=800)),
        dict(entry='c14_tile', covers=['history'], shards=16, time=300, params=dict(len=2), thorough=dict(params=dict(len=3), shards=64, time=800)),
        dict(entry='c14_retiled', covers=['history'], shards=16, time=300, params=dict(len=2), thorough=dict(params=dict(len=3), shards=64, time=800)),
    ])])
