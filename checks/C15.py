from common import *
SPEC = dict(
    level='model_checking', 
    bounds='memory views: parents of up to 2^40 elements, any two nested windows, every copy / move / conversion form, also windows that do not fit. Tiles and subtiles: any number of rows up to 2^40 and either any leading dimension up to 2^40 with 0..2 (thorough 0..3; accepted windows: 0..4, thorough 7) columns, or any number of columns up to 2^18 with a leading dimension from a table of 8 (thorough 11); any window, window of a window and element; overlap predicate: any two windows up to 2^40. Asynchronous subtiles of a tile of up to 2x2 (thorough 3x2): every one or two windows, read-only, read-write and disjoint, two schedulers, both orders of release',
    outside='negative offsets or sizes given to a memory view directly; larger values; device memory',
    harnesses=[dict(src=['$V/harness/c15.cpp'] + CORE, flags=STA, entries=[
        dict(entry='c15_view', covers=['view of a view', 'view of a view of a view', 'converted', 'moved'], shards=7, time=300),
        dict(entry='c15_subtile', covers=['subtile', 'empty subtile', 'window'], shards=8, time=300, params=dict(cols=2), thorough=dict(params=dict(nld=11, cols=3), shards=32, time=800)),
        dict(entry='c15_accepted', covers=['accepted'], shards=8, time=300, thorough=dict(params=dict(nld=11, cols=7), shards=32, time=800)),
        dict(entry='c15_refused', covers=['tile'], shards=4, time=300),
        dict(entry='c15_overlap', covers=['overlap', 'no overlap'], time=300),
        dict(entry='c15_split', covers=['read-only subtile', 'read-write subtile', 'read-only subtiles', 'disjoint subtiles'], shards=8, time=300, params=dict(m=2), thorough=dict(params=dict(m=3, specs=2), shards=64, time=800)),
    ])])
