SPEC = dict(
    level='model_checking',
    bounds='descriptors with 1..2^31 blocks (symbolic), block size and gap from tables, element position symbolic; copies between every pair of shapes with up to 6 (thorough: 10) elements and gaps 0..2, element values symbolic, 128 elements of surrounding memory watched',
    outside='block sizes and gaps not in the tables; copies of more elements; overlapping source and destination',
    harnesses=[dict(src=['$V/harness/c09.cpp'], entries=[
        dict(entry='c09_accessors', covers=['contiguous', 'strided'], thorough=dict(params=dict(n_bs=16, n_gap=9), shards=8, time=800)),
        dict(entry='c09_degenerate', covers=['single block', 'empty blocks']),
        dict(entry='c09_copy', covers=['copy'], shards=4, thorough=dict(params=dict(n=10), shards=16, time=800)),
        dict(entry='c09_contiguous', covers=['already contiguous', 'buffer'], shards=2, thorough=dict(params=dict(n=12), shards=8, time=800)),
    ])])
