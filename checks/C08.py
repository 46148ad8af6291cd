SPEC = dict(
    level='model_checking',
    bounds='ceilDiv: numerator over the whole non-negative range that meets the no-overflow precondition, denominator from a table (1..2^40+1); interleaveSplits: block size from a table (1..1000 quick, ..2^33 thorough), offsets symbolic in [0,b], length symbolic up to 4 (quick) / 9 (thorough) blocks; percent_to_index: sizes symbolic up to 2^40 for 8 (16) percentages',
    outside='denominators and block sizes not in the table, intervals longer than the stated number of blocks, floating-point rounding of percentages (evaluated over exact rationals), other percentages',
    harnesses=[dict(src=['$V/harness/c08.cpp'], entries=
        [dict(entry='c08_ceildiv_' + t, covers=['ceilDiv'], thorough=dict(params=dict(n_den=34))) for t in ('i32', 'i64', 'u32', 'u64')] +
        [dict(entry='c08_splits', covers=['splits', 'boundary'], params=dict(n_b=7), shards=8, thorough=dict(params=dict(n_b=34, blocks=9), shards=32, time=850)),
         dict(entry='c08_percent', covers=['percent'], eps=True, shards=2, thorough=dict(params=dict(n_fixed=16)))])])
