def E(n, cov, **k): return dict(entry=n, covers=cov, thorough=dict(params=dict(n_ld=23), shards=4, time=800), **k)
SPEC = dict(
    level='model_checking',
    bounds='coordinates symbolic over the whole range of int8/int32/int64 (half range for +/-); linear index: leading dimension enumerated (1..2^31-1), other dimension and index symbolic, product up to 2^62',
    outside='products above 2^62, leading dimensions not in the table, IndexT other than int8_t/int/SizeType',
    harnesses=[dict(src=['$V/harness/c06.cpp'], entries=
        [E(f'c06_pred_{t}', ['predicates']) for t in ('i8', 'i32', 'i64')] +
        [E(f'c06_arith_{t}', ['arithmetic', 'sub']) for t in ('i8', 'i32', 'i64')] +
        [E(f'c06_linear_{t}', ['linear', 'coords']) for t in ('i8', 'i32', 'i64')] +
        [E(f'c06_range_{t}', ['range', 'empty range', 'element of range', 'increment'], shards=2) for t in ('i32', 'i64')])])
