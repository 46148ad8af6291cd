T = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
SPEC = dict(
    level='model_checking',
    bounds='every value of every 8/16/32/64-bit signed and unsigned source type into every such destination type; sums over the whole range of 6x6 operand type pairs; products over the whole range of <=32-bit operands and |x| < 2^31 for 64-bit operands',
    outside='products of 64-bit operands larger than 2^31 in magnitude; results of sum/mul that are not representable (documented precondition)',
    harnesses=[dict(src=['$V/harness/c07.cpp'], entries=
        [dict(entry='c07_to_' + t, covers=['representable'] + (['not representable'] if t != 'i64' else ['not representable'])) for t in T] +
        [dict(entry='c07_named', covers=['representable', 'not representable']), dict(entry='c07_ops', covers=['sum', 'product', 'operand does not fit'])])])
