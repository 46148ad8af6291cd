FULL = dict(n_tpb=23, n_gs=23)
def ent(n, cov, full, sh, q=1):
    return dict(entry=n, covers=cov, shards=q, time=300, thorough=dict(params=full, shards=sh, time=800))
SPEC = dict(
    level='model_checking',
    bounds='indices 0..2^62, offsets, ranks and source ranks symbolic over their whole range; tile size, tiles per block and grid size enumerated from tables (1..2^40+3, 1..2^33+5, 1..2^31-1)',
    outside='tile sizes, block sizes and grid sizes not in the tables; indices above 2^62; inputs violating the documented preconditions',
    harnesses=[dict(src=['$V/harness/c01.cpp'], entries=[
        ent('c01_elements', ['elements', 'inside a tile', 'tile boundary'], dict(n_nb=41), 2),
        ent('c01_element_of_tile', ['element_of_tile'], dict(n_nb=41), 2),
        ent('c01_owner', ['owner', 'block boundary', 'inside block'], FULL, 8),
        ent('c01_local', ['owner', 'not owner'], FULL, 16, 14),
        ent('c01_global', ['global'], FULL, 8),
    ])])
