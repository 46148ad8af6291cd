from common import *
SPEC = dict(
    level='model_checking',
    bounds='column and row panels, stored plainly or transposed, of a square matrix of up to 3 (two successive uses of one panel) or 4 (one use) elements with tiles of 1 or 2, on grids 1x1 (two uses) or up to 1x2 (one use; thorough: up to 2x2 and larger), every rank, every range, sub-tile start, restricted width and external tile; values unconstrained reals. '
           'Broadcasts of a panel, and of a panel together with its transposed panel, on grids up to 2x1 (thorough: up to 2x3), every root, both scheduler orders (same on every rank, and opposite on even and odd ranks).',
    outside='larger panels and grids; panels bound to a matrix with an offset; device panels; three or more uses of a panel; message payload sizes beyond the simulated MPI',
    harnesses=[dict(src=['$V/harness/c17.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c17_range', covers=['ranges'], shards=16, time=300, params=dict(n=3, grids=1, uses=2), thorough=dict(params=dict(n=4, grids=4, uses=2), shards=64, time=800)),
        dict(entry='c17_range', covers=['ranges'], shards=16, time=300, params=dict(n=4, grids=3, uses=1), thorough=dict(params=dict(n=6, grids=7, uses=1), shards=64, time=800)),
        dict(entry='c17_bcast', covers=['broadcast', 'transposed broadcast'], shards=8, time=300, params=dict(grids=2), thorough=dict(params=dict(grids=8), shards=64, time=800)),
    ])])
