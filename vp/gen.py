"""Hypothesis strategies shared by the distribution checks."""
from hypothesis import strategies as st

from vp import dists

SEED = st.integers(0, 2 ** 31 - 1)

# the worker narrows generation to one stratum at a time, so that every
# distribution gets its share of the cases
ONLY = []


def pick(names):
    return [n for n in names if n in ONLY] or list(names)


def dims(max_rank=4, max_dim=4, min_rank=0, max_size=64, zero=False):
    lo = 0 if zero else 1

    def ok(s):
        n = 1
        for d in s:
            n *= d
        return n <= max_size
    base = st.lists(st.sampled_from([d for d in (1, 2, 3, 2, 3, 4)
                                     if d <= max_dim]), min_size=min_rank,
                    max_size=max_rank).map(lambda s: _cap(s, max_size))
    if not zero:
        return base
    return base | st.lists(st.integers(lo, max_dim), min_size=min_rank,
                           max_size=max_rank).map(lambda s: _cap(s, max_size))


def _cap(s, max_size):
    out, n = [], 1
    for d in s:
        if n * max(d, 1) > max_size:
            d = 1
        n *= max(d, 1)
        out.append(d)
    return out


def sub():
    """[drop leading dims, bitmask of dims set to 1]."""
    return st.one_of(
        st.just([0, 0]),
        st.tuples(st.just(0), st.integers(1, 15)).map(list),
        st.tuples(st.integers(0, 4), st.integers(0, 15)).map(list))


@st.composite
def dist_case(draw, names=dists.ALL, dtypes=None, regimes=('mid', 'mid',
                                                           'wide', 'tiny'),
              max_rank=4, max_size=64, kmax=6, vdtypes=None, min_rank=0,
              none_n_exp=True, zero=False, dtype_weights=True, big=False):
    name = draw(st.sampled_from(pick(names)))
    allowed = [d for d in dists.allowed_dtypes(name)
               if dtypes is None or d in dtypes]
    if dtype_weights:
        pool = [d for d in allowed for _ in range(
            {'float16': 1, 'float32': 4, 'float64': 3}[d])]
    else:
        pool = allowed
    c = {'dist': name, 'dtype': draw(st.sampled_from(pool)),
         'regime': draw(st.sampled_from(regimes)),
         'batch': draw(dims(max_rank=min(max_rank, 4 - inner_rank(name)),
                            max_size=max_size, min_rank=min_rank,
                            zero=zero)),
         'seed': draw(SEED)}
    if name in dists.TWO_PARAM:
        c['p1'] = draw(sub())
        c['p2'] = draw(sub())
        if draw(st.booleans()):      # one of the two usually spans the batch
            c['p1' if draw(st.booleans()) else 'p2'] = [0, 0]
    if name in ('Normal', 'FoldNormal'):
        c['std_kind'] = draw(st.sampled_from(['std', 'logstd']))
    if name in dists.DISCRETE:
        pool = [v for v in dists.allowed_vdtypes(name)
                if vdtypes is None or v in vdtypes]
        c['vdtype'] = draw(st.sampled_from(pool))
    # a share of the cases with counts, shape parameters, numbers of
    # categories and dimensions far beyond what anyone writes by hand
    big = big and draw(st.integers(0, 4)) == 0
    cap = 12
    if big:
        c['big'] = True
        f16 = 'float16' in (c['dtype'], c.get('vdtype'))
        cap = 2000 if f16 else 30000
        kmax = 40
        if draw(st.booleans()):
            c['batch'] = draw(st.sampled_from(
                [[97], [33, 3], [2, 65], [130], [1, 1, 40]]))
    if name == 'Binomial':
        c['n_exp'] = draw(st.one_of(st.integers(1, cap), st.integers(1, 100)))
    if name == 'Multinomial':
        ns = st.integers(1, cap) | st.integers(1, 40)
        c['n_exp'] = draw(st.none() | ns if none_n_exp else ns)
    if name in ('Multinomial', 'UnnormalizedMultinomial'):
        if draw(st.booleans()):
            c['normalize'] = draw(st.booleans())
    if name in ('Categorical',) + dists.VECTOR:
        lo = 2 if name == 'Dirichlet' else 1
        c['k'] = draw(st.integers(lo, kmax))
    if name in dists.MATRIX:
        c['k'] = draw(st.integers(1, 9 if big else 4))
    if name == 'MatrixVariateNormalCholesky':
        c['k2'] = draw(st.integers(1, 4))
    return c


@st.composite
def given_shape(draw):
    """How the `given` relates to the batch: extra leading dims + sub-shape."""
    return {'lead': draw(st.just([]) | dims(max_rank=2, max_dim=3)),
            'sub': draw(sub()), 'seed': draw(SEED),
            'wide': draw(st.sampled_from([0, 0, 15, 1, 2, 4, 8, 5, 10]))}


def inner_rank(name):
    if name in dists.MATRIX:
        return 2
    return 1 if name in dists.VECTOR + ('Categorical',) else 0


def given_batch(batch, g, name):
    # TensorFlow broadcasts at most five interleaved dimensions
    s = dists.sub_shape(tuple(batch), *g['sub'])
    # axes along which the distribution has size one may be wider
    w = g.get('wide', 0)
    s = tuple(2 if d == 1 and b == 1 and (w >> i) & 1 else d for i, (d, b) in
              enumerate(zip(s, tuple(batch)[len(batch) - len(s):])))
    if len(s) == len(batch):
        room = 5 - inner_rank(name) - len(batch)
        s = tuple(g['lead'][:max(room, 0)]) + s
    return s
