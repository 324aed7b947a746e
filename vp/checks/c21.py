"""C21: effective_sample_size is Stan's estimator of a chain's effective
sample size, taken after burn-in and minimal over the components."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import Info, Sub, Violation, require, rng_of

# listed in known_findings.json: the lag-zero autocorrelation is summed too
KNOWN = 'known finding lag0'

KINDS = ('iid', 'ar', 'neg', 'walk', 'steps', 'trend', 'periodic', 'int',
         'heavy')


@st.composite
def strategy(draw):
    comp = st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'seed': gen.SEED,
        'loc': st.sampled_from([0., 0., 3., -1000.]),
        'scale': st.sampled_from([1., 1., 1e-3, 50.])})
    return {'n': draw(st.one_of(st.integers(2, 12), st.integers(2, 400))),
            'comps': draw(st.lists(comp, min_size=1, max_size=4)),
            'burn': draw(st.sampled_from([None, 0, 0, 1, 7, 100, 150])),
            'dtype': draw(st.sampled_from(['float64', 'float64',
                                           'float32'])),
            'one': draw(st.booleans())}


def chain(c, n, dtype):
    rng = rng_of('ess', c['seed'])
    e = rng.standard_normal(n)
    k = c['kind']
    if k in ('ar', 'neg'):
        phi = rng.uniform(.1, .97) * (-1 if k == 'neg' else 1)
        x = np.empty(n)
        x[0] = e[0]
        for i in range(1, n):
            x[i] = phi * x[i - 1] + e[i]
    elif k == 'walk':
        x = np.cumsum(e)
    elif k == 'steps':
        x = np.repeat(e, 1 + rng.randint(0, 9))[:n]
    elif k == 'trend':
        x = e * .1 + np.arange(n)
    elif k == 'periodic':
        x = np.sin(np.arange(n) * rng.uniform(.1, 3)) + .1 * e
    elif k == 'int':
        x = rng.randint(0, 3, n).astype(float)
    elif k == 'heavy':
        x = rng.standard_cauchy(n)
    else:
        x = e
    return (x * c['scale'] + c['loc']).astype(dtype)


def candidates(x, first, tol):
    """All values the estimator may take, allowing rho == 0 to round either
    way; `first` is the first lag that is summed."""
    x = np.asarray(x, np.float64)
    n = len(x)
    mu = x.mean()
    d = x - mu
    v0 = np.mean(d * d)
    var = v0 * n / (n - 1)
    out, s = [], 0.
    for t in range(first, n):
        rho = 1 - (var - np.mean(d[:n - t] * d[t:])) / v0
        if rho < -tol:
            break
        if rho <= tol:
            out.append(n / (1 + 2 * s))
        s += max(rho, 0.) if abs(rho) <= tol else rho
    out.append(n / (1 + 2 * s))
    return out


def judge(got, cands, rel, ctx):
    return any(abs(got - c) <= rel * c for c in cands)


def check(case):
    from zhusuan import diagnostics as dg
    burn = 100 if case['burn'] is None else case['burn']
    n = case['n']
    cols = [chain(c, n + burn, case['dtype']) for c in case['comps']]
    kept = [c[burn:] for c in cols]
    if any(np.std(c.astype(np.float64)) < 1e-6 * (1 + abs(float(
            c[0]))) for c in kept):
        return Info(False, ['constant chain'])
    f32 = case['dtype'] == 'float32'
    tol, rel = (1e-3, 2e-2) if f32 else (1e-9, 1e-6)
    if f32 and any(abs(c['loc']) > 10 * c['scale'] for c in case['comps']):
        return Info(False, ['float32 cancellation'])
    if f32:
        # rounding moves the cut-off; only the exact type is judged tightly
        if any(len(candidates(k, 1, tol)) > 1 for k in kept):
            return Info(False, ['float32 near a cut-off'])

    def verdict(got, which):
        """'ok' / 'known' / raises"""
        right = [candidates(kept[i], 1, tol) for i in which]
        lag0 = [candidates(kept[i], 0, tol) for i in which]

        def smallest(cs):
            lo = min(max(c) for c in cs)
            return [v for c in cs for v in c if v <= lo * (1 + 1e-9)]
        fits = set()
        if judge(got, smallest(right), rel, ''):
            fits.add('ok')
        if judge(got, smallest(lag0), rel, ''):
            fits.add(KNOWN)
        if fits:
            return fits
        raise Violation('effective sample size %r, expected %r (n=%d)' % (
            float(got), smallest(right), n))
    seen = {'ok', KNOWN}
    if case['one']:
        for i, k in enumerate(kept):
            seen &= verdict(dg.effective_sample_size_1d(k.copy()), [i])
    arr = np.stack(cols, 1)
    before = arr.copy()
    kw = {} if case['burn'] is None else {'burn_in': burn}
    got = dg.effective_sample_size(arr, **kw)
    require(np.array_equal(arr, before), 'the samples were changed')
    require(np.ndim(got) == 0 or np.size(got) == len(cols),
            'result of shape %s', np.shape(got))
    seen &= verdict(np.min(got), range(len(cols)))
    require(seen, 'the one- and many-dimensional estimators disagree')
    return Info(True, sorted({c['kind'] for c in case['comps']}) +
                ([] if 'ok' in seen else [KNOWN]))


SUBCHECKS = [Sub('chains', strategy, check)]
