"""C02: samples follow the documented density, independently, in the support.

Every draw is mapped by the reference CDF (randomised for discrete laws,
sequential conditionals for vector laws) to numbers that must be independent
U(0,1); mean, variance, Kolmogorov-Smirnov distance and correlations of those
are tested per batch entry.  A case that looks off at the first stage is
re-drawn with eight times the sample size and judged at > 6.5 sigma.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import special as sp
from scipy import stats

from vp import dists, gen
from vp.core import Info, Sub, Violation, fresh_graph, require, rng_of, session

MULTI = tuple(n for n in dists.MULTI if n != 'UnnormalizedMultinomial')
TAIL = dists.UNI + MULTI
GAMMA_FAMILY = ('Gamma', 'Beta', 'InverseGamma', 'Dirichlet')


def support(inst, x):
    """x: float64 samples [n] + batch + value."""
    n, p, nm = inst.name, inst.p64, inst.name
    require(not np.isnan(x).any(), '%s: NaN sample', nm)
    if n in dists.DISCRETE:
        require(np.all(x == np.floor(x)), '%s: non-integer sample', nm)
    if n == 'FoldNormal':
        require((x >= 0).all(), 'FoldNormal: negative sample %r',
                float(x.min()))
    elif n == 'Uniform':
        require((x >= p['minval']).all() and (x <= p['maxval']).all(),
                'Uniform: sample outside [minval, maxval]')
    elif n in ('Gamma', 'InverseGamma', 'Poisson'):
        require((x >= 0).all(), '%s: negative sample', nm)
    elif n in ('Beta', 'BinConcrete', 'Bernoulli', 'Concrete', 'Dirichlet',
               'OnehotCategorical'):
        require((x >= 0).all() and (x <= 1).all(), '%s: outside [0,1]', nm)
    elif n == 'Binomial':
        require((x >= 0).all() and (x <= inst.kwargs['n_experiments']).all(),
                'Binomial: outside 0..n')
    elif n == 'Categorical':
        require((x >= 0).all() and (x < inst.case['k']).all(),
                'Categorical: outside 0..k-1')
    elif n == 'Multinomial':
        require((x >= 0).all(), 'Multinomial: negative count')
    tot = {'OnehotCategorical': 1., 'Dirichlet': 1., 'Concrete': 1.,
           'Multinomial': inst.kwargs.get('n_experiments')}.get(n)
    if n == 'ExpConcrete':
        require((x <= 1e-6 if inst.dtype != 'float16' else x <= 2e-2).all(),
                'ExpConcrete: positive log-probability')
        x, tot = np.exp(x), 1.
    if tot is not None and x.size:
        tol = 0. if n in ('OnehotCategorical', 'Multinomial') else \
            40 * dists.eps_of(inst.dtype) * x.shape[-1]
        require((np.abs(x.sum(-1) - tot) <= tol).all(),
                '%s: sample entries do not sum to %r', nm, tot)


def pit(inst, x, v):
    """Reference transform to independent U(0,1); v: uniform noise like x."""
    n, p = inst.name, inst.p64
    with np.errstate(all='ignore'):
        if n in ('Normal', 'FoldNormal'):
            s = p['std'] if 'std' in p else np.exp(p['logstd'])
            if n == 'Normal':
                return sp.ndtr((x - p['mean']) / s)
            return sp.ndtr((x - p['mean']) / s) - sp.ndtr(
                (-x - p['mean']) / s)
        if n == 'Uniform':
            return (x - p['minval']) / (p['maxval'] - p['minval'])
        if n == 'Gamma':
            return sp.gammainc(p['alpha'], x * p['beta'])
        if n == 'InverseGamma':
            return sp.gammaincc(p['alpha'], p['beta'] / x)
        if n == 'Beta':
            return sp.betainc(p['alpha'], p['beta'], x)
        if n == 'Laplace':
            z = (x - p['loc']) / p['scale']
            return np.where(z < 0, .5 * np.exp(z), 1 - .5 * np.exp(-z))
        if n == 'BinConcrete':
            t, lg = p['temperature'], p['logits']
            e = dists.eps_of(inst.dtype)
            u = sp.expit(t * (np.log(x) - np.log1p(-x)) - lg)
            top = sp.expit(t * (-np.log(e)) - lg)
            return np.where(x >= 1 - e, top + v * (1 - top), u)
        if n == 'Bernoulli':
            q = sp.expit(-p['logits'])
            return np.where(x > .5, q + v * (1 - q), v * q)
        if n == 'Poisson':
            a, b = stats.poisson.cdf(x - 1, p['rate']), stats.poisson.cdf(
                x, p['rate'])
            return a + v * (b - a)
        if n == 'Binomial':
            q = sp.expit(p['logits'])
            m = inst.kwargs['n_experiments']
            a, b = stats.binom.cdf(x - 1, m, q), stats.binom.cdf(x, m, q)
            return a + v * (b - a)
        if n in ('Categorical', 'OnehotCategorical'):
            pr = sp.softmax(p['logits'], axis=-1)
            cdf = np.cumsum(pr, -1)
            cdf = np.concatenate([np.zeros(cdf.shape[:-1] + (1,)), cdf], -1)
            idx = (x if n == 'Categorical' else np.argmax(x, -1)).astype(int)
            v = v if n == 'Categorical' else v[..., 0]
            cdf = np.broadcast_to(cdf, idx.shape + cdf.shape[-1:])
            a = np.take_along_axis(cdf, idx[..., None], -1)[..., 0]
            b = np.take_along_axis(cdf, idx[..., None] + 1, -1)[..., 0]
            return a + v * (b - a)
        if n == 'Multinomial':
            pr = sp.softmax(p['logits'], axis=-1)
            k = pr.shape[-1]
            rem = np.full(x.shape[:-1], float(inst.kwargs['n_experiments']))
            out = []
            for i in range(k - 1):
                q = pr[..., i] / pr[..., i:].sum(-1)
                q = np.clip(q * np.ones_like(rem), 0, 1)
                a = stats.binom.cdf(x[..., i] - 1, rem, q)
                b = stats.binom.cdf(x[..., i], rem, q)
                out.append(a + v[..., i] * (b - a))
                rem = rem - x[..., i]
            return np.stack(out, -1) if out else np.zeros(x.shape[:-1] + (0,))
        if n == 'Dirichlet':
            return _stick(x, p['alpha'])
        if n in ('Concrete', 'ExpConcrete'):
            # entries that underflow to zero are the far tail either way
            lx = x if n != 'Concrete' else np.log(np.maximum(
                x, 1e-38 if inst.dtype == 'float32' else 1e-300))
            w = p['logits'] - p['temperature'] * lx
            w = w - w.max(-1, keepdims=True)
            return _stick(np.exp(w), np.ones_like(p['logits']))
        if n == 'MultivariateNormalCholesky':
            z = dists._solve_tril(p['cov_tril'], (x - p['mean'])[..., None])
            return sp.ndtr(z[..., 0])
        if n == 'MatrixVariateNormalCholesky':
            z = dists._solve_tril(p['u_tril'], x - p['mean'])
            z = dists._solve_tril(p['v_tril'], np.swapaxes(z, -1, -2))
            return sp.ndtr(z)
    raise KeyError(n)


def _stick(x, a):
    k = x.shape[-1]
    out = []
    for i in range(k - 1):
        f = x[..., i] / x[..., i:].sum(-1)
        out.append(sp.betainc(a[..., i], a[..., i + 1:].sum(-1), f))
    return np.stack(out, -1) if out else np.zeros(x.shape[:-1] + (0,))


def scores(u):
    e = 1e-12
    return sp.ndtri(np.clip(u, e, 1 - e))


def statistics(u, slack):
    """u: [n, m] supposed iid U(0,1).  Returns list of (name, |z|)."""
    n, m = u.shape
    z = scores(u)
    out = []
    # a tiny allowance for the finite resolution of the sample dtype
    for j in range(m):
        zj, uj = z[:, j], u[:, j]
        out.append(('mean[%d]' % j, max(0., abs(uj.mean() - .5) - slack) *
                    np.sqrt(12 * n)))
        out.append(('var[%d]' % j, max(0., abs(np.mean(
            (uj - .5) ** 2) - 1 / 12.) - slack / 2) * np.sqrt(180 * n)))
        d = stats.kstest(uj, 'uniform').statistic
        d = max(0., d - slack)
        out.append(('ks[%d]' % j, _ks_z(d, n)))
        lag = np.mean((uj[1:] - .5) * (uj[:-1] - .5)) * 12 * np.sqrt(n - 1)
        out.append(('lag1[%d]' % j, abs(lag)))
        half = n // 2
        lag = np.mean((uj[half:2 * half] - .5) * (uj[:half] - .5)) * 12 * \
            np.sqrt(half)
        out.append(('lag n/2[%d]' % j, abs(lag)))
    if m > 1:
        c = ((u - .5).T @ (u - .5)) / n * 12 * np.sqrt(n)
        np.fill_diagonal(c, 0)
        i = np.unravel_index(np.argmax(np.abs(c)), c.shape)
        out.append(('corr%s' % (tuple(int(q) for q in i),),
                    float(np.abs(c[i]))))
        # second-order dependence (same magnitude, flipped sign ...)
        w = (u - .5) ** 2 - 1 / 12.
        c = (w.T @ w) / n * 180 * np.sqrt(n)
        np.fill_diagonal(c, 0)
        i = np.unravel_index(np.argmax(np.abs(c)), c.shape)
        out.append(('corr2%s' % (tuple(int(q) for q in i),),
                    float(np.abs(c[i]))))
    return out


def _ks_z(d, n):
    """z-equivalent of the KS distance (two-sided tail bound)."""
    logp = np.log(2.) - 2. * n * d * d
    if logp >= np.log(.5):
        return 0.
    return float(-sp.ndtri_exp(logp - np.log(2.)))


def draw_samples(inst, case, n, seed, reps=1):
    import tensorflow as tf
    import zhusuan.distributions as zd
    feed = {}
    with fresh_graph(seed) as g, session(g) as sess:
        def conv(name, a):
            if case.get('dyn'):
                if case['dyn'] == 'rank':
                    ph = tf.placeholder(a.dtype, [None] * a.ndim)
                else:
                    ph = tf.placeholder(a.dtype, None)
                feed[ph] = a
                return ph
            return tf.constant(a)
        extra = {}
        if inst.name in dists.REPARAM:
            extra['is_reparameterized'] = bool(case.get('rep', True))
        if inst.name in ('Binomial', 'Multinomial') and case.get('nexp_t'):
            extra['n_experiments'] = tf.constant(
                inst.kwargs['n_experiments'], tf.int32)
        d = inst.build(zd, conv, **extra)
        mode = case['ns']
        if mode == 'tensor':
            ns = tf.placeholder(tf.int32, None if case.get('dyn') else [])
            feed[ns] = n
        elif mode == 'const':
            ns = tf.constant(n, tf.int32)
        else:
            ns = n
        s = d.sample(None) if mode == 'none' else d.sample(ns)
        if case.get('two'):
            # a second call on the same or on an equal distribution must be
            # another, independent batch of draws
            d2 = d if case['two'] == 'same' else inst.build(zd, conv, **extra)
            s2 = d2.sample(None) if mode == 'none' else d2.sample(ns)
        else:
            s2 = tf.constant(0.)
        runs = reps if mode != 'none' else n
        xs = [sess.run([s, s2], feed) for _ in range(runs)]
    if mode == 'none':
        xs = [[np.stack([x[0] for x in xs]), np.stack([x[1] for x in xs])]]
    return [[np.asarray(y).astype(np.float64) for y in x] for x in xs]


def check(case):
    inst = dists.Inst(case)
    n1 = case.get('n', 6000)
    if case['ns'] == 'none':
        n1 = 150
    shape = inst.batch + inst.value_shape
    slack = {'float16': 6e-3, 'float32': 1e-5, 'float64': 1e-9}[inst.dtype]
    if inst.name in ('Beta', 'BinConcrete'):
        slack = max(slack, 2e-3)

    def evaluate(n, seed, thr):
        xs = draw_samples(inst, case, n, seed, reps=2 if n < 10000 else 1)
        bad = []
        for pair in xs:
            us = []
            for k, x in enumerate(pair[:2 if case.get('two') else 1]):
                require(x.shape == (n,) + shape, '%s: sample shape %s, '
                        'expected %s', inst.name, x.shape, (n,) + shape)
                support(inst, x)
                v = rng_of('pit', case['seed'], k).uniform(size=x.shape)
                u = pit(inst, x, v)
                require(not np.isnan(u).any(), '%s: sample outside the '
                        'support', inst.name)
                us.append(u.reshape(n, -1))
            if us[0].size == 0:
                continue
            st_ = statistics(np.concatenate(us, 1), slack)
            bad += [(a, b) for a, b in st_ if b > thr]
        varied = inst.name not in dists.DISCRETE and xs[0][0].size and \
            inst.value_shape != (1,)
        if len(xs) == 2 and varied:
            require(not np.array_equal(xs[0][0], xs[1][0]),
                    '%s: two evaluations gave identical samples', inst.name)
        if case.get('two') and varied:
            require(not np.array_equal(xs[0][0], xs[0][1]),
                    '%s: two sample() calls gave identical samples',
                    inst.name)
        return bad

    bad = evaluate(n1, case['seed'] % 100000 + 1, 4.3)
    if bad:
        n2 = n1 * 8 if case['ns'] != 'none' else 1200
        again = evaluate(n2, case['seed'] % 100000 + 700001, 6.5)
        names = {a for a, _ in bad}
        again = [(a, b) for a, b in again if b > 7.5 or a in names]
        if again:
            raise Violation('%s: samples do not follow the documented law: %s'
                            % (inst.name, sorted(again, key=lambda q: -q[1])
                               [:4]))
    labels = [inst.name, inst.dtype, 'n_samples ' + case['ns'],
              'dynamic' if case.get('dyn') else 'static']
    if case.get('two'):
        labels.append('two calls')
    return Info(len(shape) > 0 or True, labels)


@st.composite
def strategy(draw, names):
    c = draw(gen.dist_case(names=names, max_size=6, max_rank=3, kmax=4,
                           none_n_exp=False, regimes=('mid',)))
    if c['dist'] in GAMMA_FAMILY + ('Concrete',) and c['dtype'] == 'float16':
        c['dtype'] = 'float32'
    if c.get('vdtype') == 'float16' and c['dist'] in ('Binomial', 'Poisson',
                                                      'Multinomial'):
        c['vdtype'] = 'float32'
    if c['dist'] in ('Normal', 'Laplace', 'Uniform', 'Bernoulli',
                     'Categorical', 'OnehotCategorical', 'Binomial',
                     'Poisson', 'FoldNormal') and c['dtype'] != 'float16':
        c['regime'] = draw(st.sampled_from(['mid', 'mid', 'tiny', 'wide']))
    if c['dist'] in ('Normal', 'Laplace', 'Uniform') and \
            c['regime'] != 'mid':
        c['dtype'] = 'float64'
    if 'n_exp' in c and not (c['batch'] == [] and draw(st.booleans())):
        c['n_exp'] = min(c['n_exp'], 12)
    c['two'] = draw(st.sampled_from([None, 'same', 'equal']))
    c['ns'] = draw(st.sampled_from(['int', 'int', 'tensor', 'const', 'none']))
    c['dyn'] = draw(st.sampled_from([None, None, 'rank', 'full']))
    c['rep'] = draw(st.booleans())
    c['nexp_t'] = draw(st.booleans())
    return c


def tail_check(case):
    """Far tails, resolution, mean and variance of one law, 300000 draws."""
    inst = dists.Inst(case)
    N = 300000
    cont = inst.name not in dists.DISCRETE

    def evaluate(seed, lp, thr):
        x = draw_samples(inst, case, N, seed)[0][0]
        support(inst, x)
        v = rng_of('pit', case['seed']).uniform(size=x.shape)
        u = pit(inst, x, v)
        require(not np.isnan(u).any(), '%s: sample outside the support',
                inst.name)
        bad = []
        for j, uj in enumerate(u.reshape(N, -1).T):
            for t in (1e-4, 1e-3, 1e-2):
                for side, k in (('lower', np.sum(uj < t)),
                                ('upper', np.sum(uj > 1 - t))):
                    e = 0.03 * t
                    if stats.binom.logcdf(k, N, t - e) < lp or \
                            stats.binom.logsf(k - 1, N, t + e) < lp:
                        bad.append((side, t, j, int(k), N * t))
            for nm, d, f in (
                    ('mean', uj.mean() - .5, 12),
                    ('variance', np.mean((uj - .5) ** 2) - 1 / 12., 180)):
                z = max(0., abs(d) - 3e-5) * np.sqrt(f * N)
                if z > thr:
                    bad.append((nm, np.sign(d), j, float(d), float(z)))
        if cont and inst.dtype == 'float64' and \
                0 not in x[0].shape and \
                inst.value_shape != (1,):
            m = len(np.unique(x))
            if m < .99 * N:
                bad.append(('different values', m, N, 0))
        return bad
    bad = evaluate(case['seed'] % 100000 + 1, np.log(1e-5), 4.3)
    if bad:
        again = evaluate(case['seed'] % 100000 + 700001, np.log(1e-9), 4.3)
        names = {b[:3] for b in bad}
        again = [b for b in again if b[0] not in ('mean', 'variance') or
                 b[:3] in names]
        if again:
            raise Violation('%s: tail of the samples does not follow the '
                            'documented law: %s' % (inst.name, again))
    return Info(True, [inst.name, inst.dtype])


@st.composite
def tail_strategy(draw):
    c = draw(gen.dist_case(names=TAIL, max_size=1, max_rank=1, kmax=4,
                           dtypes=('float32', 'float64'),
                           vdtypes=('int32', 'int64', 'float32', 'float64'),
                           none_n_exp=False, regimes=('mid',)))
    if c['dist'] in ('Beta', 'BinConcrete', 'InverseGamma', 'Gamma',
                     'Dirichlet', 'Concrete', 'ExpConcrete'):
        c['dtype'] = 'float64'
    c['ns'] = draw(st.sampled_from(['int', 'tensor', 'const']))
    c['dyn'] = draw(st.sampled_from([None, 'rank', 'full']))
    c['rep'] = draw(st.booleans())
    c['nexp_t'] = False
    return c


SUBCHECKS = [
    Sub('tails', tail_strategy, tail_check, strata=TAIL),
    Sub('univariate', lambda: strategy(dists.UNI), check, strata=dists.UNI),
    Sub('multivariate', lambda: strategy(MULTI), check, strata=MULTI),
]
