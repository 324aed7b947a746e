"""Reference models of the documented distributions (float64 numpy / scipy).

Nothing here calls zhusuan's formulas: densities are written from the
documentation / textbook definitions, and sampling references are scipy CDFs.
An ``Inst`` is one fully specified distribution: parameter arrays already
rounded to the parameter dtype, plus the float64 reference built from them.
"""
import numpy as np
from scipy import special as sp
from scipy import stats

from vp.core import rng_of

FLOATS = ('float16', 'float32', 'float64')
INTS = ('int16', 'int32', 'int64')

TWO_PARAM = ('Normal', 'FoldNormal', 'Uniform', 'Gamma', 'Beta',
             'InverseGamma', 'Laplace')
ONE_PARAM = ('Bernoulli', 'Poisson', 'Binomial', 'BinConcrete')
VECTOR = ('OnehotCategorical', 'Multinomial', 'UnnormalizedMultinomial',
          'Dirichlet', 'ExpConcrete', 'Concrete')
MATRIX = ('MultivariateNormalCholesky', 'MatrixVariateNormalCholesky')
UNI = TWO_PARAM + ONE_PARAM + ('Categorical',)
MULTI = VECTOR + MATRIX
ALL = UNI + MULTI
DISCRETE = ('Bernoulli', 'Poisson', 'Binomial', 'Categorical',
            'OnehotCategorical', 'Multinomial', 'UnnormalizedMultinomial')
REPARAM = ('Normal', 'FoldNormal', 'Uniform', 'Laplace', 'BinConcrete',
           'ExpConcrete', 'Concrete') + MATRIX
PATH = ('Normal', 'FoldNormal', 'Laplace', 'BinConcrete', 'ExpConcrete',
        'Concrete') + MATRIX
HAS_CHECK_NUMERICS = ('Normal', 'FoldNormal', 'Uniform', 'Gamma', 'Beta',
                      'Poisson', 'Binomial', 'InverseGamma', 'Laplace',
                      'BinConcrete', 'Dirichlet', 'ExpConcrete',
                      'Concrete') + MATRIX
ALIASES = {'Discrete': 'Categorical', 'BinGumbelSoftmax': 'BinConcrete',
           'BagofCategoricals': 'UnnormalizedMultinomial',
           'OnehotDiscrete': 'OnehotCategorical',
           'ExpGumbelSoftmax': 'ExpConcrete', 'GumbelSoftmax': 'Concrete'}

LOG2PI = float(np.log(2 * np.pi))


def tol_factor(dtype):
    return {'float16': 20., 'float32': 100., 'float64': 1000.}[dtype]


def eps_of(dtype):
    return float(np.finfo(dtype).eps)


def softplus(x):
    return np.logaddexp(0., x)


def sub_shape(full, drop, ones):
    """A shape that broadcasts to `full`: drop leading dims, 1 some others."""
    drop = min(drop, len(full))
    s = list(full[drop:])
    for i in range(len(s)):
        if (ones >> i) & 1:
            s[i] = 1
    return tuple(s)


def allowed_dtypes(name):
    # no half-precision triangular-solve kernel in this TensorFlow
    if name == 'Categorical' or name in MATRIX:
        return ('float32', 'float64')
    return FLOATS


def allowed_vdtypes(name):
    if name == 'Categorical':
        return ('float32', 'float64', 'int32', 'int64')
    return INTS + FLOATS


class Inst(object):
    """case keys: dist, dtype, vdtype (discrete), batch, p1/p2 = [drop, ones],
    k (categories / dims), k2, n_exp, seed, regime, std_kind."""

    def __init__(self, case):
        c = self.case = dict(case)
        self.name = c['dist']
        self.dtype = c['dtype']
        self.r = rng_of('param', c['seed'], self.name)
        self.regime = c.get('regime', 'mid')
        self.kwargs = {}
        self.params = {}
        full = tuple(c['batch'])
        getattr(self, '_make_' + self.name)(full)
        for k in list(self.params):
            self.params[k] = np.asarray(self.params[k]).astype(self.dtype)
        self.p64 = {k: v.astype(np.float64) for k, v in self.params.items()}
        self.vdtype = c.get('vdtype') if self.name in DISCRETE else self.dtype
        if self.vdtype is None:
            self.vdtype = 'int32'
        self.batch = self._batch()
        self.value_shape = self._value_shape()

    # ---- parameter generators -------------------------------------------
    def _loc(self, shape):
        m = {'mid': 2., 'wide': 50., 'tiny': .1, 'extreme': 1e4}[self.regime]
        if self.dtype == 'float16':
            m = min(m, 4.)
        return self.r.uniform(-m, m, shape)

    def _logscale(self, shape):
        lo, hi = {'mid': (-1., 1.), 'wide': (-4., 4.),
                  'tiny': (-5., -3.), 'extreme': (-8., 8.)}[self.regime]
        if self.dtype == 'float16':
            lo, hi = max(lo, -1.5), min(hi, 1.5)
            if lo > hi:
                lo, hi = -1.5, -1.
            if self.regime == 'tiny':
                lo, hi = -1.5, -1.
        return self.r.uniform(lo, hi, shape)

    def _shape_param(self, shape):
        lo, hi = {'mid': (-1., 1.5), 'wide': (-3., 5.),
                  'tiny': (-4., -1.), 'extreme': (-6., 7.)}[self.regime]
        if self.case.get('big'):
            lo, hi = -10., 9.
        if self.dtype == 'float16':
            lo, hi = -1., 1.5
        return np.exp(self.r.uniform(lo, hi, shape))

    def _logits(self, shape):
        m = {'mid': 2., 'wide': 40., 'tiny': .1, 'extreme': 300.}[self.regime]
        if self.dtype == 'float16':
            m = min(m, 5.)
        return self.r.uniform(-m, m, shape)

    def _two(self, full):
        p1, p2 = self.case['p1'], self.case['p2']
        return sub_shape(full, *p1), sub_shape(full, *p2)

    def _make_Normal(self, full):
        s1, s2 = self._two(full)
        self.params['mean'] = self._loc(s1)
        ls = self._logscale(s2)
        if self.case.get('std_kind', 'std') == 'std':
            self.params['std'] = np.exp(ls)
        else:
            self.params['logstd'] = ls
    _make_FoldNormal = _make_Normal

    def _make_Uniform(self, full):
        s1, s2 = self._two(full)
        self.params['minval'] = self._loc(s1)
        m = float(np.max(np.asarray(self.params['minval']).astype(
            self.dtype).astype(np.float64))) if np.prod(s1) else 0.
        self.params['maxval'] = m + np.exp(self._logscale(s2)) + 0.05

    def _make_Gamma(self, full):
        s1, s2 = self._two(full)
        self.params['alpha'] = self._shape_param(s1)
        self.params['beta'] = self._shape_param(s2)
    _make_Beta = _make_Gamma
    _make_InverseGamma = _make_Gamma

    def _make_Laplace(self, full):
        s1, s2 = self._two(full)
        self.params['loc'] = self._loc(s1)
        self.params['scale'] = np.exp(self._logscale(s2))

    def _make_Bernoulli(self, full):
        self.params['logits'] = self._logits(full)

    def _make_Poisson(self, full):
        self.params['rate'] = np.exp(self.r.uniform(*{
            'mid': (-1., 2.), 'wide': (-4., 4.),
            'tiny': (-5., -2.), 'extreme': (-9., 6.5)}[self.regime],
            size=full))
        if self.case.get('big'):
            self.params['rate'] = np.exp(self.r.uniform(
                -2., np.log(.4 * self._count_cap()), size=full))

    def _count_cap(self):
        """Largest count that the value and parameter dtypes hold exactly."""
        f16 = 'float16' in (self.dtype, self.case.get('vdtype'))
        return 2000 if f16 else 30000

    def _make_Binomial(self, full):
        self.params['logits'] = self._logits(full)
        self.kwargs['n_experiments'] = int(self.case['n_exp'])

    def _temperature(self):
        lo, hi = {'mid': (-1., 1.), 'wide': (-2., 2.),
                  'tiny': (-2., -1.), 'extreme': (-3., 3.)}[self.regime]
        if self.dtype == 'float16':
            lo, hi = -.7, .7
        return np.exp(self.r.uniform(lo, hi))

    def _make_BinConcrete(self, full):
        self.params['temperature'] = self._temperature()
        self.params['logits'] = self._logits(full)

    def _make_Categorical(self, full):
        self.params['logits'] = self._logits(full + (self.case['k'],))
    _make_OnehotCategorical = _make_Categorical

    def _make_Multinomial(self, full):
        lg = self._logits(full + (self.case['k'],))
        norm = bool(self.case.get('normalize', True))
        if not norm:
            lg = lg - sp.logsumexp(lg, axis=-1, keepdims=True)
        self.params['logits'] = lg
        if self.name == 'Multinomial':
            n = self.case['n_exp']
            self.kwargs['n_experiments'] = None if n is None else int(n)
        if 'normalize' in self.case:
            self.kwargs['normalize_logits'] = norm
        self.norm = norm
    _make_UnnormalizedMultinomial = _make_Multinomial

    def _make_Dirichlet(self, full):
        self.params['alpha'] = self._shape_param(
            full + (max(2, self.case['k']),))

    def _make_ExpConcrete(self, full):
        self.params['temperature'] = self._temperature()
        self.params['logits'] = self._logits(full + (self.case['k'],))
    _make_Concrete = _make_ExpConcrete

    def _tril(self, full, n):
        s = self.r.normal(size=full + (n, n)) * .5
        s = np.tril(s, -1)
        d = np.exp(self._logscale(full + (n,)) * .5)
        return s * np.minimum(d[..., None], 1.) + d[..., None] * np.eye(n)

    def _make_MultivariateNormalCholesky(self, full):
        n = self.case['k']
        self.params['mean'] = self._loc(full + (n,))
        self.params['cov_tril'] = self._tril(full, n)

    def _make_MatrixVariateNormalCholesky(self, full):
        n, m = self.case['k'], self.case['k2']
        self.params['mean'] = self._loc(full + (n, m))
        self.params['u_tril'] = self._tril(full, n)
        self.params['v_tril'] = self._tril(full, m)

    # ---- shapes ----------------------------------------------------------
    def _batch(self):
        p = self.params
        if self.name in TWO_PARAM:
            a, b = list(p.values())
            return np.broadcast(a, b).shape
        if self.name in ONE_PARAM:
            return p[{'Poisson': 'rate'}.get(self.name, 'logits')].shape
        if self.name == 'Dirichlet':
            return p['alpha'].shape[:-1]
        if self.name == 'MultivariateNormalCholesky':
            return p['mean'].shape[:-1]
        if self.name == 'MatrixVariateNormalCholesky':
            return p['mean'].shape[:-2]
        return p['logits'].shape[:-1]

    def _value_shape(self):
        p = self.params
        if self.name in TWO_PARAM + ONE_PARAM + ('Categorical',):
            return ()
        if self.name == 'Dirichlet':
            return p['alpha'].shape[-1:]
        if self.name == 'MultivariateNormalCholesky':
            return p['mean'].shape[-1:]
        if self.name == 'MatrixVariateNormalCholesky':
            return p['mean'].shape[-2:]
        return p['logits'].shape[-1:]

    # ---- given values ----------------------------------------------------
    def given(self, seed, gbatch, outside=False):
        """Values (in the support unless `outside`) for a given batch shape;
        gbatch must broadcast against self.batch."""
        r = rng_of('given', seed, self.name)
        g = self._given(r, tuple(gbatch), outside)
        if self.case.get('far'):
            g = self._far(r, tuple(gbatch), np.asarray(g, np.float64))
        return np.asarray(g).astype(self.vdtype)

    def _rep(self, arr, gb, extra=0):
        """Pick, for each entry of a given of batch gb, a parameter entry that
        it will meet (the first one)."""
        arr = np.asarray(arr, np.float64)
        nb = arr.ndim - extra
        out = np.broadcast_shapes(arr.shape[:nb], gb)
        arr = np.broadcast_to(arr, out + arr.shape[nb:])
        off = len(out) - len(gb)
        idx = tuple([0] * off + [slice(0, 1) if (gb[i] == 1) else slice(None)
                                 for i in range(len(gb))])
        return arr[idx]

    def _given(self, r, gb, outside):
        n, p = self.name, self.p64
        wide = r.choice([1., 1., 6.]) if self.dtype != 'float16' else 1.
        if n in ('Normal', 'FoldNormal', 'Laplace'):
            loc = p['loc'] if n == 'Laplace' else p['mean']
            sc = (p['scale'] if n == 'Laplace' else
                  p['std'] if 'std' in p else np.exp(p['logstd']))
            x = self._rep(loc, gb) + self._rep(sc, gb) * r.normal(
                size=gb) * wide
            if r.uniform() < .2:
                x = self._rep(loc, gb) * np.ones(gb)
            if n == 'FoldNormal':
                x = np.abs(x)
                if r.uniform() < .15:
                    x = np.where(r.uniform(size=gb) < .5, 0., x)
                if outside:
                    x = np.where(r.uniform(size=gb) < .5, -x - 1e-2, x)
            return x
        if n == 'Uniform':
            lo, hi = self._rep(p['minval'], gb), self._rep(p['maxval'], gb)
            u = r.uniform(size=gb)
            x = lo + (hi - lo) * u
            if r.uniform() < .3:
                x = np.where(r.uniform(size=gb) < .5, lo * np.ones(gb), x)
            if r.uniform() < .3:
                x = np.where(r.uniform(size=gb) < .5, hi * np.ones(gb), x)
            if outside:
                x = np.where(r.uniform(size=gb) < .3, lo - .5 - u, x)
                x = np.where(r.uniform(size=gb) < .3, hi + .5 + u, x)
            return x
        if n in ('Gamma', 'InverseGamma'):
            s = 3. if self.regime in ('wide', 'extreme') else 1.
            if self.case.get('big'):
                s = 8.
            if self.dtype == 'float16':
                s = .7
            return np.exp(r.normal(size=gb) * s)
        if n in ('Beta', 'BinConcrete'):
            s = {'mid': 1.5, 'wide': 4., 'tiny': 1., 'extreme': 4.}[self.regime]
            if self.dtype == 'float16':
                s = 1.
            x = sp.expit(np.clip(r.normal(size=gb) * s, -12, 12))
            if self.dtype == 'float32':
                x = np.clip(x, 1e-5, 1 - 1e-5)
            elif self.dtype == 'float16':
                x = np.clip(x, .02, .98)
            return x
        if n == 'Bernoulli':
            return r.randint(0, 2, size=gb)
        if n == 'Poisson':
            cap = .5 * self._count_cap() if self.case.get('big') else 60.
            x = r.poisson(np.minimum(self._rep(p['rate'], gb), cap)
                          * np.ones(gb))
            if self.case.get('big') and r.uniform() < .5:
                x = np.floor(np.exp(r.uniform(
                    0., np.log(self._count_cap()), size=gb)))
            if r.uniform() < .3:
                x = x + r.randint(0, 12, size=gb)
            if outside:
                x = np.where(r.uniform(size=gb) < .4,
                             -1 - r.randint(0, 4, size=gb), x)
            return x
        if n == 'Binomial':
            m = self.kwargs['n_experiments']
            x = r.randint(0, m + 1, size=gb)
            if r.uniform() < .3:
                x = np.where(r.uniform(size=gb) < .5, m, 0)
            if outside:
                x = np.where(r.uniform(size=gb) < .3,
                             m + 1 + r.randint(0, 4, size=gb), x)
                x = np.where(r.uniform(size=gb) < .3,
                             -1 - r.randint(0, 4, size=gb), x)
            return x
        k = self.value_shape[-1] if self.value_shape else self.case['k']
        if n == 'Categorical':
            return r.randint(0, k, size=gb)
        if n == 'OnehotCategorical':
            return np.eye(k)[r.randint(0, k, size=gb)]
        if n in ('Multinomial', 'UnnormalizedMultinomial'):
            m = self.kwargs.get('n_experiments')
            if m is None:
                tot = r.randint(0, 9, size=gb)
                if self.case.get('big'):
                    tot = np.floor(np.exp(r.uniform(
                        0., np.log(self._count_cap()), size=gb)))
            else:
                tot = np.full(gb, m)
            out = np.zeros(gb + (k,))
            for i in np.ndindex(*gb):
                pv = r.dirichlet(np.ones(k) * .7) if k > 1 else np.ones(1)
                out[i] = r.multinomial(int(tot[i]), pv)
            return out
        if n in ('Dirichlet', 'Concrete', 'ExpConcrete'):
            s = {'mid': 1., 'wide': 2.5, 'tiny': 1., 'extreme': 2.5}[self.regime]
            if self.dtype == 'float16':
                s = .6
            z = r.normal(size=gb + (k,)) * s
            lp = z - sp.logsumexp(z, axis=-1, keepdims=True)
            return lp if n == 'ExpConcrete' else np.exp(lp)
        if n == 'MultivariateNormalCholesky':
            m = self._rep(p['mean'], gb, 1)
            L = self._rep(p['cov_tril'], gb, 2)
            return m + np.einsum('...ij,...j->...i', L,
                                 r.normal(size=gb + (k,))) * wide
        if n == 'MatrixVariateNormalCholesky':
            m = self._rep(p['mean'], gb, 2)
            U = self._rep(p['u_tril'], gb, 2)
            V = self._rep(p['v_tril'], gb, 2)
            z = r.normal(size=gb + self.value_shape)
            return m + np.einsum('...ij,...jk,...lk->...il', U, z, V) * wide
        raise KeyError(n)

    def _far(self, r, gb, x):
        """Push about half of the values far into the tails."""
        n, p = self.name, self.p64
        if self.dtype == 'float16':
            return x
        some = r.uniform(size=gb) < .6
        if n in ('Normal', 'FoldNormal', 'Laplace'):
            loc = p['loc'] if n == 'Laplace' else p['mean']
            sc = (p['scale'] if n == 'Laplace' else
                  p['std'] if 'std' in p else np.exp(p['logstd']))
            y = self._rep(loc, gb) + self._rep(sc, gb) * r.choice(
                [-1., 1.], size=gb) * 10. ** r.uniform(1., 6., size=gb)
            return np.where(some, np.abs(y) if n == 'FoldNormal' else y, x)
        if n in ('Gamma', 'InverseGamma'):
            y = np.exp(np.where(r.uniform(size=gb) < .5,
                                r.uniform(-60., -8., size=gb),
                                r.uniform(4., 40., size=gb)))
            return np.where(some, y, x)
        if n in ('Beta', 'BinConcrete'):
            y = np.where(r.uniform(size=gb) < .6,
                         np.exp(r.uniform(-60., -8., size=gb)),
                         1. - 2. ** -r.randint(8, 24, size=gb).astype(float))
            return np.where(some, y, x)
        if n in ('Dirichlet', 'Concrete', 'ExpConcrete'):
            z = r.normal(size=x.shape) * r.choice([8., 20.])
            lp = z - sp.logsumexp(z, axis=-1, keepdims=True)
            lp = np.maximum(lp, -65.)
            return np.where(some[..., None], lp if n == 'ExpConcrete' else
                            np.exp(lp), x)
        if n in ('MultivariateNormalCholesky', 'MatrixVariateNormalCholesky'):
            k = len(self.value_shape)
            m = self._rep(p['mean'], gb, k)
            f = 10. ** r.uniform(1., 4., size=gb)
            return np.where(some[(Ellipsis,) + (None,) * k],
                            m + (x - m) * f[(Ellipsis,) + (None,) * k], x)
        return x

    # ---- densities -------------------------------------------------------
    def logpdf(self, given):
        """(log density, error scale) in float64 at `given` (any dtype)."""
        g = np.asarray(given).astype(np.float64)
        with np.errstate(all='ignore'):
            terms = getattr(self, '_lp_' + self.name)(g)
        terms = [np.asarray(t, np.float64) for t in terms]
        lp = 0.
        sc = 1.
        for t in terms:
            lp = lp + t
            with np.errstate(invalid='ignore'):
                sc = sc + np.where(np.isfinite(t), np.abs(t), 0.)
        return lp, sc * np.ones_like(lp)

    def _norm(self, g):
        p = self.p64
        ls = np.log(p['std']) if 'std' in p else p['logstd']
        z = (g - p['mean']) * np.exp(-ls)
        q = .5 * z * z
        # conditioning of exp(-2 logstd): pad the error scale, not the value
        pad = q * np.abs(ls) * 2
        return ls, q, pad

    def _lp_Normal(self, g):
        ls, q, pad = self._norm(g)
        return [-.5 * LOG2PI, -ls, -q, pad, -pad]

    def _lp_FoldNormal(self, g):
        p = self.p64
        ls, q, pad = self._norm(g)
        cross = -2. * p['mean'] * g * np.exp(-2 * ls)
        padc = np.abs(cross) * (1 + 2 * np.abs(ls))
        out = [-.5 * LOG2PI, -ls, -q, pad, -pad, softplus(cross), padc, -padc]
        out.append(np.where(g >= 0, 0., -np.inf))
        return out

    def _lp_Uniform(self, g):
        p = self.p64
        w = p['maxval'] - p['minval']
        cond = np.log(w) * 0 + (np.abs(p['maxval']) + np.abs(
            p['minval'])) / w
        inside = (g >= p['minval']) & (g < p['maxval'])
        return [-np.log(w), cond, -cond, np.where(inside, 0., -np.inf)]

    def _lp_Gamma(self, g):
        a, b = self.p64['alpha'], self.p64['beta']
        return [a * np.log(b), -sp.gammaln(a), (a - 1) * np.log(g), -b * g,
                np.log(g), -np.log(g)]

    def _lp_Beta(self, g):
        a, b = self.p64['alpha'], self.p64['beta']
        return [(a - 1) * np.log(g), (b - 1) * np.log1p(-g), -sp.gammaln(a),
                -sp.gammaln(b), sp.gammaln(a + b),
                np.log(g), -np.log(g), np.log1p(-g), -np.log1p(-g)]

    def _lp_InverseGamma(self, g):
        a, b = self.p64['alpha'], self.p64['beta']
        return [a * np.log(b), -sp.gammaln(a), -(a + 1) * np.log(g), -b / g]

    def _lp_Laplace(self, g):
        loc, s = self.p64['loc'], self.p64['scale']
        return [-np.log(2.), -np.log(s), -np.abs(g - loc) / s]

    def _lp_Bernoulli(self, g):
        lg = self.p64['logits']
        return [np.where(g == 1, -softplus(-lg), -softplus(lg)),
                np.abs(lg), -np.abs(lg)]

    def _lp_Poisson(self, g):
        rt = self.p64['rate']
        ok = g >= 0
        gg = np.where(ok, g, 0.)
        return [gg * np.log(rt), -rt, -sp.gammaln(gg + 1),
                np.where(ok, 0., -np.inf)]

    def _lp_Binomial(self, g):
        lg, n = self.p64['logits'], float(self.kwargs['n_experiments'])
        ok = (g >= 0) & (g <= n)
        gg = np.where(ok, g, 0.)
        return [sp.gammaln(n + 1), -sp.gammaln(gg + 1),
                -sp.gammaln(n - gg + 1), gg * lg, -n * softplus(lg),
                np.where(ok, 0., -np.inf)]

    def _lp_BinConcrete(self, g):
        t, lg = self.p64['temperature'], self.p64['logits']
        u = t * (np.log(g) - np.log1p(-g)) - lg
        pad = t * (np.abs(np.log(g)) + np.abs(np.log1p(-g))) + np.abs(lg)
        return [np.log(t), -np.log(g), -np.log1p(-g), u, -2 * softplus(u),
                3 * pad, -3 * pad]

    def _logp_cat(self, norm=True):
        lg = self.p64['logits']
        return lg - sp.logsumexp(lg, axis=-1, keepdims=True) if norm else lg

    def _lp_Categorical(self, g):
        lp = self._logp_cat()
        gi = g.astype(np.int64)
        shape = np.broadcast_shapes(gi.shape, lp.shape[:-1])
        gi = np.broadcast_to(gi, shape)
        lp = np.broadcast_to(lp, shape + lp.shape[-1:])
        pad = np.max(np.abs(self.p64['logits']), -1) * np.ones(shape)
        return [np.take_along_axis(lp, gi[..., None], -1)[..., 0], pad, -pad]

    def _lp_OnehotCategorical(self, g):
        lp = self._logp_cat()
        pad = np.max(np.abs(self.p64['logits']), -1)
        return [np.sum(np.where(g > 0, g * lp, 0.), -1), pad, -pad]

    def _lp_UnnormalizedMultinomial(self, g):
        lp = self._logp_cat(self.norm)
        pad = np.sum(g * np.max(np.abs(self.p64['logits']), -1,
                                keepdims=True), -1)
        return [np.sum(g * lp, -1), pad, -pad,
                np.sum(np.abs(g * lp), -1), -np.sum(np.abs(g * lp), -1)]

    def _lp_Multinomial(self, g):
        n = np.sum(g, -1)
        sg = sp.gammaln(g + 1)
        return self._lp_UnnormalizedMultinomial(g) + [
            sp.gammaln(n + 1), -np.sum(sg, -1)]

    def _lp_Dirichlet(self, g):
        a = self.p64['alpha']
        lg = np.log(g)
        t = np.sum(np.abs(lg) + np.abs(sp.gammaln(a)), -1)
        u = np.sum(np.abs((a - 1) * lg), -1)
        return [sp.gammaln(np.sum(a, -1)), -np.sum(sp.gammaln(a), -1),
                np.sum((a - 1) * lg, -1), t, -t, u, -u]

    def _conc(self, lg_given, jac):
        t, lg = self.p64['temperature'], self.p64['logits']
        n = lg.shape[-1]
        u = lg - t * lg_given
        pad = np.sum(np.abs(lg) + (t + 1) * np.abs(lg_given), -1)
        pad2 = n * np.max(np.abs(lg) + t * np.abs(lg_given), -1)
        out = [sp.gammaln(float(n)), (n - 1) * np.log(t), np.sum(u, -1),
               -n * sp.logsumexp(u, axis=-1), pad, -pad, pad2, -pad2]
        if jac:
            out.append(-np.sum(lg_given, -1))
        return out

    def _lp_ExpConcrete(self, g):
        return self._conc(g, False)

    def _lp_Concrete(self, g):
        return self._conc(np.log(g), True)

    def _lp_MultivariateNormalCholesky(self, g):
        m, L = self.p64['mean'], self.p64['cov_tril']
        d = g - m
        z = _solve_tril(L, d[..., None])[..., 0]
        ld = np.sum(np.log(np.diagonal(L, axis1=-2, axis2=-1)), -1)
        q = .5 * np.sum(z * z, -1)
        cond = _cond(L)
        return [-.5 * m.shape[-1] * LOG2PI, -ld, -q, q * cond, -q * cond]

    def _lp_MatrixVariateNormalCholesky(self, g):
        m, U, V = (self.p64[k] for k in ('mean', 'u_tril', 'v_tril'))
        n, k = m.shape[-2:]
        d = g - m
        z = _solve_tril(U, d)
        z = _solve_tril(V, np.swapaxes(z, -1, -2))
        ldu = np.sum(np.log(np.diagonal(U, axis1=-2, axis2=-1)), -1)
        ldv = np.sum(np.log(np.diagonal(V, axis1=-2, axis2=-1)), -1)
        q = .5 * np.sum(z * z, (-1, -2))
        cond = _cond(U) + _cond(V)
        return [-.5 * n * k * LOG2PI, -k * ldu, -n * ldv, -q, q * cond,
                -q * cond]

    def tol(self, scale):
        return tol_factor(self.dtype) * eps_of(self.dtype) * scale

    # ---- building the real distribution ---------------------------------
    def build(self, zs_dist, conv=None, **extra):
        """zs_dist: module or object with the constructors; conv maps
        (name, array) to what is passed to the constructor."""
        import tensorflow as tf
        conv = conv or (lambda name, a: tf.constant(a))
        kw = {k: conv(k, v) for k, v in self.params.items()}
        for k, v in self.kwargs.items():
            kw[k] = v
        if self.name in DISCRETE and self.case.get('vdtype') is not None:
            kw['dtype'] = getattr(tf, self.case['vdtype'])
        kw.update(extra)
        cls = getattr(zs_dist, self.case.get('alias') or self.name)
        return cls(**kw)


def _solve_tril(L, b):
    shape = np.broadcast_shapes(L.shape[:-2], b.shape[:-2])
    L = np.broadcast_to(L, shape + L.shape[-2:])
    b = np.broadcast_to(b, shape + b.shape[-2:])
    return np.linalg.solve(L, b) if b.size else b


def _cond(L):
    if L.size == 0:
        return np.ones(L.shape[:-2])
    return np.linalg.cond(L)


def raw(name, dtype='float32', kwargs=None, norm=True, **params):
    """An Inst for explicitly given parameter arrays."""
    o = Inst.__new__(Inst)
    o.name, o.dtype = name, dtype
    o.kwargs = dict(kwargs or {})
    o.norm = norm
    o.params = {k: np.asarray(v) for k, v in params.items()}
    o.p64 = {k: np.asarray(v, np.float64) for k, v in params.items()}
    o.case = {}
    if name == 'Categorical':
        o.case['k'] = o.params['logits'].shape[-1]
    o.batch = o._batch()
    o.value_shape = o._value_shape()
    return o
