"""A family of small latent-variable models with a variational family, written
twice: with zhusuan and in plain numpy (float64)."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy import special as sp

from vp import gen
from vp.core import rng_of

LOG2PI = float(np.log(2 * np.pi))
KINDS = ('normal', 'bernoulli', 'laplace', 'onehot')


@st.composite
def model_case(draw, kinds=KINDS, max_latents=2, layouts=None, dmax=3,
               smin=1, smax=4, nmax=3, dtypes=('float64',)):
    layout = draw(st.sampled_from(layouts or ['S', 'Sn', 'nS', 'SSn', 'n',
                                              'nsamp', 'scalar']))
    return {'latents': [draw(st.sampled_from(kinds)) for _ in range(
                draw(st.integers(1, max_latents)))],
            'layout': layout, 'S': draw(st.integers(smin, smax)),
            'S2': draw(st.integers(1, 3)), 'n': draw(st.integers(1, nmax)),
            'd': draw(st.integers(1, dmax)),
            'dep': draw(st.booleans()),
            'dtype': draw(st.sampled_from(dtypes)),
            'seed': draw(gen.SEED)}


def nlogpdf(x, m, s):
    return -.5 * LOG2PI - np.log(s) - .5 * ((x - m) / s) ** 2


def elem_logp(kind, z, par):
    """log density of z under the kind with parameter array(s), group over
    the last axis."""
    if kind == 'normal':
        return nlogpdf(z, par, .8).sum(-1)
    if kind == 'laplace':
        return (-np.log(2 * .7) - np.abs(z - par) / .7).sum(-1)
    if kind == 'bernoulli':
        return (z * par - np.logaddexp(0, par)).sum(-1)
    return (z * (par - sp.logsumexp(par, -1, keepdims=True))).sum(-1)


class Model(object):
    """Axes: lead = e.g. (S, n); every latent has shape lead + (d,)."""

    def __init__(self, case):
        self.case = case
        self.kinds = case['latents']
        S, S2, n, d = case['S'], case['S2'], case['n'], case['d']
        lay = case['layout']
        if 'onehot' in self.kinds and d < 2:
            d = 2
        self.d = d
        self.lead, self.pshape, self.axis = {
            'S': ((S,), (d,), 0),
            'Sn': ((S, n), (n, d), 0),
            'nsamp': ((S, n), (n, d), 0),
            'nS': ((n, S), (n, 1, d), 1),
            'SSn': ((S, S2, n), (n, d), [0, 1]),
            'scalar': ((), (d,), None),
            'n': ((n,), (n, d), None)}[lay]
        # a first latent shared by samples and / or data points
        self.leads = [self.lead] * len(self.kinds)
        red = case.get('shared', 0)
        if red and len(self.kinds) > 1 and lay != 'nsamp':
            L0 = list(self.lead)
            for j in range(len(L0)):
                if (red >> j) & 1:
                    L0[j] = 1
            while red & 8 and L0 and L0[0] == 1:
                L0.pop(0)
            self.leads[0] = tuple(L0)
        r = self.r = rng_of('vi', case['seed'])
        self.names = ['z%d' % i for i in range(len(self.kinds))]
        L = len(self.kinds)
        self.dtype = case['dtype']
        f = lambda x: np.asarray(x).astype(self.dtype).astype('float64')
        # variational parameters, one array per latent
        self.phi = [f(r.normal(size=self.pshape if self.leads[i] == self.lead
                               else (d,))) for i in range(L)]
        # model parameters: prior parameter per latent, loading per latent
        self.theta = [f(r.normal(size=(d,))) for _ in range(L)] + \
            [f(r.normal(size=(d,))) for _ in range(L)]
        self.x = f(r.normal(size=self.pshape) * case.get('xscale', 1.))
        self.y = f(r.normal(size=self.pshape))
        self.obs_names = ['x', 'y'] if case.get('two_obs') else ['x']
        self.dep = case['dep'] and L > 1
        self.npar = L

    @property
    def api_axis(self):
        """the axis as handed to the library: possibly counted backwards"""
        a = self.axis
        if self.case.get('neg') and a is not None:
            nd = len(self.lead)
            a = [i - nd for i in a] if isinstance(a, list) else a - nd
        return a

    # ---- numpy ----------------------------------------------------------
    def q_param(self, i, z, phi):
        p = phi[i] + np.zeros(self.leads[i] + (self.d,))
        if self.dep and i:
            p = p + np.tanh(z[i - 1])
        return p

    def p_param(self, i, z, theta):
        p = theta[i] + np.zeros(self.leads[i] + (self.d,))
        if self.dep and i:
            p = p + .5 * z[i - 1]
        return p

    def logq(self, z, phi=None):
        phi = self.phi if phi is None else phi
        return sum(elem_logp(k, z[i], self.q_param(i, z, phi))
                   for i, k in enumerate(self.kinds))

    def logp(self, z, theta=None):
        theta = self.theta if theta is None else theta
        L = self.npar
        out = sum(elem_logp(k, z[i], self.p_param(i, z, theta))
                  for i, k in enumerate(self.kinds))
        mean = sum(theta[L + i] * z[i] for i in range(L))
        if self.case.get('two_obs'):
            out = out + nlogpdf(self.y, np.tanh(self.x + mean), .9).sum(-1)
        return out + nlogpdf(self.x, mean, 1.3).sum(-1)

    def pathwise(self, z):
        """phi -> samples with the noise of these samples."""
        noise = [z[i] - self.q_param(i, z, self.phi) for i in
                 range(self.npar)]

        def f(phi):
            out = []
            for i in range(self.npar):
                out.append(self.q_param(i, out, phi) + noise[i])
            return out
        return f

    # ---- zhusuan ---------------------------------------------------------
    def tf_params(self, tf):
        self.t_phi = [tf.constant(p.astype(self.dtype)) for p in self.phi]
        self.t_theta = [tf.constant(p.astype(self.dtype))
                        for p in self.theta]
        self.t_x = tf.constant(self.x.astype(self.dtype))
        self.t_obs = {'x': self.t_x}
        if self.case.get('two_obs'):
            self.t_obs['y'] = tf.constant(self.y.astype(self.dtype))

    def add(self, tf, bn, kind, name, par, reparam, **kw):
        c = lambda v: tf.constant(v, par.dtype)
        if kind == 'normal':
            return bn.normal(name, par, std=c(.8), group_ndims=1,
                             is_reparameterized=reparam, **kw)
        if kind == 'laplace':
            return bn.laplace(name, par, c(.7), group_ndims=1,
                              is_reparameterized=reparam, **kw)
        if kind == 'bernoulli':
            return bn.bernoulli(name, par, group_ndims=1,
                                dtype=par.dtype, **kw)
        return bn.onehot_categorical(name, par, dtype=par.dtype, **kw)

    def variational(self, tf, zs, reparam, extra=False):
        bn = zs.BayesianNet(observed={'seen': np.zeros(
            1, 'float32')} if extra else None)
        z = []
        ns = {'n_samples': self.case['S']} if self.case['layout'] == 'nsamp' \
            else {}
        for i, k in enumerate(self.kinds):
            par = self.t_phi[i]
            kw = {}
            if ns and not (self.dep and i):
                kw = ns
            else:
                par = par + tf.zeros(self.leads[i] + (self.d,), par.dtype)
            if self.dep and i:
                par = par + tf.tanh(z[i - 1])
            dyn = self.case.get('dyn')
            if dyn:     # nothing known statically about the shape
                par = tf.placeholder_with_default(
                    par, None if dyn == 2 else [None] * par.get_shape().ndims)
            z.append(self.add(tf, bn, k, self.names[i], par, reparam, **kw))
            if extra:
                bn.deterministic('det%d' % i, par * 2)
        if extra:
            # observed nodes of the variational net are not latents
            bn.normal('seen', 3., std=1.)
        self.t_z = z
        return bn

    def model_body(self, tf, zs):
        bn = zs.BayesianNet()
        z = []
        mean = 0.
        L = self.npar
        for i, k in enumerate(self.kinds):
            par = self.t_theta[i] + tf.zeros(self.leads[i] + (self.d,),
                                             self.t_theta[i].dtype)
            if self.dep and i:
                par = par + .5 * z[i - 1]
            z.append(self.add(tf, bn, k, self.names[i], par, False))
            mean = mean + self.t_theta[L + i] * z[i]
        x = bn.normal('x', mean, std=tf.constant(1.3, mean.dtype),
                      group_ndims=1)
        if self.case.get('two_obs'):
            t = bn.deterministic('t', tf.tanh(x + mean))
            bn.normal('y', t, std=tf.constant(.9, mean.dtype), group_ndims=1)
        return bn

    def meta(self, tf, zs, how):
        if how == 'meta':
            @zs.meta_bayesian_net()
            def m():
                return self.model_body(tf, zs)
            return m()
        if how == 'meta-custom':
            @zs.meta_bayesian_net()
            def m():
                return self.model_body(tf, zs)
            m = m()
            m.log_joint = lambda bn: sum(bn.cond_log_prob(
                self.names + self.obs_names)) + .625
            return m

        def fn(obs):
            assert sorted(obs) == sorted(self.names + self.obs_names), \
                sorted(obs)

            @zs.meta_bayesian_net()
            def m():
                return self.model_body(tf, zs)
            return m().observe(**obs).log_joint()
        return fn

    # ---- enumeration of discrete latents ---------------------------------
    def configs(self, per_sample=1):
        """All values of the latents of one data point (vector of length d
        for each latent)."""
        opts = []
        for k in self.kinds:
            if k == 'bernoulli':
                opts.append([np.array(b, float) for b in
                             itertools.product((0, 1), repeat=self.d)])
            else:
                opts.append(list(np.eye(self.d)))
        return [list(c) for c in itertools.product(*opts)]


class Kink(Exception):
    """a point where the differentiated function has no derivative"""


def fd(f, arrays, h=1e-5):
    """Central finite differences of scalar f wrt each array; raises Kink when
    the one-sided derivatives differ (|z - location| of a Laplace density at
    the location)."""
    out = []
    mid = float(f(arrays))
    for k, a in enumerate(arrays):
        g = np.zeros(a.shape)
        it = np.nditer(a, flags=['multi_index'])
        for _ in it:
            ix = it.multi_index
            v = []
            for s in (h, -h):
                b = [x.copy() if j == k else x for j, x in
                     enumerate(arrays)]
                b[k][ix] += s
                v.append(f(b))
            up, down = (v[0] - mid) / h, (mid - v[1]) / h
            # curvature can separate them by no more than h f''
            if abs(up - down) > .05 * (1 + abs(up) + abs(down)):
                raise Kink()
            g[ix] = (v[0] - v[1]) / (2 * h)
        out.append(g)
    return out


def lme(x, axis):
    ax = tuple(axis) if isinstance(axis, (list, tuple)) else axis
    n = np.prod([x.shape[a] for a in np.atleast_1d(axis)])
    return sp.logsumexp(x, axis=ax) - np.log(n)


def mean(x, axis):
    if axis is None:
        return x
    return np.mean(x, axis=tuple(axis) if isinstance(axis, (list, tuple))
                   else axis)
