"""Target densities (TensorFlow and numpy side by side) for the Markov chain
checks, and the numpy model of a Hamiltonian transition."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import rng_of

KINDS = ('gauss', 'student', 'logistic', 'quartic', 'positive', 'box',
         'pole')
LOG2PI = np.log(2 * np.pi)


@st.composite
def target_case(draw, max_chain=12, min_chain=1, kinds=KINDS, max_latents=3,
                metas=True, max_data=6):
    chain = draw(gen.dims(max_rank=3, max_size=max_chain))
    if int(np.prod(chain)) < min_chain:
        chain = chain[:-1] + [max(min_chain, chain[-1] if chain else 1)]
    meta = metas and draw(st.sampled_from([False, False, True]))
    lat = st.fixed_dictionaries({
        'data': gen.dims(max_rank=4, max_size=max_data),
        'kind': st.just('gauss') if meta else st.sampled_from(kinds)})
    return {'chain': chain, 'meta': meta,
            'lat': draw(st.lists(lat, min_size=1, max_size=max_latents)),
            'couple': draw(st.sampled_from([0., .5, 1.5])),
            # operations on the way from one latent to the coupling term:
            # lets gradients of different latents be ready at different times
            'delay': draw(st.lists(st.sampled_from([0, 0, 3, 25]),
                                   min_size=max_latents,
                                   max_size=max_latents)),
            'bil': 0. if meta else draw(st.sampled_from([0., .1, -.2])),
            'seed': draw(gen.SEED)}


class Target(object):
    """log p(z, y) = sum_k sum_data phi_k(z_k) + log N(y; c T, 1),
    T = sum_k tanh(S_k), S_k = sum_data z_k; functions (not nets) may add the
    bilinear term b sum_{k<l} S_k S_l."""

    def __init__(self, case):
        self.case = case
        rng = rng_of('target', case['seed'])
        self.chain = tuple(case['chain'])
        # in no particular (say alphabetical) order
        pool = ['z', 'a', 'w_1', 'B', 'theta', 'k']
        self.names = [pool[i] for i in rng_of('names', case['seed'])
                      .permutation(len(pool))[:len(case['lat'])]]
        self.c = case['couple']
        self.b = case.get('bil', 0.)
        self.y = (rng.standard_normal(self.chain) * 1.).astype('float32')
        self.data, self.kind, self.par, self.init = [], [], [], []
        for l in case['lat']:
            d = tuple(l['data'])
            self.data.append(d)
            self.kind.append(l['kind'])
            m = rng.uniform(-1, 1, d).astype('float32')
            s = rng.uniform(.6, 1.6, d).astype('float32')
            self.par.append((m, s))
            z = rng.standard_normal(self.chain + d)
            if l['kind'] == 'positive':
                z = np.exp(.5 * z)
            if l['kind'] in ('box', 'pole'):
                z = np.tanh(z) * 1.5
            self.init.append(z.astype('float32'))

    # ---- TensorFlow
    def slow(self, tf, z, k):
        for _ in range(self.case.get('delay', [0, 0, 0])[k]):
            z = tf.identity(z) * 1.
        return z

    def log_joint(self, tf):
        def f(obs):
            parts, tot, sums = [], [], []
            for k, nm in enumerate(self.names):
                z = obs[nm]
                m, s = self.par[k]
                u = (z - m) / s
                kd = self.kind[k]
                if kd == 'gauss':
                    e = -.5 * u * u - np.log(s) - np.float32(.5 * LOG2PI)
                elif kd == 'student':
                    e = -2. * tf.log(1. + u * u / 3.)
                elif kd == 'logistic':
                    e = -u - 2. * tf.nn.softplus(-u)
                elif kd == 'quartic':
                    e = .5 * u * u - .25 * u * u * u * u
                elif kd == 'positive':
                    e = 1.5 * tf.log(z) - z / s
                else:
                    # bounded support; for the pole the density is infinite
                    # outside and must never be entered
                    e = tf.where(tf.abs(z) < 2., -.5 * u * u,
                                 (np.inf if kd == 'pole' else -np.inf) *
                                 tf.ones_like(z))
                ax = list(range(len(self.chain),
                                len(self.chain) + len(self.data[k])))
                parts.append(tf.reduce_sum(e, ax))
                tot.append(tf.tanh(tf.reduce_sum(self.slow(tf, z, k), ax)))
                sums.append(tf.reduce_sum(z, ax))
            lp = tf.add_n(parts)
            if self.b:
                for k in range(len(sums)):
                    for l in range(k):
                        lp += self.b * sums[k] * sums[l]
            r = obs['y'] - self.c * tf.add_n(tot)
            return lp - .5 * r * r - np.float32(.5 * LOG2PI)
        return f

    def meta_net(self, tf, zs):
        @zs.meta_bayesian_net(scope='target')
        def model():
            bn = zs.BayesianNet()
            tot = []
            for k, nm in enumerate(self.names):
                m, s = self.par[k]
                mean = np.broadcast_to(m, self.chain + self.data[k])
                z = bn.normal(nm, np.array(mean), std=s,
                              group_ndims=len(self.data[k]))
                ax = list(range(len(self.chain),
                                len(self.chain) + len(self.data[k])))
                tot.append(tf.tanh(tf.reduce_sum(
                    self.slow(tf, z.tensor, k), ax)))
            bn.normal('y', self.c * tf.add_n(tot), std=1.)
            return bn
        return model()

    def model(self, tf, zs):
        return self.meta_net(tf, zs) if self.case['meta'] else \
            self.log_joint(tf)

    # ---- numpy
    def axes(self, k):
        return tuple(range(len(self.chain),
                           len(self.chain) + len(self.data[k])))

    def expand(self, v, k):
        return v.reshape(v.shape + (1,) * len(self.data[k]))

    def logp(self, zs, dtype=np.float64):
        with np.errstate(all='ignore'):
            out = np.zeros(self.chain, dtype)
            T = np.zeros(self.chain, dtype)
            S = []
            for k, z in enumerate(zs):
                z = z.astype(dtype)
                m, s = [a.astype(dtype) for a in self.par[k]]
                u = (z - m) / s
                kd = self.kind[k]
                if kd == 'gauss':
                    e = -.5 * u * u - np.log(s) - dtype(.5 * LOG2PI)
                elif kd == 'student':
                    e = -2 * np.log1p(u * u / 3)
                elif kd == 'logistic':
                    e = -u - 2 * np.logaddexp(0, -u)
                elif kd == 'quartic':
                    e = .5 * u * u - .25 * u ** 4
                elif kd == 'positive':
                    e = dtype(1.5) * np.log(z) - z / s
                else:
                    e = np.where(np.abs(z) < 2, -.5 * u * u,
                                 np.inf if kd == 'pole' else -np.inf)
                out = out + e.sum(self.axes(k), dtype=dtype)
                S.append(z.sum(self.axes(k), dtype=dtype))
                T = T + np.tanh(S[-1])
            for k in range(len(S)):
                for l in range(k):
                    out = out + dtype(self.b) * S[k] * S[l]
            r = self.y.astype(dtype) - dtype(self.c) * T
            return (out - .5 * r * r - dtype(.5 * LOG2PI)).astype(dtype)

    def grad(self, zs, dtype=np.float64):
        with np.errstate(all='ignore'):
            S = [z.astype(dtype).sum(self.axes(k), dtype=dtype)
                 for k, z in enumerate(zs)]
            T = sum(np.tanh(s) for s in S)
            r = self.y.astype(dtype) - dtype(self.c) * T
            gs = []
            for k, z in enumerate(zs):
                z = z.astype(dtype)
                m, s = [a.astype(dtype) for a in self.par[k]]
                u = (z - m) / s
                kd = self.kind[k]
                if kd == 'gauss':
                    g = -u / s
                elif kd == 'student':
                    g = -4 * u / (3 + u * u) / s
                elif kd == 'logistic':
                    g = -np.tanh(u / 2) / s
                elif kd == 'quartic':
                    g = (u - u ** 3) / s
                elif kd == 'positive':
                    g = dtype(1.5) / z - 1 / s
                else:
                    g = np.where(np.abs(z) < 2, -u / s, 0)
                g = g + self.expand(r * dtype(self.c) *
                                    (1 - np.tanh(S[k]) ** 2) +
                                    dtype(self.b) * (sum(S) - S[k]), k)
                gs.append(g.astype(dtype))
            return gs


def kinetic(p, mass, tgt, dtype=np.float64):
    with np.errstate(all='ignore'):
        return .5 * sum((x.astype(dtype) ** 2 / m.astype(dtype)).sum(
            tgt.axes(k), dtype=dtype) for k, (x, m) in enumerate(
                zip(p, mass)))


def leapfrog(tgt, q, p, eps, L, mass, dtype=np.float64):
    with np.errstate(all='ignore'):
        q = [x.astype(dtype) for x in q]
        p = [x.astype(dtype) for x in p]
        mass = [m.astype(dtype) for m in mass]
        eps = dtype(eps)
        p = [a + eps / 2 * g for a, g in zip(p, tgt.grad(q, dtype))]
        for i in range(L):
            q = [a + eps * (b / m) for a, b, m in zip(q, p, mass)]
            h = eps if i < L - 1 else eps / 2
            p = [a + h * g for a, g in zip(p, tgt.grad(q, dtype))]
        return q, p


class Transition(object):
    """What one iteration must be, given momentum, step size and mass."""

    def __init__(self, tgt, q, p, eps, L, mass):
        self.tgt, self.q = tgt, q
        runs = []
        for dt, e in ((np.float64, eps), (np.float32, eps),
                      (np.float64, eps * (1 + 2e-6))):
            q1, p1 = leapfrog(tgt, q, p, e, L, mass, dt)
            with np.errstate(all='ignore'):
                lp0, k0 = tgt.logp(q, dt), kinetic(p, mass, tgt, dt)
                lp1, k1 = tgt.logp(q1, dt), kinetic(p1, mass, tgt, dt)
                d = (lp1.astype(np.float64) - k1) - (lp0.astype(
                    np.float64) - k0)
                a = np.exp(np.minimum(d, 0))
                bad = ~(np.isfinite(a) & np.isfinite(lp1))
                a = np.where(bad, 0., a)
            runs.append((q1, lp1, k1, a, d))
        self.prop, self.lp1, self.k1, self.acc, self.dH = runs[0]
        self.lp0, self.k0 = tgt.logp(q), kinetic(p, mass, tgt)
        with np.errstate(all='ignore'):
            self.tol_q = [
                2e-5 * (1 + np.abs(x)) + 30 * np.maximum(
                    np.abs(x - runs[1][0][k]), np.abs(x - runs[2][0][k]))
                for k, x in enumerate(self.prop)]
            mag = np.abs(self.lp0) + np.abs(self.lp1) + np.abs(self.k0) + \
                np.abs(self.k1)
            self.tol_a = 1e-5 * (1 + np.where(np.isfinite(mag), mag, 0)) + \
                30 * np.maximum(np.abs(self.acc - runs[1][3]),
                                np.abs(self.acc - runs[2][3]))
            # relative accuracy of small rates
            td = 2e-5 * (1 + mag) + 30 * np.maximum(
                np.abs(self.dH - runs[1][4]), np.abs(self.dH - runs[2][4]))
            self.tol_d = np.where(np.isfinite(td), td, np.inf)
            tl = 2e-5 * (1 + np.abs(self.lp1)) + 30 * np.abs(
                self.lp1 - runs[1][1])
            self.tol_lp1 = np.where(np.isfinite(tl), tl, np.inf)
        # chains whose proposal is too sensitive to rounding to be judged
        sens = np.zeros(tgt.chain, bool)
        for k, t in enumerate(self.tol_q):
            b = ~(t < .05 * (1 + np.abs(self.prop[k])))
            sens |= b.any(tgt.axes(k))
        self.sensitive = sens | ~(self.tol_a < .05)
        # finite in one precision, not in the other
        self.edge = np.isfinite(runs[0][1]) != np.isfinite(runs[1][1])


def chain_all(tgt, cond, k):
    return np.asarray(cond).all(tgt.axes(k)) if tgt.data[k] else \
        np.asarray(cond)
