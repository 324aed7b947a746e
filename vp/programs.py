"""Small complete programs over every part of the library, for checks that
compare runs of the same program with each other."""
import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

from vp import dists, gen, hmcrun, mc, vi
from vp.checks import c14, c17, c18, c19
from vp.core import rng_of

SAMPLABLE = tuple(n for n in dists.ALL if n != 'UnnormalizedMultinomial')
KINDS = ('dists', 'net', 'hmc', 'sgmcmc', 'ais', 'vi', 'flow')


@st.composite
def case(draw, any_kind=False):
    kind = draw(st.sampled_from(KINDS if any_kind else gen.pick(KINDS)))
    c = {'kind': kind, 'steps': draw(st.integers(1, 3))}
    if kind in ('dists', 'net'):
        c['parts'] = draw(st.lists(gen.dist_case(
            names=SAMPLABLE, max_size=12, max_rank=2, none_n_exp=False,
            dtypes=('float32', 'float64'), regimes=('mid',)),
            min_size=1, max_size=4))
        c['n'] = draw(st.sampled_from([None, 3, 5]))
        c['observe'] = draw(st.lists(st.booleans(), min_size=4, max_size=4))
        c['how'] = draw(st.sampled_from(['bn', 'meta', 'reuse']))
        c['seed'] = draw(gen.SEED)
    elif kind == 'hmc':
        c['hmc'] = draw(hmcrun.hmc_case('any'))
        c['hmc'].update(sched=None, threads=1, iters=min(
            4, c['hmc']['iters']))
    elif kind == 'sgmcmc':
        c['sg'] = draw(c17.strategy())
        c['sg'].update(sched=None, threads=1, restart=0,
                       iters=min(4, c['sg']['iters']))
    elif kind == 'ais':
        c['ais'] = draw(c18.path_case())
        c['ais'].update(T=min(c['ais']['T'], 4), runs=1, defaults=False,
                        verbose=False, n_adapt=min(2, c['ais']['n_adapt']))
    elif kind == 'vi':
        c['vi'] = draw(c14.strategy())
        c['vi']['sched'] = None
    else:
        c['flow'] = draw(st.sampled_from(['planar', 'linear', 'iaf', 'gru']))
        c['d'] = draw(st.integers(1, 4))
        c['lead'] = draw(gen.dims(max_rank=2, max_size=6, min_rank=1))
        c['iters'] = draw(st.integers(1, 3))
        c['hidden'] = draw(st.booleans())
        c['seed'] = draw(gen.SEED)
        c['soff'] = 0.
    return c


def snapshot(x):
    """A copy to compare with; objects of the graph count by identity."""
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, list):
        return [snapshot(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def unchanged(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(unchanged(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(unchanged, a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
    return a is b or (isinstance(a, (int, float, str, bool)) and a == b)


class Program(object):
    """Builds into the default graph.  `play` yields after every step."""

    def __init__(self, tf, zs, c):
        self.tf, self.zs, self.c = tf, zs, c
        self.guards = []        # (what, object, copy)
        self.mine = []          # trainable variables this program asked for
        self.restarts = False   # the initializer brings back the first state
        self.random = True      # draws continuous random numbers
        self.feed = {}
        self.untrained = []     # weights of a model that are not trainable
        getattr(self, 'build_' + c['kind'])()

    def guard(self, what, x):
        self.guards.append((what, x, snapshot(x)))
        return x

    def moved(self):
        return [w for w, x, y in self.guards if not unchanged(x, y)]

    def play(self, sess):
        for i in range(self.c['steps'] * self.per_step):
            yield self.step(sess, i)

    per_step = 1

    def step(self, sess, i):
        return flat(sess.run(self.fetch, self.feed))

    # ---- programs --------------------------------------------------------
    def build_dists(self):
        import zhusuan.distributions as zd
        self.fetch = []
        self.random = False
        for k, p in enumerate(self.c['parts']):
            inst = dists.Inst(p)
            self.random |= inst.name not in dists.DISCRETE and not (
                inst.value_shape == (1,))
            self.guard('parameters', inst.params)
            d = inst.build(zd)
            x = d.sample(self.c['n'])
            given = self.guard('given', inst.given(p['seed'], inst.batch))
            self.fetch += [x, d.log_prob(given), d.log_prob(x)]

    def build_net(self):
        tf, zs, c = self.tf, self.zs, self.c
        insts = [dists.Inst(p) for p in c['parts']]
        obs = {}
        self.random = False
        for k, inst in enumerate(insts):
            if c['observe'][k]:
                obs['n%d' % k] = inst.given(c['seed'], inst.batch)
            else:
                self.random |= inst.name not in dists.DISCRETE and \
                    inst.value_shape != (1,)
        self.guard('observations', obs)

        def fill(bn):
            import zhusuan.distributions as zd
            for k, inst in enumerate(insts):
                d = inst.build(zd)
                bn.stochastic('n%d' % k, d, n_samples=c['n'])
            bn.deterministic('t', tf.constant(1.))
            return bn
        made = []
        if c['how'] == 'bn':
            nets = [fill(zs.BayesianNet(obs)), fill(zs.BayesianNet())]
        else:
            kw = {'reuse_variables': True, 'scope': 'm'} \
                if c['how'] == 'reuse' else {}

            @zs.meta_bayesian_net(**kw)
            def model():
                bn = zs.BayesianNet()
                if kw:
                    made.append(tf.get_variable(
                        'w', [2], initializer=tf.zeros_initializer()))
                return fill(bn)
            m = model()
            nets = [m.observe(**obs), m.observe()]
        self.mine = made[:1]
        names = ['n%d' % k for k in range(len(insts))]
        self.fetch = []
        for bn in nets:
            self.fetch += [bn.outputs(names) if len(names) > 1 else
                           bn.outputs(names[0])]
            self.fetch += list(bn.cond_log_prob(names))
        self.restarts = True

    def build_hmc(self):
        c = self.c['hmc']
        tgt = mc.Target(c['tgt'])
        self.guard('arrays', list(tgt.init) + [tgt.y])
        _, latent, op, info, feeds = hmcrun.make(self.tf, self.zs, c, tgt)
        self.fetch = [op, [info.samples[n] for n in tgt.names],
                      [info.init_momentum[n] for n in tgt.names],
                      info.acceptance_rate, info.updated_step_size,
                      info.hamiltonian, info.log_prob]
        self.per_step = c['iters']
        self.feeds, self.restarts = feeds, True

        def step(sess, i):
            fd = {}
            for k, ph in self.feeds.items():
                fd[ph] = c['L'] if k == 'L' else c[k][i % len(c[k])]
            return flat(sess.run(self.fetch[1:] + [self.fetch[0]], fd)[:-1])
        self.step = step

    def build_sgmcmc(self):
        c = self.c['sg']
        tgt = mc.Target(c['tgt'])
        self.guard('arrays', list(tgt.init) + [tgt.y])
        R = c17.Runner(self.tf, self.zs, c, tgt, None)
        self.guard('latent', R.latent)
        fd = {R.lr: c['lr'], R.lam: 1., R.al: c['alpha'],
              R.be: min(c['beta'], c['alpha']), R.tu: c['tune']}
        if R.res is not None:
            fd[R.res] = c['resample']
        self.feed = fd
        self.fetch = R.fetch
        self.per_step = c['iters']

        def step(sess, i):
            return flat(sess.run([R.fetch['info'], R.fetch['op']], fd)[0])
        self.step = step

    def build_ais(self):
        tf, zs, c = self.tf, self.zs, self.c['ais']
        from zhusuan.evaluation import AIS
        tgt = mc.Target(c['tgt'])
        prop = c18.Proposal(tgt, c['tgt']['seed'])
        obs = {'y': tf.constant(tgt.y)}
        latent = {nm: tf.Variable(z, name=nm, trainable=False)
                  for nm, z in zip(tgt.names, tgt.init)}
        self.guard('observed', obs)
        self.guard('latent', latent)
        hmc = zs.HMC(step_size=c['eps'], n_leapfrogs=c['L'])
        ais = AIS(tgt.model(tf, zs), prop.net(tf, zs), hmc, obs, latent,
                  n_temperatures=c['T'], n_adapt=c['n_adapt'], verbose=False)
        lv = [latent[n] for n in tgt.names]
        feed = self.guard('feed_dict', {})

        def step(sess, i):
            with contextlib.redirect_stdout(io.StringIO()):
                r = ais.run(sess, feed)
            return flat([r, sess.run(lv)])
        self.step = step

    def build_vi(self):
        tf, zs, c = self.tf, self.zs, self.c['vi']
        m = vi.Model(c)
        self.random = any(k in ('normal', 'laplace') for k in m.kinds)
        m.tf_params(tf)
        m.t_base = tf.constant(.3, m.dtype)
        self.guard('observed', m.t_obs)
        est = c['est']
        q = m.variational(tf, zs, est in c14.SGVB)
        cost = c14.build(tf, zs, m, c, q, m.meta(tf, zs, c['how']))
        cost = list(cost) if isinstance(cost, tuple) else [cost]
        gr = [g for g in tf.gradients(cost[0], m.t_phi + m.t_theta)
              if g is not None]
        self.fetch = cost + gr + [z.tensor for z in m.t_z]
        self.restarts = True

    def build_flow(self):
        tf, zs, c = self.tf, self.zs, self.c
        from zhusuan import transform
        r = rng_of('flow', c['seed'])
        shape = tuple(c['lead']) + (c['d'],)
        x = self.guard('samples', r.standard_normal(shape).astype('float32'))
        lp = self.guard('log_probs', r.standard_normal(
            shape[:-1]).astype('float32'))
        before = list(tf.trainable_variables())
        if c['flow'] == 'planar':
            z, l = zs.planar_normalizing_flow(tf.constant(x), tf.constant(lp),
                                              c['iters'])
        else:
            nn = transform.linear_ar if c['flow'] == 'linear' else \
                c19.ar_network(tf, dict(c), [])
            hid = self.guard('hidden', r.standard_normal(shape).astype(
                'float32')) if c['hidden'] else None
            z, l = transform.inv_autoregressive_flow(
                tf.constant(x), hid, tf.constant(lp), nn, c['iters'],
                update='gru' if c['flow'] == 'gru' else 'normal')
        # the weights of a flow are for the user to train
        self.mine = [v for v in tf.trainable_variables() if v not in before]
        # a strictly triangular 1 x 1 network has no weights
        self.random = bool(self.mine) and (
            c['d'] > 1 or c['flow'] == 'planar')
        self.untrained = [v.name for v in tf.global_variables() if v not in
                          self.mine and v not in before and
                          v.name.startswith('p/')]
        self.fetch = [z, l]


def flat(x):
    if isinstance(x, dict):
        return [a for k in sorted(x) for a in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in flat(v)]
    return [] if x is None else [np.asarray(x)]


def same(a, b):
    """first difference of two results (lists of steps), or None"""
    if len(a) != len(b):
        return 'number of steps'
    for i, (x, y) in enumerate(zip(a, b)):
        if len(x) != len(y):
            return 'number of results of step %d' % (i + 1)
        for j, (u, v) in enumerate(zip(x, y)):
            if u.dtype != v.dtype or u.shape != v.shape or \
                    u.tobytes() != v.tobytes():
                return 'result %d of step %d: %r and %r' % (
                    j, i + 1, u.reshape(-1)[:3].tolist(),
                    v.reshape(-1)[:3].tolist())
    return None
