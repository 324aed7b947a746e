"""C18: annealed importance sampling: the reported estimate is the log mean of
the importance weights of the annealing path that was actually walked, and
those weights average to the marginal likelihood."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vp import mc
from vp.core import Info, close, fresh_graph, require, rng_of, session
from vp.core import Sub

LOG2PI = np.log(2 * np.pi)


class Spy(object):
    """A session that records temperature and latent values around each run
    call."""

    def __init__(self, sess, variables, feed):
        self._sess, self._vars, self._feed = sess, variables, feed
        self.log = []

    def run(self, fetches, feed_dict=None, **kw):
        extra = [k for k in (feed_dict or {}) if k not in self._feed]
        t = None
        if extra:
            require(len(extra) == 1, 'unexpected feeds %r', extra)
            t = float(np.asarray((feed_dict or {})[extra[0]]))
        before = self._sess.run(self._vars)
        out = self._sess.run(fetches, feed_dict=feed_dict, **kw)
        after = self._sess.run(self._vars)
        self.log.append((t, before, after))
        return out

    def __getattr__(self, nm):
        return getattr(self._sess, nm)


class Proposal(object):
    def __init__(self, tgt, seed):
        rng = rng_of('proposal', seed)
        self.tgt = tgt
        self.par = [(rng.uniform(-1, 1, d).astype('float32'),
                     rng.uniform(.7, 1.5, d).astype('float32'))
                    for d in tgt.data]

    def net(self, tf, zs):
        tgt = self.tgt

        @zs.meta_bayesian_net(scope='proposal')
        def build():
            bn = zs.BayesianNet()
            for k, nm in enumerate(tgt.names):
                m, s = self.par[k]
                bn.normal(nm, np.array(np.broadcast_to(
                    m, tgt.chain + tgt.data[k])), std=s,
                    group_ndims=len(tgt.data[k]))
            return bn
        return build()

    def logp(self, zv):
        out = np.zeros(self.tgt.chain)
        for k, z in enumerate(zv):
            m, s = [a.astype(np.float64) for a in self.par[k]]
            u = (z.astype(np.float64) - m) / s
            out = out + (-.5 * u * u - np.log(s) - .5 * LOG2PI).sum(
                self.tgt.axes(k))
        return out


@st.composite
def path_case(draw):
    tgt = draw(mc.target_case(max_chain=6, max_data=4, max_latents=3,
                              kinds=('gauss', 'student', 'logistic',
                                     'quartic')))
    if not tgt['chain']:
        tgt['chain'] = [draw(st.integers(1, 6))]
    tgt['bil'] = 0.
    return {'tgt': tgt,
            'T': draw(st.sampled_from([1, 2, 3, 4, 7, 12, 20])),
            'n_adapt': draw(st.sampled_from([0, 1, 2, 5])),
            'eps': draw(st.sampled_from([1e-6, .05, .2, .5])),
            'L': draw(st.sampled_from([1, 2, 5])),
            'adapt': draw(st.sampled_from(['no', 'no', 'true', 'ph'])),
            'y_ph': draw(st.booleans()),
            'scale': draw(st.sampled_from([1., 1., 8., 60.])),
            'verbose': draw(st.booleans()),
            'runs': draw(st.integers(1, 3)),
            'defaults': draw(st.sampled_from([False, False, False, True])),
            'tseed': draw(st.integers(0, 10 ** 6))}


def anneal(tgt, prop, log, T, ctx):
    """(log weights, tolerance, first state) of the recorded history."""
    start = None
    for i, (t, before, after) in enumerate(log):
        if t is None and any(not np.array_equal(a, b)
                             for a, b in zip(before, after)):
            start = i
    require(start is not None, 'no draw from the proposal was made %s', ctx)
    beta = 0.
    state0 = log[start][2]
    # all latents of all chains are drawn anew: nothing survives from the
    # adaptation or from an earlier run
    first = start
    while first and log[first - 1][0] is None:
        first -= 1
    for nm, a, b in zip(tgt.names, log[first][1], state0):
        kept = int(np.sum(a == b))
        require(kept <= .1 * a.size + (a.size > 3), '%d of %d values of %s '
                'were not drawn from the proposal %s', kept, a.size, nm, ctx)
    lw = np.zeros(tgt.chain)
    mag = np.zeros(tgt.chain)
    steps = []
    moved = False
    for t, before, after in log[start + 1:]:
        if t is None:
            continue
        same = all(np.array_equal(a, b) for a, b in zip(before, after))
        f0, f1 = prop.logp(before), tgt.logp(before)
        if t > beta:
            steps.append(t)
            lw += (t - beta) * (f1 - f0)
            mag += np.abs(f1) + np.abs(f0)
            beta = t
            moved = not same
        elif t == beta and not moved:
            moved = not same
        else:
            require(same, 'after the proposal draw the chain moved again at '
                    'temperature %r (already at %r) %s', t, beta, ctx)
    return lw, 2e-5 * (2 + mag), state0, steps


def run_ais(case, tgt, prop, sess_kw=None):
    """yields per run: result, recorded log, context"""
    import tensorflow as tf
    import zhusuan as zs
    from zhusuan.evaluation import AIS
    out = []
    with fresh_graph(case['tseed']) as g, session(g) as sess:
        feed = {}
        kw = {}
        if case['adapt'] == 'true':
            kw['adapt_step_size'] = True
        elif case['adapt'] == 'ph':
            ph = tf.placeholder(tf.bool, [])
            kw['adapt_step_size'] = ph
            feed[ph] = True
        hmc = zs.HMC(step_size=case['eps'], n_leapfrogs=case['L'], **kw)
        y = tf.constant(tgt.y)
        if case['y_ph']:
            y = tf.placeholder(tf.float32, tgt.y.shape)
            feed[y] = tgt.y
        latent = {nm: tf.Variable(z, name=nm, trainable=False)
                  for nm, z in zip(tgt.names, tgt.init)}
        akw = {'n_temperatures': case['T'], 'n_adapt': case['n_adapt'],
               'verbose': case['verbose']}
        if case.get('defaults'):
            del akw['n_adapt'], akw['verbose']
        ais = AIS(tgt.model(tf, zs), prop.net(tf, zs), hmc, {'y': y},
                  latent, **akw)
        sess.run(tf.global_variables_initializer())
        lv = [latent[n] for n in tgt.names]
        for i in range(case['runs']):
            spy = Spy(sess, lv, feed)
            keys = dict(feed)
            with contextlib.redirect_stdout(io.StringIO()):
                r = ais.run(spy, feed)
            require(set(keys) == set(feed), 'the caller\'s feed_dict was '
                    'changed')
            out.append((r, spy.log))
    return out


def logmeanexp(a):
    m = a.max(0)
    return m + np.log(np.exp(a - m).mean(0))


def path(case):
    tgt = mc.Target(case['tgt'])
    tgt.y = (tgt.y * case['scale']).astype('float32')
    prop = Proposal(tgt, case['tgt']['seed'])
    firsts = []
    n = 30 if case['defaults'] else case['n_adapt']
    for i, (r, log) in enumerate(run_ais(case, tgt, prop)):
        ctx = '(run %d)' % (i + 1)
        lw, tol, first, steps = anneal(tgt, prop, log, case['T'], ctx)
        require(len(steps) == case['T'], '%d temperatures used, %d asked '
                'for %s', len(steps), case['T'], ctx)
        require(abs(steps[-1] - 1) < 1e-6, 'annealing ends at temperature %r '
                'instead of 1 %s', steps[-1], ctx)
        require(np.ndim(r) == 0, 'the estimate has shape %s', np.shape(r))
        close(float(r), float(np.mean(logmeanexp(lw))), float(np.mean(
            tol.max(0))) * (1 + 0 * case['T']), 'AIS estimate versus the '
            'weights of the path that was walked', ctx)
        adapted = [t for t, b, a in log if t is not None]
        require(min(adapted) >= 0 and max(adapted) <= 1 + 1e-6,
                'the chains were run at temperatures %r .. %r %s',
                min(adapted), max(adapted), ctx)
        require(len(adapted) >= n + case['T'], 'fewer HMC iterations than '
                'asked for %s', ctx)
        firsts.append(first)
    for a, b in zip(firsts, firsts[1:]):
        require(not np.array_equal(a[0], b[0]), 'two runs start from the '
                'same proposal draw')
    # the chains start from draws of the proposal
    u = np.concatenate([((f[k] - prop.par[k][0]) / prop.par[k][1]).reshape(-1)
                        for f in firsts for k in range(len(tgt.names))])
    require(np.abs(u).max() < 7, 'start value %.1f deviations away from the '
            'proposal', np.abs(u).max())
    require(abs(u.sum()) < 6.5 * np.sqrt(u.size), 'start values are off the '
            'proposal mean')
    if u.size >= 30:
        v = (u * u).sum()
        require(abs(v - u.size) < 7 * np.sqrt(2 * u.size) + 30,
                'start values do not have the proposal spread')
    labels = ['T %d' % case['T'], 'adapt ' + case['adapt'],
              'chain rank %d' % len(tgt.chain)]
    return Info(tgt.chain[0] > 1 or case['T'] > 1, labels)


@st.composite
def law_case(draw):
    lat = st.fixed_dictionaries({
        'data': st.sampled_from([[], [2], [1, 2]]),
        'kind': st.just('gauss')})
    return {'tgt': {'chain': [draw(st.sampled_from([300, 500]))],
                    'meta': draw(st.booleans()), 'couple': 0.,
                    'lat': draw(st.lists(lat, min_size=1, max_size=2)),
                    'seed': draw(st.integers(0, 2 ** 31 - 1))},
            'T': draw(st.sampled_from([1, 2, 5, 10])),
            'n_adapt': draw(st.sampled_from([0, 3])),
            'eps': draw(st.sampled_from([.1, .4, .8])),
            'L': draw(st.sampled_from([1, 3])), 'adapt': 'no', 'y_ph': False,
            'verbose': False, 'runs': 2, 'defaults': False,
            'tseed': draw(st.integers(0, 10 ** 6))}


def law(case):
    """model = N(m, s) prior times a factor that does not depend on z, with a
    per-run known evidence: the mean weight must equal it."""
    tgt = mc.Target(case['tgt'])
    tgt.y[...] = tgt.y[0]
    prop = Proposal(tgt, case['tgt']['seed'])
    y = float(tgt.y[0])
    logz = -.5 * y * y - .5 * LOG2PI
    # second moment of the plain importance weight (upper bound for annealing
    # up to sampling noise): finite only if the proposal is wide enough
    for (m, s), (pm, ps) in zip(tgt.par, prop.par):
        if (s * s > 1.3 * ps * ps).any():
            return Info(False, ['proposal too narrow'])
    worst = 0.
    for r, log in run_ais(case, tgt, prop):
        lw, tol, first, steps = anneal(tgt, prop, log, case['T'], '')
        w = np.exp(lw - logz)
        se = w.std() / np.sqrt(w.size) + .02
        z = (np.exp(r - logz) - 1) / se
        worst = max(worst, abs(z))
        require(abs(z) < 7, 'AIS estimate %.4f, log evidence %.4f (%.1f '
                'standard errors in the weights)', r, logz, z)
    return Info(True, ['T %d' % case['T']])


SUBCHECKS = [
    Sub('path', path_case, path),
    Sub('law', law_case, law),
]
