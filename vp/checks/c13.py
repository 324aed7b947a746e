"""C13: the variational objectives and the importance sampling estimate have
their defining values at the drawn samples, for every model and sample axis,
and (discrete latents, by enumeration) bound / are unbiased for p(x)."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import special as sp

from vp import gen, vi
from vp.core import (Info, Sub, Violation, close, fresh_graph, require,
                     session)


@st.composite
def strategy(draw):
    c = draw(vi.model_case(dtypes=('float64', 'float64', 'float32'),
                           max_latents=3))
    c['how'] = draw(st.sampled_from(['meta', 'meta-custom', 'fn']))
    c['q'] = draw(st.sampled_from(['bn', 'bn', 'bn-extra', 'latent']))
    c['shared'] = draw(st.sampled_from([0, 0, 1, 2, 3, 7, 9, 11, 15]))
    c['dyn'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['neg'] = draw(st.booleans())
    c['reparam'] = draw(st.booleans())
    c['xscale'] = draw(st.sampled_from([1., 1., 1., 30., 1000.]))
    c['two_obs'] = draw(st.booleans())
    return c


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    m = vi.Model(case)
    v = zs.variational
    with fresh_graph(case['seed'] % 99991) as g, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.tf_params(tf)
        q = m.variational(tf, zs, case['reparam'],
                          extra=case['q'] == 'bn-extra')
        meta = m.meta(tf, zs, case['how'])
        axis = m.api_axis
        if case['q'] == 'latent':
            lat = {n: [q[n].tensor, q.cond_log_prob(n)] for n in m.names}
            qa, pa = {'latent': lat}, {'latent': lat}
        else:
            qa, pa = {'variational': q}, {'proposal': q}
        obs = dict(m.t_obs)
        keep = dict(obs)
        outs = {'z': [z.tensor for z in m.t_z]}
        e0 = v.elbo(meta, obs, axis=axis, **qa)
        outs['elbo'] = e0.tensor
        outs['elbo_fetch'] = e0
        outs['elbo_none'] = v.elbo(meta, obs, **qa) * 2.
        outs['sgvb'] = e0.sgvb()
        if axis is not None:
            iw = v.importance_weighted_objective(meta, obs, axis=axis, **qa)
            outs['iw'] = tf.convert_to_tensor(iw)
            outs['iw_alias'] = -v.iw_objective(meta, obs, axis=axis,
                                               **qa)
            outs['is'] = zs.is_loglikelihood(meta, obs, axis=axis, **pa)
        else:
            for f, a in ((v.importance_weighted_objective, qa),
                         (zs.is_loglikelihood, pa)):
                try:
                    f(meta, obs, **a)
                except ValueError:
                    continue
                raise Violation('%s accepted axis=None' % f.__name__)
        kl = v.klpq(meta, obs, axis=axis, **qa)
        try:
            kl.tensor
        except NotImplementedError:
            pass
        else:
            raise Violation('klpq can be evaluated')
        # what the objective exposes
        if case['how'] == 'fn':
            require(e0.bn is None and e0.meta_bn is None,
                    'bn of an objective built from a function')
        else:
            require(e0.meta_bn is meta, 'meta_bn property')
            require(all(e0.bn[n].is_observed() for n in m.names +
                        m.obs_names),
                    'objective.bn is not fully observed')
            require(e0.bn is e0.bn, 'objective.bn changes')
            outs['bnz'] = [e0.bn[n] for n in m.names]
            outs['bnx'] = e0.bn['x']
        require(obs == keep, 'the dict of observations was changed')
        require(e0.variational is (None if case['q'] == 'latent' else q),
                'variational property')
        for kw in ({}, {'variational': q, 'latent': {
                'z0': [q['z0'].tensor, q.cond_log_prob('z0')]}}):
            try:
                v.elbo(meta, obs, axis=axis, **kw)
            except ValueError:
                continue
            raise Violation('elbo accepted %s' % (
                'neither latent nor variational' if not kw else
                'both latent and variational'))
        try:
            v.elbo(meta, obs, axis=axis, variational=m.t_z)
        except TypeError:
            pass
        else:
            raise Violation('variational that is no BayesianNet accepted')
        if case['how'] != 'fn':
            # a model latent without posterior must be refused
            part = zs.BayesianNet()
            for i, k in enumerate(m.kinds[:-1]):
                m.add(tf, part, k, m.names[i], m.t_phi[i] + tf.zeros(
                    m.leads[i] + (m.d,), m.t_phi[i].dtype), False)
            try:
                v.elbo(meta, obs, axis=axis, variational=part).tensor
            except ValueError:
                pass
            else:
                raise Violation('a model latent that is neither observed '
                                'nor given a posterior was accepted')
        with session(g) as sess:
            r = sess.run(outs)
    z = [np.asarray(x, np.float64) for x in r['z']]
    for x, ld in zip(z, m.leads):
        require(x.shape == ld + (m.d,), 'sample shape %s', x.shape)
    lp, lq = m.logp(z), m.logq(z)
    if case['how'] == 'meta-custom':
        lp = lp + .625
    tol = {'float64': 1e-9, 'float32': 2e-4}[case['dtype']]
    s = np.abs(lp).max() + np.abs(lq).max() + 1
    want = vi.mean(lp - lq, m.axis)
    close(r['elbo'], want, tol * s, 'elbo')
    close(r['elbo_fetch'], want, tol * s, 'elbo fetched directly')
    close(r['elbo_none'], 2 * (lp - lq), 2 * tol * s, '2 * elbo, axis=None')
    if m.axis is not None:
        want = vi.lme(lp - lq, m.axis)
        close(r['iw'], want, tol * s, 'importance weighted objective')
        close(-r['iw_alias'], want, tol * s, 'iw_objective')
        close(r['is'], want, tol * s, 'is_loglikelihood')
        require(np.all(r['iw'] >= r['elbo'] - tol * s),
                'importance weighted bound below the ELBO')
    if 'bnz' in r:
        for a, b in zip(r['bnz'], r['z']):
            require(np.array_equal(a, b), 'objective.bn holds other samples')
        require(np.array_equal(r['bnx'], m.x.astype(case['dtype'])),
                'objective.bn holds another observation')
    return Info(m.axis is not None and np.prod(m.lead) > 1,
                ['layout ' + case['layout'], case['how'], case['q']] +
                sorted(set(m.kinds)))


@st.composite
def enum_strategy(draw):
    c = draw(vi.model_case(kinds=('bernoulli', 'onehot'), layouts=['Sn'],
                           dmax=2, smin=1, smax=3, nmax=1))
    c['dtype'] = 'float64'
    c['n'] = 1
    if len(c['latents']) == 2:
        c['S'] = min(c['S'], 2)
        c['d'] = 2 if 'onehot' in c['latents'] else 1
    return c


def check_enum(case):
    """Expectation over every joint outcome of the K samples."""
    import tensorflow as tf
    import zhusuan as zs
    m = vi.Model(case)
    K = case['S']
    with fresh_graph(1) as g:
        m.tf_params(tf)
        q = m.variational(tf, zs, False)
        meta = m.meta(tf, zs, 'meta')
        obs = {'x': m.t_x}
        e = zs.variational.elbo(meta, obs, axis=0, variational=q)
        iw = zs.is_loglikelihood(meta, obs, axis=0, proposal=q)
        cfg = m.configs()
        one = vi.Model(dict(case, S=len(cfg)))
        zz = [np.stack([c[i] for c in cfg])[:, None, :]
              for i in range(m.npar)]
        lq, lp = one.logq(zz)[:, 0], one.logp(zz)[:, 0]
        px = sp.logsumexp(lp)
        tot_e = tot_w = tot_iw = 0.
        with session(g) as sess:
            if len(cfg) ** K > 70:
                return Info(False, ['too many outcomes'])
            f = sess.make_callable([e.tensor, iw],
                                   [z.tensor for z in m.t_z])
            for combo in itertools.product(range(len(cfg)), repeat=K):
                w = float(np.exp(sum(lq[j] for j in combo)))
                args = [np.stack([cfg[j][i] for j in combo])[:, None, :]
                        for i in range(m.npar)]
                a, b = f(*args)
                tot_e += w * a[0]
                tot_w += w * np.exp(b[0])
                tot_iw += w * b[0]
    kl = np.sum(np.exp(lq) * (lq - (lp - px)))
    close(tot_e, px - kl, 1e-8 * (1 + abs(px) + kl),
          'expected ELBO is not log p(x) - KL(q||p)')
    close(tot_w / np.exp(px), 1., 1e-8, 'expected importance weight / p(x)')
    require(tot_e - 1e-9 <= tot_iw <= px + 1e-9, 'importance weighted bound '
            '%r is not between the ELBO %r and log p(x) %r', tot_iw, tot_e,
            px)
    return Info(True, ['K=%d' % K, 'latents %d' % m.npar])


SUBCHECKS = [Sub('values', strategy, check),
             Sub('enumeration', enum_strategy, check_enum)]
