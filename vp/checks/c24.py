"""C24: inference calls that cannot be carried out are refused, without a
trace; their valid twins work."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, mc, vi
from vp.checks import c18
from vp.core import Info, Sub, Violation, fresh_graph, require, session

SAMPLERS = ('HMC', 'SGLD', 'PSGLD', 'SGHMC', 'SGNHT', 'AIS')
OBJ = ('elbo', 'importance_weighted_objective', 'klpq', 'is_loglikelihood')


@st.composite
def strategy(draw):
    what = draw(st.sampled_from(gen.pick(SAMPLERS + OBJ)))
    c = {'what': what, 'seed': draw(gen.SEED),
         'tseed': draw(st.integers(0, 10 ** 6))}
    if what in SAMPLERS:
        faults = ['notvar', 'notvar']
        if what in ('HMC', 'AIS'):
            faults.append('rank')
        if what == 'HMC':
            faults += ['mass']
        c['tgt'] = draw(mc.target_case(kinds=('gauss', 'student'),
                                       max_chain=4))
        if what == 'AIS' and not c['tgt']['chain']:
            c['tgt']['chain'] = [2]
        c['pick'] = draw(st.integers(0, 5))
        c['as'] = draw(st.sampled_from(['tensor', 'array', 'placeholder',
                                        'node', 'number', 'list', 'read']))
    else:
        faults = ['both', 'neither', 'type', 'type', 'missing']
        if what in ('importance_weighted_objective', 'is_loglikelihood'):
            faults += ['axis', 'axis']
        if what == 'importance_weighted_objective':
            faults += ['one sample', 'one sample']
        c['vi'] = draw(vi.model_case(
            kinds=vi.KINDS, max_latents=3, smin=2, dmax=2, nmax=2,
            layouts=['S', 'Sn', 'nS', 'nsamp']))
        c['as'] = draw(st.sampled_from(['dict', 'dist', 'node', 'meta',
                                        'function', 'list']))
        c['dyn'] = draw(st.integers(0, 2))
        c['fn'] = draw(st.booleans())
        c['pick'] = draw(st.integers(0, 5))
    c['fault'] = draw(st.sampled_from(faults))
    return c


def sampler_case(tf, zs, case, sess):
    tgt = mc.Target(case['tgt'])
    what, fault = case['what'], case['fault']

    def latents():
        return {nm: tf.Variable(z, trainable=False)
                for nm, z in zip(tgt.names, tgt.init)}

    def call(latent, model, **kw):
        obs = {'y': tf.constant(tgt.y)}
        if what == 'AIS':
            from zhusuan.evaluation import AIS
            prop = c18.Proposal(tgt, case['seed'])
            return AIS(model, prop.net(tf, zs), zs.HMC(step_size=.1), obs,
                       latent, n_temperatures=2, n_adapt=1)
        if what == 'HMC':
            s = zs.HMC(step_size=.1, n_leapfrogs=2, **kw)
        else:
            s = getattr(zs, what)(learning_rate=.01)
        return s.sample(model, obs, latent)
    good = latents()
    bad = dict(good)
    model, kw, exc = tgt.model(tf, zs), {}, TypeError
    if what == 'AIS':       # the model may stumble over the value first
        exc = (TypeError, ValueError)
    if fault == 'notvar':
        nm = tgt.names[case['pick'] % len(tgt.names)]
        z = tgt.init[tgt.names.index(nm)]
        how = case['as']
        if how == 'tensor':
            bad[nm] = tf.constant(z)
        elif how == 'array':
            bad[nm] = z
        elif how == 'placeholder':
            bad[nm] = tf.placeholder_with_default(z, z.shape)
        elif how == 'node':
            bn = zs.BayesianNet()
            bad[nm] = bn.normal(nm, np.asarray(z), std=1.)
        elif how == 'number':
            bad[nm] = 1.
        elif how == 'list':
            bad[nm] = np.asarray(z).tolist()
        else:
            bad[nm] = tf.identity(good[nm])
    elif fault == 'rank':
        inner = tgt.log_joint(tf)

        def model(obs):
            return tf.placeholder_with_default(inner(obs), None)
        exc = ValueError
    else:
        kw = {'adapt_mass': [True, False, tf.constant(True), tf.placeholder(
            tf.bool, [])][case['pick'] % 4]}
        exc = ValueError
    if case['tgt']['meta'] and fault == 'rank':
        # the function replaces a net of Gaussians
        def model(obs):
            lp = sum(tf.reduce_sum(obs[n]) for n in tgt.names)
            return tf.placeholder_with_default(lp, None)
    refused(lambda: call(bad, model, **kw), exc, case)
    # the valid twin, in the graph the refused call has left behind
    r = call(good, tgt.model(tf, zs))
    sess.run(tf.global_variables_initializer())
    before = sess.run([good[n] for n in tgt.names])
    for a, b in zip(before, tgt.init):
        require(np.array_equal(a, b), '%s: latents changed before the '
                'first iteration', what)
    if what == 'AIS':
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            v = r.run(sess, {})
        require(np.isfinite(v), '%s estimate %r', what, v)
    else:
        sess.run(r[0])


def refused(fn, exc, case):
    what = '%s, %s (%s)' % (case['what'], case['fault'], case.get('as'))
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: refused with %s instead of %s: %s' % (
            what, type(e).__name__, exc if isinstance(exc, tuple) else
            exc.__name__, e))
    raise Violation('%s: accepted' % what)


def objective_case(tf, zs, case, sess):
    what, fault = case['what'], case['fault']
    m = vi.Model(case['vi'])
    m.tf_params(tf)
    q = m.variational(tf, zs, False)
    f = getattr(zs, what) if what == 'is_loglikelihood' else \
        getattr(zs.variational, what)
    net = 'proposal' if what == 'is_loglikelihood' else 'variational'
    meta = m.meta(tf, zs, 'fn' if case['fn'] and fault != 'missing'
                  else 'meta')
    pairs = {n: list(q.query(n, outputs=True, local_log_prob=True))
             for n in m.names}
    axis = m.api_axis

    def use(o):
        return tf.convert_to_tensor(o) if what != 'klpq' else o.importance()
    exc = ValueError
    if fault == 'both':
        bad = lambda: use(f(meta, m.t_obs, axis=axis, latent=pairs,
                            **{net: q}))
    elif fault == 'neither':
        bad = lambda: use(f(meta, m.t_obs, axis=axis))
    elif fault == 'type':
        wrong = {'dict': pairs, 'dist': zs.distributions.Normal(0., std=1.),
                 'node': m.t_z[0], 'meta': m.meta(tf, zs, 'meta'),
                 'function': lambda obs: q, 'list': [q]}[case['as']]
        bad = lambda: use(f(meta, m.t_obs, axis=axis, **{net: wrong}))
        exc = TypeError
    elif fault == 'missing':
        # one latent of the model is neither observed nor in the posterior
        gone = m.names[case['pick'] % len(m.names)]
        if len(m.names) == 1:
            if what == 'klpq':
                return False
            part = {'other': pairs[gone]}
        else:
            part = {n: p for n, p in pairs.items() if n != gone}
        bad = lambda: use(f(meta, m.t_obs, axis=axis, latent=part))
    elif fault == 'axis':
        bad = lambda: use(f(meta, m.t_obs, axis=None, **{net: q}))
    else:
        one = vi.Model(dict(case['vi'], S=1, dyn=case['dyn']))
        one.tf_params(tf)
        q1 = one.variational(tf, zs, False)

        def bad():
            o = f(one.meta(tf, zs, 'meta'), one.t_obs, axis=one.api_axis,
                  variational=q1)
            return sess.run(o.vimco())
        exc = (ValueError, tf.errors.InvalidArgumentError)
    refused(bad, exc, case)
    good = f(meta, m.t_obs, axis=axis, **{net: q})
    v = sess.run(use(good))
    require(np.isfinite(v).all(), '%s after a refused call: %r', what, v)


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    part = sampler_case if case['what'] in SAMPLERS else objective_case
    with fresh_graph(case['tseed']) as g, \
            session(g, optimize=False) as sess:
        done = part(tf, zs, case, sess)
    return Info(done is not False, [case['what'], case['fault']])


SUBCHECKS = [Sub('misuse', strategy, check, strata=SAMPLERS + OBJ)]
