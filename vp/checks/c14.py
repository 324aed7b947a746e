"""C14: the gradient estimators give the gradient they are named for.

Every cost is differentiated by TensorFlow wrt variational and model
parameters at the drawn samples and compared with finite differences of the
plain numpy definition; for discrete latents the estimators are also averaged
over every joint outcome and compared with the derivative of the exact
objective (unbiasedness)."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import special as sp

from vp import gen, sched, vi
from vp.core import (Info, Sub, Violation, close, fresh_graph, require,
                     session)

SGVB = ('elbo.sgvb', 'iw.sgvb')
SCORE = ('reinforce', 'reinforce-vr', 'reinforce-baseline', 'vimco',
         'importance', 'elbo-theta')


@st.composite
def strategy(draw):
    est = draw(st.sampled_from(SGVB + SCORE))
    multi = est in ('iw.sgvb', 'vimco')
    lay = ['S', 'Sn', 'nS', 'nsamp'] if est == 'vimco' else None
    c = draw(vi.model_case(
        kinds=('normal', 'laplace') if est in SGVB else vi.KINDS,
        layouts=lay or (['S', 'Sn', 'nS', 'SSn', 'nsamp'] if multi or
                        est == 'importance' else None),
        smin=2 if est == 'vimco' else 1, nmax=2, dmax=2))
    c['est'] = est
    c['how'] = draw(st.sampled_from(['meta', 'fn']))
    c['sched'] = draw(st.one_of(st.none(), st.integers(0, 10 ** 6))) \
        if est.startswith('reinforce') else None
    c['steps'] = draw(st.integers(1, 3)) if est.startswith(
        'reinforce-') else 1
    c['decay'] = draw(st.sampled_from([.8, .8, .3, .95]))
    c['alias'] = draw(st.booleans())
    c['neg'] = draw(st.booleans())
    c['dyn'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['shared'] = draw(st.sampled_from([0, 0, 1, 2, 3, 7, 9, 11, 15]))
    c['bshape'] = draw(st.sampled_from(['full', 'batch', 'scalar']))
    return c


def build(tf, zs, m, case, q, meta):
    v = zs.variational
    obs = {'x': m.t_x}
    est = case['est']
    if est == 'elbo.sgvb':
        return v.elbo(meta, obs, axis=m.api_axis, variational=q).sgvb()
    if est == 'elbo-theta':
        return -v.elbo(meta, obs, axis=m.api_axis, variational=q)
    if est == 'iw.sgvb':
        return v.importance_weighted_objective(
            meta, obs, axis=m.api_axis, variational=q).sgvb()
    if est == 'reinforce':
        return v.elbo(meta, obs, axis=m.api_axis, variational=q).reinforce(
            variance_reduction=False)
    if est == 'reinforce-vr':
        return v.elbo(meta, obs, axis=m.api_axis, variational=q).reinforce(
            **({} if case['decay'] == .8 else {'decay': case['decay']}))
    if est == 'reinforce-baseline':
        return v.elbo(meta, obs, axis=m.api_axis, variational=q).reinforce(
            baseline=m.t_base, decay=case['decay'])
    if est == 'vimco':
        return v.importance_weighted_objective(
            meta, obs, axis=m.api_axis, variational=q).vimco()
    o = v.klpq(meta, obs, axis=m.api_axis, variational=q)
    return o.rws() if case['alias'] else o.importance()


def wmean(w, m):
    """sum over the free axes of the mean over the sample axis."""
    return np.sum(vi.mean(w, m.axis))


def vimco_signal(lw, axis):
    lw = np.moveaxis(lw, axis, 0)
    K = lw.shape[0]
    full = sp.logsumexp(lw, 0) - np.log(K)
    out = np.zeros_like(lw)
    for k in range(K):
        rest = np.delete(lw, k, 0).mean(0)
        alt = lw.copy()
        alt[k] = rest
        out[k] = full - (sp.logsumexp(alt, 0) - np.log(K))
    return np.moveaxis(out, 0, axis)


def expected(m, case, z, used_mean=0., base=0.):
    """gradients of the cost wrt phi and theta (None: not judged)."""
    est = case['est']
    lw = m.logp(z) - m.logq(z)
    if est == 'elbo.sgvb':
        path = m.pathwise(z)

        def f(phi):
            zz = path(phi)
            return -wmean(m.logp(zz) - m.logq(zz, phi), m)
        return vi.fd(f, m.phi), vi.fd(
            lambda t: -wmean(m.logp(z, t), m), m.theta)
    if est == 'iw.sgvb':
        path = m.pathwise(z)

        def f(phi):
            zz = path(phi)
            return -np.sum(vi.lme(m.logp(zz) - m.logq(zz, phi), m.axis))
        return vi.fd(f, m.phi), vi.fd(lambda t: -np.sum(vi.lme(
            m.logp(z, t) - m.logq(z), m.axis)), m.theta)
    if est == 'elbo-theta':
        return None, vi.fd(lambda t: -wmean(m.logp(z, t), m), m.theta)
    if est.startswith('reinforce'):
        sig = lw - base - used_mean
        return vi.fd(lambda p: -wmean(sig * m.logq(z, p), m), m.phi), \
            vi.fd(lambda t: -wmean(m.logp(z, t), m), m.theta)
    if est == 'vimco':
        sig = vimco_signal(lw, m.axis)

        def f(phi):
            lq = m.logq(z, phi)
            return -np.sum(sig * lq) - np.sum(
                vi.lme(m.logp(z) - lq, m.axis))
        return vi.fd(f, m.phi), vi.fd(lambda t: -np.sum(vi.lme(
            m.logp(z, t) - m.logq(z), m.axis)), m.theta)
    ax = m.axis
    if ax is None:
        w = np.ones_like(lw)
    else:
        ax = tuple(ax) if isinstance(ax, list) else ax
        w = np.exp(lw - sp.logsumexp(lw, ax, keepdims=True))
    return vi.fd(lambda p: -np.sum(w * m.logq(z, p)), m.phi), None


def check(case):
    try:
        return check_estimators(case)
    except vi.Kink:
        return Info(False, ['no derivative at the sample'])


def check_estimators(case):
    import tensorflow as tf
    import zhusuan as zs
    m = vi.Model(case)
    est = case['est']
    with fresh_graph(case['seed'] % 99991) as g, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.tf_params(tf)
        base = 0.
        if est == 'reinforce-baseline':
            base = np.asarray(m.r.normal(size={
                'full': m.lead, 'batch': m.lead[-1:], 'scalar': ()}[
                    case['bshape']]))
            m.t_base = tf.constant(base)
        q = m.variational(tf, zs, est in SGVB)
        meta = m.meta(tf, zs, case['how'])
        cost = build(tf, zs, m, case, q, meta)
        bcost = None
        if est == 'reinforce-baseline':
            require(isinstance(cost, tuple) and len(cost) == 2,
                    'reinforce with a baseline must return two costs')
            cost, bcost = cost
        gphi = tf.gradients(cost, m.t_phi)
        gth = tf.gradients(cost, m.t_theta)
        fz = lambda gs, ps: [tf.zeros_like(p) if x is None else x
                             for x, p in zip(gs, ps)]
        outs = {'z': [z.tensor for z in m.t_z],
                'phi': fz(gphi, m.t_phi), 'theta': fz(gth, m.t_theta)}
        if bcost is not None:
            outs['b'] = bcost
            outs['gb'] = tf.gradients(bcost, m.t_base)[0]
            require(all(x is None for x in tf.gradients(
                bcost, m.t_phi + m.t_theta)),
                'the baseline cost trains other parameters')
        mm = [x for x in tf.global_variables() if 'moving_mean' in x.op.name
              and x.op.name.endswith('moving_mean')]
        mm = [sched.peek(tf, x) for x in mm]
        init = tf.global_variables_initializer()
        if case.get('sched') is not None:
            sched.impose(outs, [init, mm], case['sched'])
        with session(g) as sess:
            sess.run(init)
            signals, used = [], 0.
            for step in range(case['steps']):
                before = sess.run(mm)
                r = sess.run(outs)
                after = sess.run(mm)
                z = [np.asarray(x, np.float64) for x in r['z']]
                lw = m.logp(z) - m.logq(z)
                if est in ('reinforce-vr', 'reinforce-baseline'):
                    used = mean_used(before, after, lw - base, signals,
                                     case['decay'])
                wphi, wth = expected(m, case, z, used, base)
                sc = 1 + np.abs(lw).max()
                if wphi is not None:
                    for i, (a, b) in enumerate(zip(r['phi'], wphi)):
                        close(a, b, 2e-6 * (sc + np.abs(b).max()) * (
                            1 + np.abs(lw).max()),
                            '%s: gradient wrt variational parameter %d '
                            '(step %d)' % (est, i, step))
                if wth is not None:
                    for i, (a, b) in enumerate(zip(r['theta'], wth)):
                        close(a, b, 2e-6 * (sc + np.abs(b).max()),
                              '%s: gradient wrt model parameter %d' %
                              (est, i))
                if bcost is not None:
                    bc = vi.mean(.5 * (lw - base) ** 2, m.axis)
                    close(r['b'], bc, 1e-8 * (1 + np.abs(bc).max()),
                          'baseline cost')
                    gb = vi.fd(lambda b: np.sum(vi.mean(
                        .5 * (lw - b[0]) ** 2, m.axis)),
                        [np.asarray(base, np.float64)])[0]
                    close(r['gb'], gb, 1e-5 * (1 + np.abs(gb).max()),
                          'baseline gradient')
    return Info(np.prod(m.lead) > 1, [est, 'layout ' + case['layout']] +
                sorted(set(m.kinds)))


def mean_used(before, after, sig, signals, decay):
    """The moving mean that must have been subtracted: an average of the
    earlier signals only (0 if there are none)."""
    n = len(signals)
    raw = sum(s * decay ** (n - 1 - i) * (1 - decay)
              for i, s in enumerate(signals))
    deb = raw / (1 - decay ** n) if n else 0.
    if len(before) == 1:
        b = float(before[0])
        ok = [w for w in (raw, deb) if abs(b - w) <= 1e-7 * (1 + abs(w))]
        require(ok, 'moving mean of the learning signal is %r; the '
                'exponential moving average of the %d signals so far is %r '
                '(bias corrected %r)', b, n, raw, deb)
        raw = deb = b
    signals.append(float(np.mean(sig)))
    return deb


@st.composite
def enum_strategy(draw):
    est = draw(st.sampled_from(['reinforce', 'reinforce-baseline', 'vimco',
                                'reinforce-vr']))
    c = draw(vi.model_case(kinds=('bernoulli', 'onehot'), layouts=['Sn'],
                           dmax=2, smin=2 if est == 'vimco' else 1,
                           smax=3 if est == 'vimco' else 2, nmax=1))
    c['est'] = est
    c['n'] = 1
    c['how'], c['alias'], c['decay'] = 'meta', False, .8
    c['bshape'] = 'scalar'
    if len(c['latents']) == 2:
        c['d'] = 2 if 'onehot' in c['latents'] else 1
        c['S'] = 2
    return c


def check_enum(case):
    import tensorflow as tf
    import zhusuan as zs
    m = vi.Model(case)
    K = case['S']
    cfg = m.configs()
    if len(cfg) ** K > 70:
        return Info(False, ['too many outcomes'])
    one = vi.Model(dict(case, S=len(cfg)))
    zz = [np.stack([c[i] for c in cfg])[:, None, :] for i in range(m.npar)]
    combos = list(itertools.product(range(len(cfg)), repeat=K))
    lp = one.logp(zz)[:, 0]

    def objective(phi):
        lq = one.logq(zz, phi)[:, 0]
        if case['est'] == 'vimco':
            w = lp - lq
            return -sum(np.exp(sum(lq[j] for j in c)) * (
                sp.logsumexp([w[j] for j in c]) - np.log(K))
                for c in combos)
        return -np.sum(np.exp(lq) * (lp - lq))
    want = vi.fd(objective, m.phi)
    with fresh_graph(1) as g:
        m.tf_params(tf)
        m.t_base = tf.constant(float(m.r.normal()), tf.float64)
        q = m.variational(tf, zs, False)
        cost = build(tf, zs, m, case, q, m.meta(tf, zs, 'meta'))
        if isinstance(cost, tuple):
            cost = cost[0]
        gr = tf.gradients(cost, m.t_phi)
        lq = one.logq(zz)[:, 0]
        tot = [np.zeros(p.shape) for p in m.phi]
        with session(g) as sess:
            init = tf.global_variables_initializer()
            feeds = [z.tensor for z in m.t_z]
            sess.run(init)
            f = sess.make_callable(gr, feeds)
            fi = sess.make_callable(init)
            reset = case['est'].startswith('reinforce-')
            for c in combos:
                if reset:
                    # the same moving mean for every outcome
                    fi()
                w = float(np.exp(sum(lq[j] for j in c)))
                v = f(*[np.stack([cfg[j][i] for j in c])[:, None, :]
                        for i in range(m.npar)])
                tot = [a + w * b for a, b in zip(tot, v)]
    for i, (a, b) in enumerate(zip(tot, want)):
        close(a, b, 1e-5 * (1 + np.abs(b).max()), '%s is biased: expected '
              'gradient wrt parameter %d' % (case['est'], i))
    return Info(len(combos) > 2, [case['est'], 'K=%d' % K])


@st.composite
def single_strategy(draw):
    return {'dyn': draw(st.booleans()), 'n': draw(st.integers(1, 3)),
            'axis': draw(st.integers(0, 1))}


def check_single(case):
    """VIMCO with a single sample has no control variate: refused."""
    import tensorflow as tf
    import zhusuan as zs
    with fresh_graph(1) as g:
        shape = (1, case['n']) if case['axis'] == 0 else (case['n'], 1)
        p = tf.constant(np.zeros(shape, 'float32'))
        if case['dyn']:
            p = tf.placeholder_with_default(p, [None, None])
        q = zs.BayesianNet()
        q.bernoulli('z', p, dtype=tf.float32)
        o = zs.variational.importance_weighted_objective(
            lambda d: tf.identity(d['z']), {}, variational=q,
            axis=case['axis'])
        try:
            c = o.vimco()
            with session(g, optimize=False) as sess:
                sess.run(c)
        except (ValueError, tf.errors.InvalidArgumentError):
            return Info(True, ['dynamic' if case['dyn'] else 'static'])
        raise Violation('vimco accepted a single sample')


SUBCHECKS = [Sub('estimators', strategy, check),
             Sub('unbiased', enum_strategy, check_enum),
             Sub('single', single_strategy, check_single)]
