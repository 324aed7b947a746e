"""C05: results do not depend on how much is known about shapes statically.

The same numbers are computed once from constants and once from placeholders
of unknown rank / rank only / partially known shape; both must agree with each
other and with the reference.
"""
import numpy as np
from hypothesis import strategies as st

from vp import dists, gen
from vp.checks.c03 import MODE, placeholder
from vp.core import Info, Sub, close, fresh_graph, require, session


def check(case):
    import tensorflow as tf
    import zhusuan.distributions as zd
    inst = dists.Inst(case)
    gb = gen.given_batch(inst.batch, case['given'], inst.name)
    given = inst.given(case['given']['seed'], gb)
    lp, sc = inst.logpdf(given)
    gn = case['gn']
    axes = tuple(range(lp.ndim - gn, lp.ndim))
    lp, sc = lp.sum(axes), sc.sum(axes)
    feed = {}
    modes = dict(zip(sorted(inst.params), case['modes']))
    with fresh_graph(case['seed'] % 1000) as g, session(g) as sess:
        extra = {'group_ndims': gn}
        if case['gn_ph']:
            extra['group_ndims'] = tf.placeholder(
                tf.int32, [] if case['gn_ph'] == 1 else None)
            feed[extra['group_ndims']] = gn
        if case['nexp_ph'] and inst.kwargs.get('n_experiments') is not None:
            extra['n_experiments'] = tf.placeholder(
                tf.int32, [] if case['nexp_ph'] == 1 else None)
            feed[extra['n_experiments']] = inst.kwargs['n_experiments']
        dyn = inst.build(zd, lambda n, a: placeholder(tf, a, modes[n], feed),
                         **extra)
        sta = inst.build(zd, group_ndims=gn)
        gt = placeholder(tf, given, case['gmode'], feed)
        gc = tf.constant(given)
        fetch = {'dyn': dyn.log_prob(gt), 'sta': sta.log_prob(gc),
                 'dynp': dyn.prob(gt), 'stap': sta.prob(gc),
                 'b1': dyn.batch_shape, 'v1': dyn.value_shape}
        canon = inst.name != 'UnnormalizedMultinomial' and not (
            inst.name == 'Multinomial' and case['n_exp'] is None)
        if canon:
            ns = case['n']
            if case['ns_ph']:
                ns = tf.placeholder(tf.int32,
                                    [] if case['ns_ph'] == 1 else None)
                feed[ns] = case['n']
            fetch['s'] = dyn.sample(ns)
            fetch['s1'] = dyn.sample()
        out = sess.run(fetch, feed)
    nm = inst.name
    require(tuple(out['b1']) == inst.batch, '%s: dynamic batch_shape %s, '
            'expected %s', nm, out['b1'], inst.batch)
    require(tuple(out['v1']) == inst.value_shape, '%s: dynamic value_shape '
            '%s, expected %s', nm, out['v1'], inst.value_shape)
    tol = inst.tol(sc)
    close(out['sta'], lp, tol, nm + ' log_prob from constants')
    close(out['dyn'], lp, tol, nm + ' log_prob from placeholders')
    close(out['dyn'], np.asarray(out['sta'], np.float64), tol,
          nm + ' log_prob, placeholders vs constants')
    a, b = (np.asarray(out[k], np.float64) for k in ('dynp', 'stap'))
    require(a.shape == b.shape, '%s prob shape differs: %s vs %s', nm,
            a.shape, b.shape)
    with np.errstate(all='ignore'):
        ok = (np.abs(a - b) <= np.expm1(np.minimum(2 * tol, 20)) * np.abs(b)
              + np.finfo(inst.dtype).tiny * 8.) | (a == b)
        ok |= lp > np.log(float(np.finfo(inst.dtype).max)) - 1 - tol
        ok |= ~np.isfinite(a) & ~np.isfinite(b)
    require(ok.all(), '%s prob differs between placeholders and constants: '
            '%s vs %s', nm, a, b)
    if canon:
        want = inst.batch + inst.value_shape
        require(out['s'].shape == (case['n'],) + want, '%s: sample shape %s '
                'from placeholders, expected %s', nm, out['s'].shape,
                (case['n'],) + want)
        require(out['s1'].shape == want, '%s: single sample shape %s from '
                'placeholders, expected %s', nm, out['s1'].shape, want)
        from vp.checks.c02 import support
        support(inst, out['s'].astype(np.float64))
        support(inst, out['s1'][None].astype(np.float64))
    m = [modes[k] for k in modes]
    labels = [nm]
    if 1 in m:
        labels.append('param of unknown rank')
    if case['gmode'] == 1:
        labels.append('given of unknown rank')
    if any(x >= 2 for x in m):
        labels.append('param partially known')
    if case['gn_ph']:
        labels.append('group_ndims placeholder')
    return Info(any(m) or case['gmode'] or case['gn_ph'], labels)


@st.composite
def strategy(draw, names):
    c = draw(gen.dist_case(names=names, max_size=48, regimes=('mid',)))
    if c.get('n_exp'):
        c['n_exp'] = min(c['n_exp'], 12)
    c['given'] = draw(gen.given_shape())
    mode = st.one_of(st.just(0), st.just(1), st.just(2), st.integers(3, 31))
    c['modes'] = draw(st.lists(mode, min_size=3, max_size=3))
    c['gmode'] = draw(mode)
    c['gn'] = draw(st.integers(0, len(dists.Inst(c).batch)))
    c['gn_ph'] = draw(st.integers(0, 2))
    c['nexp_ph'] = draw(st.integers(0, 2))
    c['ns_ph'] = draw(st.integers(0, 2))
    c['n'] = draw(st.integers(1, 4))
    return c


SUBCHECKS = [
    Sub('univariate', lambda: strategy(dists.UNI), check, strata=dists.UNI),
    Sub('multivariate', lambda: strategy(dists.MULTI), check,
        strata=dists.MULTI),
]
