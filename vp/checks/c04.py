"""C04: group_ndims sums log_prob / multiplies prob over trailing batch axes."""
import numpy as np
from hypothesis import strategies as st

from vp import dists, gen
from vp.checks.c01 import mass_check, mass_strategy, prob_check
from vp.core import Info, Sub, close, fresh_graph, require, session


def check(case):
    import tensorflow as tf
    import zhusuan.distributions as zd
    inst = dists.Inst(case)
    gb = gen.given_batch(inst.batch, case['given'], inst.name)
    given = inst.given(case['given']['seed'], gb, case.get('outside', False))
    lp, sc = inst.logpdf(given)
    gn = case['gn']
    feed = {}
    with fresh_graph(case['seed'] % 1000) as g, session(g) as sess:
        kind = case['gkind']
        if kind == 'int':
            gnv = gn
        elif kind == 'np':
            gnv = np.int32(gn)
        elif kind == 'const':
            gnv = tf.constant(gn, tf.int32)
        else:
            gnv = tf.placeholder(tf.int32, [] if kind == 'scalar' else None)
            feed[gnv] = gn
        d = inst.build(zd, group_ndims=gnv)
        gt = tf.constant(given)
        out = sess.run({'lp': d.log_prob(gt), 'p': d.prob(gt),
                        'b': d.batch_shape}, feed)
        if kind == 'int':
            require(d.group_ndims == gn, 'group_ndims property is %r',
                    d.group_ndims)
        else:
            got = sess.run(tf.convert_to_tensor(d.group_ndims), feed)
            require(int(got) == gn, 'group_ndims property is %r, not %d',
                    got, gn)
    require(tuple(out['b']) == inst.batch, '%s: group_ndims changed '
            'batch_shape to %s', inst.name, out['b'])
    axes = tuple(range(lp.ndim - gn, lp.ndim))
    want, wsc = lp.sum(axes), sc.sum(axes)
    close(out['lp'], want, inst.tol(wsc), '%s.log_prob with group_ndims=%d '
          '(%s)' % (inst.name, gn, kind))
    # prob: product of the element probabilities.  Only judged where no
    # partial product can leave the range of the dtype.
    fi = np.finfo(inst.dtype)
    hi, lo = np.log(float(fi.max)), np.log(float(fi.tiny))
    with np.errstate(invalid='ignore'):
        pos = np.where(lp > 0, lp, 0.).sum(axes)
        neg = np.where(lp < 0, lp, 0.).sum(axes)
    safe = (pos + 1 < hi) & (neg - 1 > lo)
    got = np.asarray(out['p'], np.float64)
    require(got.shape == want.shape, '%s.prob with group_ndims=%d: shape %s, '
            'expected %s', inst.name, gn, got.shape, want.shape)
    if safe.any():
        prob_check(inst, got[safe], want[safe], inst.tol(wsc)[safe],
                   '%s.prob with group_ndims=%d (%s)' % (inst.name, gn, kind))
    n = int(np.prod(lp.shape[lp.ndim - gn:])) if gn else 1
    return Info(gn > 0 and n > 1 and bool(np.isfinite(want).any()),
                [inst.name, 'group_ndims %d' % gn, kind])


@st.composite
def strategy(draw, names):
    c = draw(gen.dist_case(names=names, max_size=48, min_rank=1,
                           regimes=('mid', 'mid', 'wide', 'tiny')))
    c['given'] = draw(gen.given_shape())
    nb = len(dists.Inst(c).batch)
    c['gn'] = draw(st.integers(min(1, nb), nb) | st.integers(0, nb))
    c['gkind'] = draw(st.sampled_from(['int', 'int', 'np', 'const', 'scalar',
                                       'ph']))
    if c['dist'] in ('Uniform', 'FoldNormal'):
        c['outside'] = draw(st.sampled_from([False, False, True]))
    return c


SUBCHECKS = [
    Sub('univariate', lambda: strategy(dists.UNI), check, strata=dists.UNI),
    Sub('multivariate', lambda: strategy(dists.MULTI), check,
        strata=dists.MULTI),
    Sub('pointmass', lambda: mass_strategy(grouped=True), mass_check),
]
