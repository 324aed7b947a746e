"""C03: shape and dtype algebra of samples and (log-)probabilities."""
import numpy as np
from hypothesis import strategies as st

from vp import dists, gen
from vp.core import Info, Sub, fresh_graph, require, session


def compatible(static, actual, what):
    """Whatever static information is advertised must be true."""
    if static.ndims is None:
        return
    sl = static.as_list()
    require(len(sl) == len(actual) and all(
        a is None or a == b for a, b in zip(sl, actual)),
        '%s: static shape %s but the value has shape %s', what, sl, actual)


def placeholder(tf, a, mode, feed):
    """mode: 0 constant, 1 unknown rank, 2 rank only, 3+ bitmask of unknown
    dimensions."""
    if mode == 0:
        return tf.constant(a)
    if mode == 1:
        shape = None
    elif mode == 2:
        shape = [None] * a.ndim
    else:
        shape = [None if (mode >> i) & 1 else d for i, d in enumerate(a.shape)]
    ph = tf.placeholder(a.dtype, shape)
    feed[ph] = a
    return ph


def check(case):
    import tensorflow as tf
    import zhusuan.distributions as zd
    inst = dists.Inst(case)
    gb = gen.given_batch(inst.batch, case['given'], inst.name)
    given = inst.given(case['given']['seed'], gb)
    feed = {}
    modes = dict(zip(sorted(inst.params), case['modes']))
    gn = case['gn']
    with fresh_graph(case['seed'] % 1000) as g, session(g) as sess:
        d = inst.build(zd, lambda n, a: placeholder(tf, a, modes[n], feed),
                       group_ndims=gn)
        dt = getattr(tf, inst.vdtype)
        pdt = getattr(tf, inst.dtype)
        require(d.dtype == dt, '%s.dtype is %s, expected %s', inst.name,
                d.dtype, dt)
        require(d.param_dtype == pdt, '%s.param_dtype is %s, expected %s',
                inst.name, d.param_dtype, pdt)
        require(d.is_continuous == (inst.name not in dists.DISCRETE),
                '%s.is_continuous is %s', inst.name, d.is_continuous)
        require(d.is_reparameterized == (inst.name in dists.REPARAM),
                '%s.is_reparameterized is %s', inst.name,
                d.is_reparameterized)
        gt = placeholder(tf, given, case['gmode'], feed)
        fetch = {'batch': d.batch_shape, 'value': d.value_shape,
                 'lp': d.log_prob(gt), 'p': d.prob(gt)}
        ns = case['ns']
        if inst.name != 'UnnormalizedMultinomial' and not (
                inst.name == 'Multinomial' and case['n_exp'] is None):
            if ns['kind'] == 'none':
                fetch['s'] = d.sample()
            elif ns['kind'] == 'int':
                fetch['s'] = d.sample(ns['n'])
            elif ns['kind'] == 'const':
                fetch['s'] = d.sample(tf.constant(ns['n']))
            else:
                ph = tf.placeholder(tf.int32,
                                    [] if ns['kind'] == 'scalar' else None)
                feed[ph] = ns['n']
                fetch['s'] = d.sample(ph)
            if case.get('self_lp'):
                fetch['slp'] = d.log_prob(fetch['s'])
        out = sess.run(fetch, feed)
        nm = inst.name
        require(tuple(out['batch']) == inst.batch, '%s.batch_shape is %s, '
                'expected %s', nm, out['batch'], inst.batch)
        require(tuple(out['value']) == inst.value_shape, '%s.value_shape is '
                '%s, expected %s', nm, out['value'], inst.value_shape)
        compatible(d.get_batch_shape(), inst.batch, nm + '.get_batch_shape')
        compatible(d.get_value_shape(), inst.value_shape,
                   nm + '.get_value_shape')
        if all(m == 0 for m in modes.values()):
            require(d.get_batch_shape().is_fully_defined() and
                    d.get_value_shape().is_fully_defined(),
                    '%s: static shapes unknown for constant parameters', nm)
        lead = np.broadcast_shapes(gb, inst.batch)
        want = lead[:len(lead) - gn]
        for k, f in (('lp', 'log_prob'), ('p', 'prob')):
            require(out[k].shape == want, '%s.%s has shape %s, expected %s '
                    '(given %s, batch %s, group_ndims %d)', nm, f,
                    out[k].shape, want, given.shape, inst.batch, gn)
            require(str(out[k].dtype) == inst.dtype, '%s.%s has dtype %s, '
                    'expected %s', nm, f, out[k].dtype, inst.dtype)
            compatible(fetch[k].get_shape(), out[k].shape, nm + '.' + f)
        if 's' in out:
            pre = () if ns['kind'] == 'none' else (ns['n'],)
            want = pre + inst.batch + inst.value_shape
            require(out['s'].shape == want, '%s.sample(%s) has shape %s, '
                    'expected %s', nm, ns, out['s'].shape, want)
            require(str(out['s'].dtype) == inst.vdtype, '%s.sample has dtype '
                    '%s, expected %s', nm, out['s'].dtype, inst.vdtype)
            compatible(fetch['s'].get_shape(), out['s'].shape, nm + '.sample')
            if 'slp' in out:
                want = pre + inst.batch[:len(inst.batch) - gn]
                require(out['slp'].shape == want, '%s.log_prob(sample) has '
                        'shape %s, expected %s', nm, out['slp'].shape, want)
    labels = [inst.name, 'dynamic' if any(modes.values()) else 'static',
              'n_samples ' + ns['kind'], 'group_ndims %d' % gn,
              'rank%d' % len(inst.batch)]
    return Info(bool(inst.batch) or bool(inst.value_shape) or gb != (),
                labels)


MODE = st.one_of(st.just(0), st.integers(1, 2), st.integers(3, 31),
                 st.integers(3, 31))


@st.composite
def strategy(draw, names):
    c = draw(gen.dist_case(names=names, max_size=48, regimes=('mid',)))
    if c['dist'] == 'Multinomial' and 'n_exp' in c and c['n_exp']:
        c['n_exp'] = min(c['n_exp'], 12)
    c['given'] = draw(gen.given_shape())
    c['modes'] = draw(st.one_of(st.just([0, 0, 0]),
                                st.lists(MODE, min_size=3, max_size=3),
                                st.lists(MODE, min_size=3, max_size=3)))
    c['gmode'] = draw(MODE)
    nb = len(dists.Inst(c).batch)
    c['gn'] = draw(st.integers(0, nb))
    kind = draw(st.sampled_from(['none', 'int', 'const', 'scalar', 'ph']))
    c['ns'] = {'kind': kind, 'n': draw(st.integers(1, 5))}
    room = 5 - gen.inner_rank(c['dist']) - nb
    c['self_lp'] = room >= 1 and draw(st.booleans())
    return c


SUBCHECKS = [
    Sub('univariate', lambda: strategy(dists.UNI), check, strata=dists.UNI),
    Sub('multivariate', lambda: strategy(dists.MULTI), check,
        strata=dists.MULTI),
]
