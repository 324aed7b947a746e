"""C01: log_prob / prob equal the documented density, element by element."""
import numpy as np
from hypothesis import strategies as st

from vp import dists, gen
from vp.core import Info, Sub, close, fresh_graph, require, session


def prob_check(inst, got, lp, tol, what):
    fi = np.finfo(inst.dtype)
    hi, lo = float(np.log(float(fi.max))), float(np.log(float(fi.tiny)))
    with np.errstate(all='ignore'):
        want = np.exp(lp)
        err = want * np.expm1(np.minimum(tol, 50.)) + 8 * want * float(fi.eps)
    got = np.asarray(got, np.float64)
    require(got.shape == want.shape, '%s: shape %s expected %s', what,
            got.shape, want.shape)
    ok = np.abs(got - want) <= err + 4 * float(fi.tiny)
    ok |= (lp + tol >= hi)                   # overflows in this dtype
    ok |= (lp - tol <= lo + 2) & (got <= np.exp(np.minimum(lo + 4, 0)))
    if not ok.all():
        i = tuple(int(j) for j in np.argwhere(~ok)[0])
        require(False, '%s: at %s prob %r, expected %r', what, i, got[i],
                want[i])


def check(case):
    import tensorflow as tf
    import zhusuan.distributions as zd
    inst = dists.Inst(case)
    gb = gen.given_batch(inst.batch, case['given'], inst.name)
    outside = bool(case.get('outside'))
    given = inst.given(case['given']['seed'], gb, outside)
    lp, sc = inst.logpdf(given)
    extra = {}
    if case.get('cn') and inst.name in dists.HAS_CHECK_NUMERICS:
        # with numerics checking on, finite cases must behave identically
        if np.all(np.isfinite(lp)):
            extra['check_numerics'] = True
    with fresh_graph(case['seed'] % 1000) as g, session(g) as sess:
        d = inst.build(zd, **extra)
        gt = tf.constant(given) if case.get('as_tensor', True) else given
        got_lp, got_p = sess.run([d.log_prob(gt), d.prob(gt)])
    tol = inst.tol(sc)
    close(got_lp, lp, tol, inst.name + '.log_prob')
    prob_check(inst, got_p, lp, tol, inst.name + '.prob')
    nontrivial = bool(lp.size) and bool(np.isfinite(lp).any())
    labels = [inst.name, inst.dtype, case['regime'],
              'rank%d' % len(inst.batch)]
    if case.get('big'):
        labels.append('big')
    if gb != inst.batch:
        labels.append('given broadcast')
    if case.get('far'):
        labels.append('far tail')
    if outside and not np.isfinite(lp).all():
        labels.append('outside support')
    return Info(nontrivial, labels)


@st.composite
def strategy(draw, names=dists.ALL):
    c = draw(gen.dist_case(names=names, kmax=12, big=True, regimes=(
        'mid', 'mid', 'mid', 'wide', 'wide', 'tiny', 'extreme')))
    c['given'] = draw(gen.given_shape())
    c['as_tensor'] = draw(st.sampled_from([True, True, True, False]))
    c['cn'] = draw(st.booleans())
    c['far'] = draw(st.sampled_from([False, False, True]))
    if c['dist'] in ('Uniform', 'FoldNormal', 'Poisson', 'Binomial'):
        c['outside'] = draw(st.booleans())
    return c


@st.composite
def mass_strategy(draw, grouped=False):
    """The point mass of the legacy Implicit distribution."""
    shape = draw(st.lists(st.integers(1, 4), min_size=int(grouped),
                          max_size=3))
    kind = draw(st.sampled_from(['same', 'same', 'row', 'scalar', 'lead']))
    return {'shape': shape, 'kind': kind,
            'dtype': draw(st.sampled_from(['int32', 'int64', 'float32',
                                           'float64'])),
            'equal': draw(st.sampled_from(['all', 'all', 'none', 'some'])),
            'gn': draw(st.integers(1, len(shape))) if grouped else 0,
            'gtensor': draw(st.booleans()),
            'seed': draw(gen.SEED)}


def mass_check(case):
    import tensorflow as tf
    from zhusuan.legacy.distributions.special import Implicit
    r = np.random.RandomState(case['seed'] % (2 ** 31))
    shape, gn = tuple(case['shape']), case['gn']
    at = r.randint(-3, 4, size=shape).astype(case['dtype'])
    gshape = {'same': shape, 'row': shape[-1:], 'scalar': (),
              'lead': (2,) + shape}[case['kind']]
    if case['equal'] == 'none':
        given = np.full(gshape, 9, case['dtype'])
    elif case['kind'] in ('row', 'scalar') and case['equal'] == 'all':
        at = np.zeros(shape, case['dtype'])
        given = np.zeros(gshape, case['dtype'])
    else:
        given = np.broadcast_to(at, gshape).copy() if case['kind'] in (
            'same', 'lead') else np.ones(gshape, case['dtype'])
        if case['equal'] == 'some':
            given = np.where(r.rand(*gshape) < .3, given + 1, given).astype(
                case['dtype'])
    eq = given == at
    cont = case['dtype'].startswith('float')
    p = np.where(eq, np.inf if cont else 1., 0.)
    axes = tuple(range(p.ndim - gn, p.ndim))
    with np.errstate(all='ignore'):
        want_p, want_l = p.prod(axes), np.log(p).sum(axes)
    with fresh_graph(1) as g, session(g) as sess:
        d = Implicit(tf.constant(at), value_shape=(),
                     group_ndims=tf.constant(gn) if case['gtensor'] else gn)
        got_l, got_p = sess.run([d.log_prob(given), d.prob(given)])
    for got, want, what in ((got_p, want_p, 'prob'),
                            (got_l, want_l, 'log_prob')):
        got = np.asarray(got, np.float64)
        require(got.shape == want.shape, 'Implicit.%s with group_ndims=%d has '
                'shape %s, expected %s', what, gn, got.shape, want.shape)
        # inf * 0 is not determined
        ok = np.isnan(want) | (got == want)
        require(bool(np.all(ok)), 'Implicit.%s is %r, expected %r', what,
                got.tolist(), want.tolist())
    return Info(not np.isnan(want_l).all(), ['Implicit', case['equal'],
                                             case['kind']])


def _fam(names):
    return lambda: strategy(names=names)


SUBCHECKS = [
    Sub('univariate', _fam(dists.UNI), check, strata=dists.UNI),
    Sub('multivariate', _fam(dists.MULTI), check, strata=dists.MULTI),
    Sub('pointmass', mass_strategy, mass_check),
]
