"""C20: the numeric helpers (log_mean_exp, log_sum_exp, log_combination,
merge_dicts, broadcasting and shape helpers) compute what they are named for,
without overflow, for every axis specification and static shape knowledge."""
import numpy as np
from hypothesis import strategies as st
from scipy import special as sp

from vp import gen
from vp.core import (Info, Sub, Violation, close, fresh_graph, require,
                     rng_of, session)

SCALES = ('unit', 'mid', 'huge', 'neg', 'pos', 'mixed', 'inf')


@st.composite
def lme_strategy(draw):
    shape = draw(gen.dims(max_rank=4, max_size=48))
    r = len(shape)
    ax = draw(st.one_of(
        st.none(),
        st.integers(-r, r - 1) if r else st.none(),
        st.lists(st.integers(0, r - 1), unique=True, min_size=0,
                 max_size=r) if r else st.none()))
    return {'shape': shape, 'axis': ax,
            'axis_as': draw(st.sampled_from(['list', 'tuple', 'neglist'])),
            'keep': draw(st.sampled_from([None, True, False])),
            'dtype': draw(st.sampled_from(['float32', 'float32', 'float64',
                                           'float16'])),
            'scale': draw(st.sampled_from(SCALES)),
            'static': draw(st.sampled_from(['const', 'numpy', 'ph', 'phnone',
                                            'list'])),
            'fn': draw(st.sampled_from(['mean', 'mean', 'sum'])),
            'seed': draw(gen.SEED)}


def values(case):
    rng = rng_of('lme', case['seed'])
    dt = np.dtype(case['dtype'])
    x = rng.standard_normal(case['shape'])
    big = {'float16': 3e4, 'float32': 1e37, 'float64': 1e300}[case['dtype']]
    s = case['scale']
    if s == 'mid':
        x = x * 50
    elif s == 'huge':
        x = np.clip(x, -2, 2) * big * .4
    elif s == 'neg':
        x = x * 10 - .8 * big ** .5
    elif s == 'pos':
        x = x * 10 + .8 * big ** .5
    elif s == 'mixed':
        x = np.where(rng.random_sample(x.shape) < .5, x, x * 1e4)
    elif s == 'inf':
        u = rng.random_sample(x.shape)
        x = np.where(u < .45, -np.inf, x * 5)
        if case['seed'] % 3 == 0:
            x = np.where(u > .9, np.inf, x)
    return np.asarray(x).astype(dt)


def axis_of(case):
    ax = case['axis']
    if isinstance(ax, list):
        if case['axis_as'] == 'neglist':
            return [a - len(case['shape']) for a in ax]
        if case['axis_as'] == 'tuple':
            return tuple(ax)
    return ax


def lme_check(case):
    import tensorflow as tf
    import sys
    import zhusuan as zs
    utils = sys.modules['zhusuan.utils']
    f = utils.log_sum_exp if case['fn'] == 'sum' else zs.log_mean_exp
    x = values(case)
    ax = axis_of(case)
    kw = {}
    if case['axis'] is not None:
        kw['axis'] = ax
    if case['keep'] is not None:
        kw['keepdims'] = case['keep']
    nax = None if ax is None else (ax if isinstance(ax, int) else tuple(ax))
    x64 = x.astype(np.float64)
    with np.errstate(all='ignore'):
        m = np.max(x64, axis=nax, keepdims=True)
        m0 = np.where(np.isfinite(m), m, 0)
        tot = np.sum(np.exp(x64 - m0), axis=nax, keepdims=True)
        want = np.log(tot) + m0
    cnt = x.size // max(want.size, 1)
    if case['fn'] == 'mean':
        want = want - np.log(cnt)
    if not case['keep']:
        want = want.reshape(np.sum(x64, axis=nax).shape)
        m = m.reshape(want.shape)
    static = case['static']
    if static == 'list' and case['dtype'] != 'float32':
        static = 'numpy'
    with fresh_graph() as g, session(g) as sess:
        feed = {}
        if static == 'const':
            t = tf.constant(x)
        elif static == 'numpy':
            t = x
        elif static == 'list':
            t = x.tolist()
        else:
            t = tf.placeholder(tf.as_dtype(x.dtype),
                               x.shape if static == 'ph' else None)
            feed[t] = x
        y = f(t, **kw)
        require(y.dtype.base_dtype == tf.as_dtype(x.dtype),
                'dtype %s from %s', y.dtype, x.dtype)
        out = sess.run(y, feed)
        eps = np.finfo(x.dtype).eps
        mag = np.where(np.isfinite(m), np.abs(m), 0.)
        tol = eps * (4 * mag + 8 + cnt) * 2
        close(out, want, tol, 'log_%s_exp(axis=%r, keepdims=%r)' % (
            case['fn'], ax, case['keep']))
        if case['keep'] is None and case['dtype'] != 'float16' and \
                np.isfinite(x64).all() and x.size and \
                static not in ('numpy', 'list'):
            gr = sess.run(tf.gradients(y, t)[0], feed)
            with np.errstate(all='ignore'):
                sm = np.exp(x64 - m0) / tot
            close(gr, sm, 50 * eps * (1 + cnt) + 4 * eps * np.broadcast_to(
                np.max(np.abs(x64)) if x.size else 0, sm.shape) *
                (case['scale'] in ('unit', 'mid')),
                'gradient of log_%s_exp' % case['fn']) \
                if case['scale'] in ('unit', 'mid') else None
    return Info(cnt > 1, ['scale ' + case['scale'], case['fn'],
                          'axis ' + type(case['axis']).__name__,
                          case['dtype']])


@st.composite
def tools_strategy(draw):
    k = draw(st.sampled_from(['comb', 'bcast', 'bcast', 'same', 'shapes',
                              'merge', 'rank', 'scalar', 'posint',
                              'dtypes']))
    return {'kind': k, 'shape': draw(gen.dims(max_rank=4, max_size=48,
                                              zero=(k == 'shapes'))),
            'sub': draw(gen.sub()), 'sub2': draw(gen.sub()),
            'dtype': draw(st.sampled_from(['float32', 'float64'])),
            'sa': draw(st.integers(0, 3)), 'sb': draw(st.integers(0, 3)),
            'bad': draw(st.booleans()), 'k': draw(st.integers(0, 4)),
            'ax': draw(st.integers(-4, 3)),
            'scale': draw(st.sampled_from([3, 50, 1000])),
            'dicts': draw(st.lists(st.dictionaries(
                st.sampled_from('abcde'), st.integers(0, 9), max_size=4),
                max_size=4)),
            'dts': draw(st.lists(st.sampled_from(
                ['float16', 'float32', 'float64', 'int32', 'int64', 'int16',
                 'bool', 'int8']), min_size=1, max_size=3)),
            'seed': draw(gen.SEED)}


def apply_sub(shape, sub):
    s = list(shape)[min(sub[0], len(shape)):]
    return [1 if (sub[1] >> i) & 1 else d for i, d in enumerate(s)]


def as_tensor(tf, x, how, feed):
    """0 constant, 1 unknown rank, 2 rank known, 3 partially known."""
    if how == 0:
        return tf.constant(x)
    sh = None
    if how == 2:
        sh = [None] * x.ndim
    elif how == 3:
        sh = [d if i % 2 else None for i, d in enumerate(x.shape)]
    t = tf.placeholder(tf.as_dtype(x.dtype), sh)
    feed[t] = x
    return t


def expect_error(fn, what):
    import tensorflow as tf
    try:
        fn()
    except (ValueError, TypeError, tf.errors.InvalidArgumentError):
        return
    raise Violation('%s was accepted' % what)


def tools_check(case):
    import tensorflow as tf
    import zhusuan as zs
    from zhusuan.distributions import utils as du
    k = case['kind']
    rng = rng_of('tools', case['seed'])
    shape = case['shape']
    feed = {}
    labels = [k]
    nt = True
    with fresh_graph() as g, session(g, optimize=False) as sess:
        if k == 'comb':
            kdim = 1 + case['k']
            b = tuple(shape[:3])
            ks = rng.randint(0, case['scale'], b + (kdim,))
            n = ks.sum(-1)
            want = sp.gammaln(n + 1.) - sp.gammaln(ks + 1.).sum(-1)
            dt = case['dtype']
            got = sess.run(du.log_combination(
                as_tensor(tf, n.astype(dt), case['sa'], feed),
                as_tensor(tf, ks.astype(dt), case['sb'], feed)), feed)
            mag = sp.gammaln(n + 1.)
            close(got, want, np.finfo(dt).eps * 16 * (1 + mag),
                  'log_combination')
            nt = kdim > 1
        elif k == 'bcast':
            sx, sy = (apply_sub(shape, case['sub']),
                      apply_sub(shape, case['sub2']))
            x = rng.standard_normal(sx).astype(case['dtype'])
            y = rng.standard_normal(sy).astype(case['dtype'])
            fn = du.explicit_broadcast if case['k'] % 2 else \
                du.maybe_explicit_broadcast
            bad = case['bad'] and len(sx) > 0 and len(sy) > 0
            if bad:
                d = max(x.shape[-1], y.shape[-1])
                x = np.zeros(x.shape[:-1] + (d + 1,), x.dtype)
                y = np.zeros(y.shape[:-1] + (d + 2,), y.dtype)

            def go():
                feed.clear()
                a, b = fn(as_tensor(tf, x, case['sa'], feed),
                          as_tensor(tf, y, case['sb'], feed), 'a', 'b')
                return sess.run([a, b], feed)
            if bad:
                expect_error(go, 'broadcasting %s with %s' % (x.shape,
                                                              y.shape))
                labels.append('incompatible')
            else:
                a, b = go()
                bx, by = np.broadcast_arrays(x, y)
                close(a, bx, 0, 'first after broadcast')
                close(b, by, 0, 'second after broadcast')
                nt = sx != sy
        elif k == 'same':
            sx, sy = (apply_sub(shape, case['sub']),
                      apply_sub(shape, case['sub2']))
            if case['bad']:
                # as many elements, other layout
                sy = tuple(sx)[::-1] if case['k'] % 2 else \
                    tuple(sx)[1:] + tuple(sx)[:1]
            got = sess.run(du.is_same_dynamic_shape(
                as_tensor(tf, np.zeros(sx, 'float32'), case['sa'], feed),
                as_tensor(tf, np.zeros(sy, 'float32'), case['sb'], feed)),
                feed)
            require(bool(got) == (tuple(sx) == tuple(sy)), 'is_same_dynamic_shape(%s, %s) '
                    'is %s', sx, sy, got)
        elif k == 'shapes':
            x = np.zeros(shape, 'float32')
            t = as_tensor(tf, x, case['sa'], feed)
            ls = du.get_shape_list(t)
            if case['sa'] == 1:
                require(ls is None, 'shape list %s for unknown rank', ls)
            else:
                require(len(ls) == x.ndim, 'shape list length')
                v = [d if isinstance(d, int) else int(sess.run(d, feed))
                     for d in ls]
                require(v == list(shape), 'shape list %s, shape %s', v, shape)
            if -x.ndim <= case['ax'] < x.ndim:
                d = du.get_shape_at(t, case['ax'])
                d = d if isinstance(d, int) else int(sess.run(d, feed))
                require(d == x.shape[case['ax']], 'shape at %d is %d of %s',
                        case['ax'], d, x.shape)
            nt = bool(shape)
        elif k == 'merge':
            ds = [dict(d) for d in case['dicts']]
            want = {}
            for d in ds:
                for kk in d:
                    want[kk] = d[kk]
            got = zs.merge_dicts(*ds)
            require(got == want, 'merge_dicts(%r) is %r', case['dicts'], got)
            require(ds == case['dicts'], 'merge_dicts changed its arguments')
            require(all(got is not d for d in ds), 'no new dict')
            nt = len(ds) > 1
        elif k == 'rank':
            x = rng.standard_normal(shape).astype('float32')
            ok = x.ndim >= case['k']

            def go():
                feed.clear()
                t = as_tensor(tf, x, case['sa'], feed)
                y = du.assert_rank_at_least(t, case['k'], 'x') \
                    if case['k'] != 1 else du.assert_rank_at_least_one(t, 'x')
                return sess.run(y, feed)
            if ok:
                close(go(), x, 0, 'checked tensor')
            else:
                expect_error(go, 'rank %d >= %d' % (x.ndim, case['k']))
        elif k == 'scalar':
            x = rng.standard_normal(shape if case['bad'] else []).astype(
                'float32')

            def go():
                feed.clear()
                return sess.run(du.assert_scalar(
                    as_tensor(tf, np.asarray(x), case['sa'], feed), 'x'),
                    feed)
            if np.ndim(x) == 0:
                close(go(), x, 0, 'checked scalar')
            else:
                expect_error(go, 'shape %s as a scalar' % (x.shape,))
        elif k == 'posint':
            v = case['ax']
            how = case['sb']

            def go():
                feed.clear()
                val = {0: v, 1: float(v)}.get(how)
                if how >= 2:
                    val = as_tensor(tf, np.asarray(
                        [v] if how == 3 and case['bad'] else v, 'int32'),
                        case['sa'], feed)
                r = du.assert_positive_int32_scalar(val, 'n')
                return r if isinstance(r, int) else sess.run(r, feed)
            ok = v > 0 and how != 1 and not (how == 3 and case['bad'])
            if ok:
                require(int(go()) == v, 'checked value')
            else:
                expect_error(go, '%r (form %d) as a positive int' % (v, how))
        else:
            ts = [(tf.constant(np.zeros(2, d)), 'x%d' % i)
                  for i, d in enumerate(case['dts'])]
            same = len(set(case['dts'])) == 1
            fl = same and case['dts'][0].startswith('float')
            num = fl or (same and case['dts'][0] in ('int16', 'int32',
                                                     'int64'))
            for fn, ok in ((du.assert_same_float_dtype, fl),
                           (du.assert_same_float_or_int_dtype, num)):
                if ok:
                    require(fn(ts) == ts[0][0].dtype, 'dtype returned')
                else:
                    expect_error(lambda: fn(ts), 'dtypes %s by %s' % (
                        case['dts'], fn.__name__))
    return Info(nt, labels)


SUBCHECKS = [
    Sub('logexp', lme_strategy, lme_check),
    Sub('tools', tools_strategy, tools_check),
]
