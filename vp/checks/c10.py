"""C10: a StochasticTensor behaves as the tensor of its value.

Cases: random expression programs over stochastic nodes (operators with
stochastic / tensor / numpy / Python operands on either side, indexing, TF
functions), evaluated through the node in one session run and recomputed with
numpy from the fetched node values; plus feeding, fetching, identity,
conversion and observation acceptance.
"""
import operator

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import (Info, Sub, Violation, close, fresh_graph, require, rng_of,
                     session)

BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
       'truediv': operator.truediv, 'floordiv': operator.floordiv,
       'mod': operator.mod, 'pow': operator.pow, 'lt': operator.lt,
       'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
       'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}
ARITH = [k for k in BIN if k not in ('and', 'or', 'xor')]
DT = ('float32', 'float64', 'int32', 'int64')
BF16 = 'float16'
TFOPS = ('reduce_sum', 'concat', 'stack', 'cast', 'identity', 'shape',
         'where', 'transpose', 'reshape', 'square', 'tile')


@st.composite
def index(draw):
    kind = draw(st.sampled_from(['int', 'slice', 'ellipsis', 'newaxis',
                                 'tensor', 'neg', 'step']))
    return [kind, draw(st.integers(0, 5)), draw(st.integers(0, 5))]


@st.composite
def program(draw):
    dtype = draw(st.sampled_from(DT + (BF16,)))
    op = st.one_of(
        st.fixed_dictionaries({
            'k': st.just('bin'), 'op': st.sampled_from(ARITH),
            'other': st.sampled_from(['stoch', 'tensor', 'numpy', 'py',
                                      'self', 'list']),
            'left': st.booleans(), 'sub': gen.sub()}),
        st.fixed_dictionaries({
            'k': st.just('un'), 'op': st.sampled_from(['abs', 'neg'])}),
        st.fixed_dictionaries({
            'k': st.just('index'), 'ix': st.lists(index(), min_size=1,
                                                  max_size=4)}),
        st.fixed_dictionaries({
            'k': st.just('tf'), 'op': st.sampled_from(TFOPS)}),
        st.fixed_dictionaries({
            'k': st.just('bool'), 'op': st.sampled_from(
                ['and', 'or', 'xor', 'invert']),
            'left': st.booleans(),
            'other': st.sampled_from(['mixin', 'tensor', 'py'])}))
    return {'dtype': dtype, 'batch': draw(gen.dims(max_rank=3, max_dim=3)),
            'ns': draw(st.none() | st.integers(1, 3)),
            'observed': draw(st.sampled_from([False, False, True])),
            'feed': draw(st.sampled_from(['no', 'no', 'feed', 'partial'])),
            'progs': draw(st.lists(op, min_size=1, max_size=8)),
            'seed': draw(gen.SEED)}


def node_of(zs, tf, bn, name, dtype, batch, ns, r):
    if dtype.startswith('float'):
        return bn.normal(name, tf.constant(
            r.normal(size=batch).astype(dtype)), std=np.asarray(2., dtype),
            n_samples=ns)
    return bn.poisson(name, tf.constant(
        np.exp(r.normal(size=batch)).astype('float32') * 3.),
        n_samples=ns, dtype=getattr(tf, dtype))


def draw_val(r, dtype, shape):
    if dtype.startswith('float'):
        v = r.normal(size=shape) * 2
        v = np.where(np.abs(v) < .2, .5, v)
    else:
        v = r.randint(1, 6, size=shape)
    return np.asarray(v).astype(dtype)


def make_index(tf, ix, shape):
    """(TF index, numpy index) valid for the shape."""
    a, b, ax = [], [], 0
    ell = False
    for kind, u, v in ix:
        if kind == 'ellipsis':
            if ell:
                continue
            ell = True
            a.append(Ellipsis)
            b.append(Ellipsis)
            ax = None
            continue
        if kind == 'newaxis':
            a.append(None)
            b.append(None)
            continue
        if ax is None or ax >= len(shape):
            continue
        n = shape[ax]
        ax += 1
        if kind in ('int', 'tensor', 'neg'):
            i = u % n
            b.append(i)
            a.append(tf.constant(i) if kind == 'tensor' else
                     (i - n if kind == 'neg' else i))
        elif kind == 'slice':
            lo, hi = sorted((u % (n + 1), v % (n + 1)))
            lo = None if u == 5 else lo
            a.append(slice(lo, hi))
            b.append(slice(lo, hi))
        else:
            s = slice(None, None, -1 if u % 2 else 2)
            a.append(s)
            b.append(s)
    if not a:
        a, b = [Ellipsis], [Ellipsis]
    if len(a) == 1:
        return a[0], b[0]
    return tuple(a), tuple(b)


def np_bin(op, x, y, dtype):
    with np.errstate(all='ignore'):
        if op == 'truediv' and not dtype.startswith('float'):
            return np.true_divide(x, y)
        return BIN[op](x, y)


def check_program(case):
    import tensorflow as tf
    import zhusuan as zs
    from zhusuan.utils import TensorArithmeticMixin
    dtype, batch = case['dtype'], tuple(case['batch'])
    r = rng_of('st', case['seed'])
    shape = ((case['ns'],) if case['ns'] else ()) + batch
    labels = []
    with fresh_graph(case['seed'] % 99991 + 1) as g:
        obs = draw_val(r, dtype, shape)
        if not dtype.startswith('float'):
            obs = np.abs(obs)
        bn = zs.BayesianNet(observed={'a': obs} if case['observed'] else None)
        x = node_of(zs, tf, bn, 'a', dtype, batch, case['ns'], r)
        y = node_of(zs, tf, bn, 'b', dtype, batch, case['ns'], r)

        class Wrapped(TensorArithmeticMixin):
            def __init__(self, t):
                self.tensor = t
        tf.register_tensor_conversion_function(
            Wrapped, lambda v, dtype=None, name=None, as_ref=False: v.tensor)
        bx = Wrapped(tf.less(x.tensor, tf.cast(1, x.dtype)))
        require(x.tensor is x.tensor, 'tensor property is not stable')
        require(x.dtype == x.tensor.dtype == getattr(tf, dtype),
                'dtype %s of a %s node', x.dtype, dtype)
        require(x.get_shape().as_list() == x.shape.as_list() ==
                x.tensor.get_shape().as_list(), 'shape disagrees')
        require(x.is_observed() == case['observed'], 'is_observed wrong')
        # identity
        require(x == x and not (x == y) and x != y and not (x != x),
                'equality is not identity')
        require(x in [y, x] and x not in [y] and
                len({x: 1, y: 2}) == 2 and {x: 1, y: 2}[y] == 2,
                'membership is not identity')
        for f, what in ((lambda: iter(x), 'iter'), (lambda: list(x), 'list'),
                        (lambda: bool(x), 'bool'),
                        (lambda: x and 1, 'truth value')):
            try:
                f()
            except TypeError:
                pass
            else:
                raise Violation('%s() of a StochasticTensor is allowed' %
                                what)
        for d in DT + ('bool',):
            if d == dtype:
                require(tf.convert_to_tensor(x, getattr(tf, d)) is x.tensor,
                        'conversion is not the value tensor')
                continue
            try:
                tf.convert_to_tensor(x, dtype=getattr(tf, d))
            except (ValueError, TypeError):
                pass
            else:
                raise Violation('silent conversion of a %s node to %s' %
                                (dtype, d))
        outs, wants = [], []
        for p in case['progs']:
            if p['k'] == 'bin':
                op = p['op']
                from vp import dists
                o = p['other']
                if o == 'self':
                    other, get = x, (lambda v: v['x'])
                elif o == 'stoch':
                    other, get = y, (lambda v: v['y'])
                else:
                    c = draw_val(r, dtype, dists.sub_shape(shape, *p['sub']))
                    if o == 'py':
                        c = np.asarray(c.ravel()[0])
                    other = {'tensor': lambda: tf.constant(c),
                             'numpy': lambda: c,
                             'list': lambda: c.tolist(),
                             'py': lambda: c.item()}[o]()
                    if o == 'py' and p['sub'][0] % 2:
                        # a Python int next to a float node
                        c = np.asarray(max(1, int(abs(c))), dtype)
                        other = int(c)
                    get = (lambda v, c=c: c)
                left = p['left']
                if op == 'pow':
                    # keep powers defined: base positive
                    if dtype.startswith('float'):
                        base = abs(x) + tf.constant(1, x.dtype)
                        require(isinstance(base, tf.Tensor), 'abs + const')
                        outs.append(x.__class__.__pow__(x, 2)
                                    if not left else
                                    2 ** x)
                        wants.append(lambda v, left=left: (
                            np.float64(v['x']) ** 2 if not left else
                            2. ** np.float64(v['x'])))
                    else:
                        outs.append(x ** 2 if not left else 2 ** x)
                        wants.append(lambda v, left=left: (
                            v['x'] ** 2 if not left else
                            np.asarray(2, dtype) ** v['x']))
                    labels.append('pow')
                    continue
                if op in ('floordiv', 'mod', 'truediv'):
                    # the divisor must not vanish
                    if left or o in ('self', 'stoch'):
                        if left:
                            # other <op> node: node may be 0 for counts
                            if not dtype.startswith('float'):
                                continue
                        elif not dtype.startswith('float'):
                            continue
                    if op != 'truediv' and dtype == 'float16':
                        continue
                res = BIN[op](other, x) if left else BIN[op](x, other)
                require(isinstance(res, tf.Tensor), '%s gave a %s', op,
                        type(res))
                outs.append(res)

                def want(v, op=op, get=get, left=left):
                    a, b = v['x'], get(v)
                    if left:
                        a, b = b, a
                    if op in ('floordiv', 'mod') and \
                            dtype.startswith('float'):
                        # discontinuous in rounding: reconstruct
                        q = np.float64(a) / np.float64(b)
                        near = np.abs(q - np.round(q)) < 1e-3 * (
                            1 + np.abs(q))
                        fd = np.floor(q)
                        out = fd if op == 'floordiv' else \
                            np.float64(a) - fd * np.float64(b)
                        return np.where(near | (np.abs(q) > 1e4), np.nan, out)
                    return np_bin(op, a, b, dtype)
                wants.append(want)
                labels.append('%s%s/%s' % ('r' if left else '', op, o))
            elif p['k'] == 'un':
                outs.append(abs(x) if p['op'] == 'abs' else -x)
                wants.append((lambda v: np.abs(v['x'])) if p['op'] == 'abs'
                             else (lambda v: -v['x']))
                labels.append(p['op'])
            elif p['k'] == 'index':
                ti, ni = make_index(tf, p['ix'], shape)
                outs.append(x[ti])
                wants.append(lambda v, ni=ni: v['x'][ni])
                labels.append('index')
            elif p['k'] == 'bool':
                o = p['other']
                c = bool(r.randint(2))
                other = {'mixin': Wrapped(tf.less(y.tensor, x.tensor)),
                         'tensor': tf.constant(c), 'py': c}[o]
                nb = (lambda v: v['y'] < v['x']) if o == 'mixin' else \
                    (lambda v, c=c: c)
                if p['op'] == 'invert':
                    outs.append(~bx)
                    wants.append(lambda v: ~(v['x'] < 1))
                else:
                    f = BIN[p['op']]
                    outs.append(f(other, bx) if p['left'] else f(bx, other))
                    wants.append(lambda v, f=f, nb=nb: f(v['x'] < 1, nb(v)))
                labels.append('logical ' + p['op'])
            else:
                op = p['op']
                X = (lambda v: v['x'])
                t, w = {
                    'reduce_sum': lambda: (tf.reduce_sum(x),
                                           lambda v: np.sum(
                                               v['x'].astype('float64'))),
                    'concat': lambda: (
                        tf.concat([x, y, x], -1) if shape else
                        tf.stack([x, y, x]),
                        lambda v: np.concatenate(
                            [v['x'], v['y'], v['x']], -1) if shape else
                        np.stack([v['x'], v['y'], v['x']])),
                    'stack': lambda: (tf.stack([x, x, y], 0), lambda v:
                                      np.stack([v['x'], v['x'], v['y']])),
                    'cast': lambda: (tf.cast(x, tf.float64), X),
                    'identity': lambda: (tf.identity(x), X),
                    'shape': lambda: (tf.shape(x), lambda v: np.array(
                        np.shape(v['x']), dtype='int64')),
                    'where': lambda: (tf.where(tf.greater(x, y), x, y),
                                      lambda v: np.where(
                                          v['x'] > v['y'], v['x'], v['y'])),
                    'transpose': lambda: (tf.transpose(x),
                                          lambda v: v['x'].T),
                    'reshape': lambda: (tf.reshape(x, [-1]),
                                        lambda v: v['x'].ravel()),
                    'square': lambda: (tf.square(x), lambda v: v['x'] ** 2),
                    'tile': lambda: (
                        tf.tile(x, [2] * len(shape)) if shape else
                        tf.identity(x),
                        lambda v: np.tile(v['x'], [2] * len(shape))
                        if shape else v['x']),
                }[op]()
                outs.append(t)
                wants.append(w)
                labels.append('tf.' + op)
        feed = {}
        fv = draw_val(r, dtype, shape)
        if not dtype.startswith('float'):
            fv = np.abs(fv)
        ident = tf.identity(x)
        with session(g) as sess:
            if case['feed'] == 'partial':
                h = sess.partial_run_setup([ident], [x])
                got = sess.partial_run(h, ident, feed_dict={x: fv})
                require(np.array_equal(got, fv),
                        'partial run feed of the node ignored')
                feed = {x: fv}
            elif case['feed'] == 'feed':
                feed = {x: fv}
            vx, vt, vd, vo = sess.run(
                [x, x.tensor, {'n': x, 'm': [y, x]}, outs], feed_dict=feed)
            if case['feed'] == 'feed' and not case['observed']:
                e = sess.run(x)
                require(np.shape(e) == shape, 'shape of a fetched node')
        require(np.array_equal(vx, vt) and np.array_equal(vd['n'], vx) and
                np.array_equal(vd['m'][1], vx), 'fetched values differ')
        require(vx.dtype == np.dtype(dtype) and vx.shape == shape,
                'fetched %s %s, expected %s %s', vx.dtype, vx.shape, dtype,
                shape)
        if feed:
            require(np.array_equal(vx, fv), 'fed value is not used')
            labels.append('fed')
        elif case['observed']:
            require(np.array_equal(vx, obs), 'observed value is not used')
        v = {'x': vx, 'y': vd['m'][0]}
        eps = {'float16': 4e-3, 'float32': 2e-5, 'float64': 1e-10}.get(
            dtype, 1e-6)
        for i, (o, w) in enumerate(zip(vo, wants)):
            want = np.asarray(w(v)).astype(np.float64)
            o = np.asarray(o).astype(np.float64)
            mask = np.isnan(want)
            o = np.where(mask, 0, o) if o.shape == want.shape else o
            want = np.where(mask, 0, want)
            with np.errstate(all='ignore'):
                if dtype == 'float16':
                    big = np.abs(want) > 3e4
                    if o.shape == want.shape and np.any(big):
                        o = np.where(big, 0, o)
                        want = np.where(big, 0, want)
            close(o, want, eps * (1 + np.abs(want)),
                  'expression %s' % str(case['progs'][i] if i <
                                        len(case['progs']) else i))
    nt = bool(outs) and (int(np.prod(shape)) > 1 or case['ns'] is not None)
    return Info(nt, sorted(set(labels)))


@st.composite
def obs_case(draw):
    return {'dtype': draw(st.sampled_from(DT)),
            'odtype': draw(st.sampled_from(DT)),
            'batch': draw(gen.dims(max_rank=3, max_dim=3)),
            'oshape': draw(gen.dims(max_rank=4, max_dim=3)),
            'same': draw(st.booleans()), 'sub': draw(gen.sub()),
            'how': draw(st.sampled_from(['tensor', 'placeholder',
                                         'numpy', 'unknown'])),
            'via': draw(st.sampled_from(['bn', 'meta', 'direct'])),
            'k': draw(st.integers(1, 3)),
            'dist': draw(st.sampled_from(['uni', 'dirichlet', 'onehot',
                                          'mvn'])),
            'seed': draw(gen.SEED)}


def check_obs(case):
    """Observations: accepted iff dtype matches and the static shape is
    broadcast-compatible with the distribution's."""
    import tensorflow as tf
    import zhusuan as zs
    from vp import dists
    r = rng_of('obs', case['seed'])
    batch = tuple(case['batch'])
    with fresh_graph(3) as g:
        kind = case['dist']
        dtype = case['dtype']
        k = case['k'] + 1
        if kind in ('dirichlet', 'mvn') and not dtype.startswith('float'):
            dtype = 'float32'
        if kind == 'uni':
            full = batch
        else:
            full = batch + (k,)
        if case['same']:
            oshape = dists.sub_shape(full, *case['sub'])
        else:
            oshape = tuple(case['oshape'])
        odt = case['odtype']
        val = np.abs(draw_val(r, odt, oshape))
        if case['how'] == 'tensor':
            o = tf.constant(val)
        elif case['how'] == 'placeholder':
            o = tf.placeholder(getattr(tf, odt), oshape)
        elif case['how'] == 'unknown':
            o = tf.placeholder(getattr(tf, odt), None)
        else:
            o = val

        def dist():
            from zhusuan import distributions as d
            if kind == 'uni':
                if dtype.startswith('float'):
                    return d.Normal(tf.constant(r.normal(size=batch).astype(
                        dtype)), std=np.asarray(1., dtype))
                return d.Poisson(tf.ones(batch), dtype=getattr(tf, dtype))
            if kind == 'dirichlet':
                return d.Dirichlet(tf.ones(full, getattr(tf, dtype)))
            if kind == 'mvn':
                return d.MultivariateNormalCholesky(
                    tf.zeros(full, getattr(tf, dtype)),
                    tf.eye(k, batch_shape=list(batch),
                           dtype=getattr(tf, dtype)))
            return d.OnehotCategorical(tf.zeros(full), dtype=getattr(
                tf, dtype))

        def build():
            if case['via'] == 'bn':
                return zs.BayesianNet(observed={'n': o}).stochastic(
                    'n', dist())
            if case['via'] == 'meta':
                @zs.meta_bayesian_net()
                def m():
                    bn = zs.BayesianNet()
                    bn.stochastic('n', dist())
                    return bn
                return m().observe(n=o)['n']
            return zs.StochasticTensor(zs.BayesianNet(), 'n', dist(),
                                       observation=o)
        if case['how'] == 'unknown':
            shape_ok = True
        else:
            try:
                np.broadcast_shapes(full, oshape)
                shape_ok = True
            except ValueError:
                shape_ok = False
        type_ok = odt == dtype
        lenient = not type_ok and case['how'] == 'numpy'
        try:
            n = build()
        except (ValueError, TypeError) as e:
            require(not (shape_ok and type_ok), 'valid observation of shape '
                    '%s for a node of shape %s rejected: %s', oshape, full, e)
            return Info(True, ['rejected ' + ('type' if not type_ok else
                                              'shape')])
        require(shape_ok and (type_ok or lenient), 'observation %s%s '
                'accepted for a %s%s node', odt, oshape, dtype, full)
        require(n.is_observed() and n.dtype == n.tensor.dtype,
                'accepted observation not in effect')
        if lenient:
            return Info(False, ['numpy converted'])
        feed = {n: val}
        with session(g) as sess:
            got = sess.run(n, feed_dict=feed if case['how'] in
                           ('placeholder', 'unknown') else None)
        require(np.array_equal(got, val), 'value of the observed node')
    return Info(True, ['accepted'])


SUBCHECKS = [Sub('program', program, check_program),
             Sub('observation', obs_case, check_obs)]
