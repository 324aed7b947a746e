"""C11: the convenience constructors (bn.<distribution>(...), their aliases, the
old-style StochasticTensor classes inside a BayesianNet context) build exactly
the distribution they name, with every argument in its place."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vp import dists, gen
from vp.core import (Info, Sub, Violation, close, fresh_graph, require, rng_of,
                     session)

METHOD = {'Normal': ['normal'], 'FoldNormal': ['fold_normal'],
          'Bernoulli': ['bernoulli'], 'Categorical': ['categorical',
                                                      'discrete'],
          'Uniform': ['uniform'], 'Gamma': ['gamma'], 'Beta': ['beta'],
          'Poisson': ['poisson'], 'Binomial': ['binomial'],
          'InverseGamma': ['inverse_gamma'], 'Laplace': ['laplace'],
          'MultivariateNormalCholesky': ['multivariate_normal_cholesky'],
          'MatrixVariateNormalCholesky': ['matrix_variate_normal_cholesky'],
          'Multinomial': ['multinomial'],
          'UnnormalizedMultinomial': ['unnormalized_multinomial',
                                      'bag_of_categoricals'],
          'OnehotCategorical': ['onehot_categorical', 'onehot_discrete'],
          'Dirichlet': ['dirichlet'],
          'BinConcrete': ['bin_concrete', 'bin_gumbel_softmax'],
          'ExpConcrete': ['exp_concrete', 'exp_gumbel_softmax'],
          'Concrete': ['concrete', 'gumbel_softmax']}
# documented order of the leading arguments after the name
ORDER = {'Normal': ['mean'], 'FoldNormal': ['mean'],
         'Bernoulli': ['logits'], 'Categorical': ['logits'],
         'Uniform': ['minval', 'maxval'], 'Gamma': ['alpha', 'beta'],
         'Beta': ['alpha', 'beta'], 'Poisson': ['rate'],
         'Binomial': ['logits', 'n_experiments'],
         'InverseGamma': ['alpha', 'beta'], 'Laplace': ['loc', 'scale'],
         'MultivariateNormalCholesky': ['mean', 'cov_tril'],
         'MatrixVariateNormalCholesky': ['mean', 'u_tril', 'v_tril'],
         'Multinomial': ['logits', 'n_experiments'],
         'UnnormalizedMultinomial': ['logits'],
         'OnehotCategorical': ['logits'], 'Dirichlet': ['alpha'],
         'BinConcrete': ['temperature', 'logits'],
         'ExpConcrete': ['temperature', 'logits'],
         'Concrete': ['temperature', 'logits']}
NO_SAMPLE = ('UnnormalizedMultinomial',)


@st.composite
def strategy(draw):
    c = draw(gen.dist_case(max_size=24, max_rank=3, min_rank=0,
                           regimes=('mid',)))
    name = c['dist']
    c['route'] = draw(st.sampled_from(['method', 'method', 'legacy']))
    c['alias'] = draw(st.integers(0, 1))
    c['positional'] = draw(st.integers(0, 3))
    c['gseed'] = draw(gen.SEED)
    c['gn'] = draw(st.integers(0, 3))
    c['ns'] = draw(st.none() | st.integers(1, 4))
    c['observed'] = draw(st.booleans())
    opts = {}
    if name in dists.REPARAM and draw(st.booleans()):
        opts['is_reparameterized'] = draw(st.booleans())
    # every distribution hands further keyword arguments to its base class
    if draw(st.booleans()):
        opts['use_path_derivative'] = draw(st.booleans())
    if name in dists.HAS_CHECK_NUMERICS and draw(st.booleans()):
        opts['check_numerics'] = draw(st.booleans())
    c['opts'] = opts
    c['bad'] = draw(st.integers(0, 3)) == 0
    c['ask'] = draw(st.sampled_from(['new', 'old']))
    return c


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    import zhusuan.distributions as zd
    inst = dists.Inst({k: v for k, v in case.items() if k != 'alias'})
    name = inst.name
    r = rng_of('wrap', case['gseed'])
    gn = min(case['gn'], len(inst.batch))
    ns = case['ns']
    cannot = name in NO_SAMPLE or (name == 'Multinomial' and
                                   case['n_exp'] is None)
    observed = case['observed'] or cannot
    gshape = ((ns,) if ns else ()) + inst.batch
    given = inst.given(case['gseed'], gshape)
    bad = case['bad'] and name in dists.HAS_CHECK_NUMERICS
    with fresh_graph(case['gseed'] % 9973) as g:
        # logits that are used as they are need not be normalised to show
        # that the request reached the distribution
        raw = inst.kwargs.get('normalize_logits') is False and \
            case['gseed'] % 4 > 0
        params = {k: tf.constant(v + np.asarray(1.5 if raw else 0., v.dtype))
                  for k, v in inst.params.items()}
        if bad and name == 'Binomial':
            # it checks the terms of the count only
            given = np.full_like(given, inst.kwargs['n_experiments'] + 1)
        elif bad:
            k = sorted(params)[case['seed'] % len(params)]
            params[k] = params[k] * tf.constant(np.nan, params[k].dtype)
        kw = dict(params)
        kw.update(inst.kwargs)
        if name in dists.DISCRETE and case.get('vdtype'):
            kw['dtype'] = getattr(tf, case['vdtype'])
        if gn or case['gseed'] % 3 == 0:
            kw['group_ndims'] = gn
        kw.update(case['opts'])
        direct = getattr(zd, name)(**kw)
        args = []
        for k in ORDER[name][:case['positional']]:
            args.append(kw.pop(k))
        if name not in NO_SAMPLE and (ns is not None or
                                      case['gseed'] % 2 == 0):
            kw['n_samples'] = ns
        obs = {'the node': given} if observed else None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if case['route'] == 'method':
                ms = METHOD[name]
                bn = zs.BayesianNet(observed=obs)
                node = getattr(bn, ms[case['alias'] % len(ms)])(
                    'the node', *args, **kw)
                require(node.bn is bn, 'node.bn is not the net')
            else:
                als = [name] + [a for a, t in dists.ALIASES.items()
                                if t == name]
                cls = getattr(zs, als[case['alias'] % len(als)])
                with zs.BayesianNet(observed=obs) as bn:
                    node = cls('the node', *args, **kw)
                    require(zs.BayesianNet.get_context() is bn,
                            'the net is not the current context')
                require(node.bn is bn and node.net is bn,
                        'old-style node does not know its net')
                require(isinstance(node, zs.StochasticTensor),
                        'not a StochasticTensor')
            if name in ('Normal', 'FoldNormal'):
                # std / logstd only by name
                kw2 = {k: v for k, v in kw.items() if k != 'mean'}
                try:
                    if case['route'] == 'method':
                        getattr(zs.BayesianNet(), METHOD[name][0])(
                            'other', params['mean'], 1., **kw2)
                    else:
                        getattr(zs, name)('other', params['mean'], 1., **kw2)
                except ValueError:
                    pass
                else:
                    raise Violation('%s: a positional scale was ignored' %
                                    name)
            require(bn['the node'] is node and list(bn.nodes) ==
                    ['the node'], 'node missing from the net')
            require(node.name == 'the node', 'name is %r', node.name)
            d = node.dist
            require(node.distribution is d, '.distribution is not .dist')
            require(type(d) is getattr(zd, name), '%s built a %s',
                    case['route'], type(d).__name__)
            for p in ('dtype', 'param_dtype', 'is_continuous',
                      'is_reparameterized', 'use_path_derivative',
                      'group_ndims'):
                require(getattr(d, p) == getattr(direct, p), '%s of the node '
                        'is %r, directly constructed %r', p, getattr(d, p),
                        getattr(direct, p))
            for p in ('get_batch_shape', 'get_value_shape'):
                require(getattr(d, p)().as_list() ==
                        getattr(direct, p)().as_list(), '%s differs', p)
            require(node.is_observed() == observed, 'is_observed')
            clp = bn.cond_log_prob('the node')
            if case['ask'] == 'old':
                clp = bn.local_log_prob('the node')
                q = bn.query('the node', outputs=True, local_log_prob=True)
                require(q[0] is node.tensor and q[1] is clp and
                        bn.outputs('the node') is node.tensor,
                        'query()/outputs() disagree with the node')
                for kw, want in (({'outputs': True}, node.tensor),
                                 ({'local_log_prob': True}, clp)):
                    q = bn.query('the node', **kw)
                    require(len(q) == 1 and q[0] is want, 'query(%s) gives '
                            '%s', kw, q)
                q = bn.query(['the node'], outputs=True, local_log_prob=True)
                require(q[0][0] is node.tensor and q[0][1] is clp,
                        'query() of a list disagrees with the node')
                if not cannot:
                    require(node.sample(3).get_shape().as_list() ==
                            direct.sample(3).get_shape().as_list(),
                            'sample() of the node')
                nlp = node.log_prob(tf.constant(given))
                npr = node.prob(tf.constant(given))
            else:
                nlp, npr = d.log_prob(tf.constant(given)), d.prob(
                    tf.constant(given))
            dlp, dpr = direct.log_prob(tf.constant(given)), direct.prob(
                tf.constant(given))
            # gradient structure
            fl = [params[k] for k in sorted(params)]
            ga = [x is None for x in tf.gradients(nlp, fl)]
            gb = [x is None for x in tf.gradients(dlp, fl)]
            require(ga == gb, 'log_prob gradients reach %s, directly '
                    'constructed %s', ga, gb)
            if not cannot and d.dtype.is_floating:
                ga = [x is None for x in tf.gradients(d.sample(2), fl)]
                gb = [x is None for x in tf.gradients(direct.sample(2), fl)]
                require(ga == gb, 'sample gradients reach %s, directly '
                        'constructed %s', ga, gb)
            own = d.log_prob(node.tensor)
        with session(g, optimize=False) as sess:
            def run(f):
                try:
                    return sess.run(f)
                except tf.errors.InvalidArgumentError:
                    return None
            a, b = run([nlp, npr]), run([dlp, dpr])
            require((a is None) == (b is None), 'numerics check of the node '
                    'and of the direct distribution disagree: node %s, '
                    'direct %s', 'raises' if a is None else 'passes',
                    'raises' if b is None else 'passes')
            if a is not None:
                for x, y, w in zip(a, b, ('log_prob', 'prob')):
                    require(np.array_equal(x, y, equal_nan=True),
                            '%s: node %s, direct %s', w, x, y)
            if not bad and a is not None:
                if case['opts'].get('check_numerics') and not observed:
                    # a sample may round onto the edge of the support
                    v, c, o = sess.run(node), 0., 0.
                else:
                    v, c, o = sess.run([node, clp, own])
                require(np.shape(v) == gshape + inst.value_shape,
                        'node value has shape %s, expected %s', np.shape(v),
                        gshape + inst.value_shape)
                require(np.array_equal(c, o, equal_nan=True),
                        'cond_log_prob is not log_prob at the value')
                if observed:
                    require(np.array_equal(v, given), 'observation not used')
                    require(np.array_equal(c, a[0], equal_nan=True),
                            'cond_log_prob of the observation')
                lp, sc = inst.logpdf(np.asarray(given))
                ax = tuple(range(lp.ndim - gn, lp.ndim))
                raw or close(a[0], lp.sum(ax), inst.tol(sc.sum(ax)), 'log_prob')
    return Info(len(inst.params) > 1 or gn > 0 or bool(case['opts']) or
                ns is not None,
                [name, case['route']] + ['check_numerics on bad input']
                * bool(bad) + sorted(case['opts']))


@st.composite
def emp_strategy(draw):
    return {'dtype': draw(st.sampled_from(['float32', 'int32', 'float64'])),
            'batch': draw(gen.dims(max_rank=3, max_dim=3)),
            'value': draw(gen.dims(max_rank=2, max_dim=3)),
            'gn': draw(st.integers(0, 2)),
            'cont': draw(st.sampled_from([None, True, False])),
            'depth': draw(st.integers(1, 3)),
            'boom': draw(st.booleans()), 'obs': draw(st.booleans()),
            'seed': draw(gen.SEED)}


def check_context(case):
    """Nested BayesianNet contexts, exceptions, and the Empirical class."""
    import tensorflow as tf
    import zhusuan as zs
    r = rng_of('ctx', case['seed'])
    with fresh_graph(case['seed'] % 997) as g, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        shape = tuple(case['batch'])
        obs = {'e': np.ones(shape + tuple(case['value']), case['dtype'])} \
            if case['obs'] else None
        nets = []

        def nest(k):
            with zs.BayesianNet(observed={'x': r.normal(size=shape).astype(
                    'float32')} if k % 2 else None) as bn:
                nets.append(bn)
                a = zs.Normal('x', tf.zeros(shape), std=1.)
                require(a.bn is bn and a.is_observed() == bool(k % 2),
                        'node went to the wrong net')
                if k:
                    nest(k - 1)
                b = zs.Normal('y', a, std=1.)
                require(b.bn is bn and bn['y'] is b, 'node after a nested '
                        'context went to the wrong net')
                if case['boom'] and k == 0:
                    raise KeyError('boom')
        try:
            nest(case['depth'])
        except KeyError:
            pass
        lone = zs.Normal('z', 0., std=1.)
        require(lone.bn is None, 'a context outlived its with block')
        with zs.BayesianNet(observed=obs) as bn:
            e = zs.Empirical('e', getattr(tf, case['dtype']), shape,
                             group_ndims=case['gn'],
                             value_shape=tuple(case['value']),
                             is_continuous=case['cont'])
        d = e.dist
        want = case['cont'] if case['cont'] is not None else \
            case['dtype'].startswith('float')
        require(d.is_continuous == want, 'is_continuous is %r, asked %r',
                d.is_continuous, case['cont'])
        require(d.dtype == getattr(tf, case['dtype']) and
                d.group_ndims == case['gn'] and
                d.get_batch_shape().as_list() == list(shape) and
                d.get_value_shape().as_list() == list(case['value']),
                'Empirical arguments')
        # Implicit always samples the tensor it was given
        iv = (r.normal(size=shape + tuple(case['value'])) * 3).astype(
            case['dtype'])
        iobs = {'i': iv + np.ones((), iv.dtype)} if case['obs'] else None
        with zs.BayesianNet(observed=iobs) as ibn:
            i = zs.Implicit('i', tf.constant(iv), group_ndims=case['gn'],
                            value_shape=tuple(case['value']),
                            n_samples=1 if case['depth'] == 1 else None)
        d = i.dist
        require(ibn['i'] is i and d.dtype == getattr(tf, case['dtype']) and
                d.group_ndims == case['gn'] and not d.is_reparameterized and
                d.is_continuous == case['dtype'].startswith('float') and
                d.get_batch_shape().as_list() == list(shape) and
                d.get_value_shape().as_list() == list(case['value']),
                'Implicit arguments')
        require(i.is_observed() == case['obs'], 'Implicit observation')
        with session(g) as sess:
            want = iobs['i'] if case['obs'] else (
                iv[None] if case['depth'] == 1 else iv)
            close(sess.run(i), want, 0, 'value of an Implicit node')
        try:
            d.sample(2)
        except ValueError:
            pass
        else:
            raise Violation('an Implicit node drew two samples')
        if case['obs']:
            require(e.is_observed(), 'Empirical observation lost')
            with session(g) as sess:
                require(np.array_equal(sess.run(e), obs['e']), 'value')
        else:
            try:
                e.tensor
            except ValueError:
                pass
            else:
                raise Violation('an Empirical node produced samples')
    return Info(True, [])


SUBCHECKS = [Sub('wrappers', strategy, check, strata=dists.ALL),
             Sub('contexts', emp_strategy, check_context)]
