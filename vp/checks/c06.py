"""C06: malformed distribution arguments are rejected, well-formed accepted.

Each case starts from a valid distribution (which must build and evaluate:
the control), makes exactly one argument malformed, and requires an error
either while building the graph or when evaluating sample / log_prob / prob.
"""
import numpy as np
from hypothesis import strategies as st

from vp import dists, gen
from vp.core import Info, Sub, Violation, fresh_graph, require, rng_of, session

VEC_LIKE = ('Categorical',) + dists.VECTOR
TEMP = ('BinConcrete', 'ExpConcrete', 'Concrete')
NEXP = ('Binomial', 'Multinomial')


def kinds_for(name):
    k = ['int_param', 'given_shape', 'given_dtype', 'gn_negative',
         'gn_negative_tensor', 'gn_nonscalar', 'group_event_ndims',
         'ns_nonscalar']
    if name in dists.TWO_PARAM + TEMP + dists.MATRIX:
        k.append('mixed_dtype')
    if name in dists.TWO_PARAM:
        k += ['param_shape', 'param_shape_dyn']
    if name in dists.DISCRETE:
        k += ['bad_dtype']
    if name in ('Normal', 'FoldNormal'):
        k += ['both_std', 'no_std', 'positional_std']
    if name in NEXP:
        k += ['nexp_nonpos', 'nexp_nonpos_tensor', 'nexp_nonscalar',
              'nexp_float', 'nexp_dtype']
    if name in VEC_LIKE:
        k += ['rank0', 'rank0_dyn']
    if name == 'Dirichlet':
        k += ['one_category', 'one_category_dyn']
    if name in TEMP:
        k += ['temp_nonscalar', 'temp_nonscalar_dyn']
    if name in dists.MATRIX:
        k += ['tril_shape', 'tril_shape_dyn', 'tril_rank', 'tril_rank_dyn',
              'mean_rank', 'mean_rank_dyn', 'tril_batch', 'tril_batch_dyn']
    if name == 'Multinomial':
        k.append('sample_without_n')
    if name == 'UnnormalizedMultinomial':
        k.append('sample_unnormalized')
    if name in dists.HAS_CHECK_NUMERICS:
        k.append('numerics')
    return k


ALL_KINDS = sorted({k for n in dists.ALL for k in kinds_for(n)})


def attempt(fn):
    """Returns the exception raised, or None."""
    import tensorflow as tf
    try:
        fn()
        return None
    except (TypeError, ValueError, NotImplementedError,
            tf.errors.InvalidArgumentError) as e:
        return e


def check(case):
    import tensorflow as tf
    import zhusuan.distributions as zd
    inst = dists.Inst(case)
    nm, kind = inst.name, case['kind']
    r = rng_of('bad', case['bseed'])
    given = inst.given(case['seed'] + 1, inst.batch)
    can_sample = nm != 'UnnormalizedMultinomial' and not (
        nm == 'Multinomial' and inst.kwargs.get('n_experiments') is None)
    strict = None       # exception type that is documented
    cls = getattr(zd, nm)

    def base_kwargs(conv=tf.constant):
        kw = {k: conv(v) for k, v in inst.params.items()}
        kw.update(inst.kwargs)
        if nm in dists.DISCRETE and case.get('vdtype'):
            kw['dtype'] = getattr(tf, case['vdtype'])
        return kw

    def evaluate(kw, given_arg=None, args=(), ns=None, feed=None, what='all'):
        """Build and use; an error anywhere on the way counts."""
        d = cls(*args, **kw)
        fetch = []
        g = tf.constant(given) if given_arg is None else given_arg
        if what in ('all', 'lp'):
            fetch.append(d.log_prob(g))
        if what in ('p',):
            fetch.append(d.prob(g))
        if what in ('all', 'sample') and can_sample:
            fetch.append(d.sample(ns) if ns is not None else d.sample(2))
        with session(tf.get_default_graph(), optimize=False) as sess:
            return sess.run(fetch, feed or {})

    # control: the valid twin must work
    with fresh_graph(1):
        evaluate(base_kwargs())

    feed = {}

    def dynamic(a):
        ph = tf.placeholder(a.dtype, [None] * np.ndim(a)
                            if case['bseed'] % 11 > 7 else None)
        feed[ph] = a
        return ph

    # which public entry point must reject it: every one that is offered
    results = []
    entries = ['lp', 'p'] + (['sample'] if can_sample else [])
    for what in entries:
        with fresh_graph(1):
            feed.clear()
            fn = None
            dtypes = None
            if kind == 'int_param':
                p = r.choice(sorted(inst.params))
                kw = base_kwargs()
                kw[p] = tf.constant(np.ones(inst.params[p].shape, np.int32))
                fn = lambda: evaluate(kw, feed=feed, what=what)
                strict = TypeError
            elif kind == 'mixed_dtype':
                p = sorted(inst.params)[case['bseed'] % len(inst.params)]
                other = [d for d in dists.FLOATS if d != inst.dtype]
                kw = base_kwargs()
                kw[p] = tf.constant(inst.params[p].astype(
                    other[case['bseed'] % 2]))
                fn = lambda: evaluate(kw, feed=feed, what=what)
                strict = TypeError
            elif kind in ('param_shape', 'param_shape_dyn'):
                ps = list(inst.params)
                a, b = (np.resize(inst.params[q].ravel(), s).astype(
                    inst.dtype) for q, s in zip(
                        ps, [(2, 3), (case['bseed'] % 2 + 2, 4)]))
                conv = dynamic if kind.endswith('dyn') else tf.constant
                kw = base_kwargs()
                kw[ps[0]], kw[ps[1]] = conv(a), conv(b)
                gg = np.resize(given.ravel(), ()).astype(given.dtype)
                fn = lambda: evaluate(kw, tf.constant(gg), feed=feed,
                                      what=what)
                strict = None if kind.endswith('dyn') else ValueError
            elif kind == 'bad_dtype':
                bad = ['uint8', 'bool', 'string', 'complex64']
                if nm == 'Categorical':
                    bad += ['int16', 'float16']
                kw = base_kwargs()
                kw['dtype'] = getattr(tf, bad[case['bseed'] % len(bad)])
                fn = lambda: cls(**kw)
                strict = TypeError
            elif kind == 'given_shape':
                if what == 'sample':
                    continue
                full = inst.batch + inst.value_shape
                if not any(d > 1 for d in full):
                    return Info(False, [kind, 'no dimension to break'])
                s = list(full)
                i = [j for j, d in enumerate(s) if d > 1][
                    case['bseed'] % sum(d > 1 for d in s)]
                s[i] = s[i] + 1
                bad = np.resize(given.ravel(), s).astype(given.dtype)
                mode = case['bseed'] // 7 % 2
                gt = tf.constant(bad) if mode == 0 else dynamic(bad)
                # placeholders: rejection may come from TensorFlow at run time
                fn = lambda: evaluate(base_kwargs(), gt, feed=feed, what=what)
                strict = ValueError if mode == 0 else None
            elif kind == 'given_dtype':
                if what == 'sample':
                    continue
                other = [d for d in ('float32', 'float64', 'int32', 'int64')
                         if d != inst.vdtype]
                bad = given.astype(other[case['bseed'] % len(other)])
                fn = lambda: evaluate(base_kwargs(), tf.constant(bad),
                                      feed=feed, what=what)
            elif kind == 'gn_negative':
                fn = lambda: cls(group_ndims=-1 - case['bseed'] % 3,
                                 **base_kwargs())
                strict = ValueError
            elif kind == 'gn_negative_tensor':
                v = np.int32(-1 - case['bseed'] % 3)
                t = dynamic(v) if case['bseed'] % 2 else tf.constant(v)
                fn = lambda: evaluate(dict(base_kwargs(), group_ndims=t),
                                      feed=feed, what=what)
                if what == 'sample':
                    continue
            elif kind == 'gn_nonscalar':
                v = np.zeros([1], np.int32) if case['bseed'] % 2 else \
                    np.zeros([2], np.int32)
                t = dynamic(v) if case['bseed'] % 3 else tf.constant(v)
                fn = lambda: evaluate(dict(base_kwargs(), group_ndims=t),
                                      feed=feed, what=what)
                if what == 'sample':
                    continue
            elif kind == 'group_event_ndims':
                fn = lambda: cls(group_event_ndims=case['bseed'] % 2,
                                 **base_kwargs())
                strict = ValueError
            elif kind == 'ns_nonscalar':
                if what != 'sample':
                    continue
                v = np.full([case['bseed'] % 2 + 1], 2, np.int32)
                t = dynamic(v) if case['bseed'] % 3 else tf.constant(v)
                fn = lambda: evaluate(base_kwargs(), ns=t, feed=feed,
                                      what=what)
            elif kind in ('both_std', 'no_std', 'positional_std'):
                kw = base_kwargs()
                m = kw.pop('mean')
                s = kw.pop('std', None)
                s = s if s is not None else kw.pop('logstd')
                if kind == 'both_std':
                    fn = lambda: cls(m, std=s, logstd=s)
                elif kind == 'no_std':
                    fn = lambda: cls(m)
                else:
                    fn = lambda: cls(m, s)
                strict = ValueError
            elif kind.startswith('nexp'):
                kw = base_kwargs()
                if kind == 'nexp_nonpos':
                    kw['n_experiments'] = -(case['bseed'] % 3)
                    strict = ValueError
                    fn = lambda: cls(**kw)
                elif kind == 'nexp_float':
                    kw['n_experiments'] = [2.5, 3.][case['bseed'] % 2]
                    strict = TypeError
                    fn = lambda: cls(**kw)
                elif kind == 'nexp_dtype':
                    v = np.asarray(3, ['float32', 'float64', 'int64',
                                       'int16'][case['bseed'] % 4])
                    kw['n_experiments'] = dynamic(v) \
                        if case['bseed'] // 4 % 2 else tf.constant(v)
                    strict = TypeError
                    fn = lambda: cls(**kw)
                else:
                    v = np.int32(-(case['bseed'] % 3))
                    if kind == 'nexp_nonscalar':
                        v = np.full([case['bseed'] % 2 + 1], 3, np.int32)
                    t = dynamic(v) if case['bseed'] % 5 else tf.constant(v)
                    kw['n_experiments'] = t
                    fn = lambda: evaluate(kw, feed=feed, what=what)
            elif kind in ('rank0', 'rank0_dyn'):
                p = 'alpha' if nm == 'Dirichlet' else 'logits'
                v = np.asarray(1., inst.dtype)
                kw = base_kwargs()
                kw[p] = dynamic(v) if kind.endswith('dyn') else tf.constant(v)
                g1 = np.resize(given.ravel(), (1,) if inst.value_shape
                               else ()).astype(given.dtype)
                fn = lambda: evaluate(kw, tf.constant(g1), feed=feed,
                                      what=what)
                strict = None if kind.endswith('dyn') else ValueError
            elif kind.startswith('one_category'):
                v = inst.params['alpha'][..., :1]
                kw = base_kwargs()
                kw['alpha'] = dynamic(v) if kind.endswith('dyn') else \
                    tf.constant(v)
                fn = lambda: evaluate(kw, tf.constant(given[..., :1]),
                                      feed=feed, what=what)
                strict = None if kind.endswith('dyn') else ValueError
            elif kind.startswith('temp_nonscalar'):
                v = np.full([case['bseed'] % 2 + 1], 1., inst.dtype)
                if inst.value_shape:
                    v = np.full([1], 1., inst.dtype)
                kw = base_kwargs()
                kw['temperature'] = dynamic(v) if kind.endswith('dyn') else \
                    tf.constant(v)
                fn = lambda: evaluate(kw, feed=feed, what=what)
                strict = None if kind.endswith('dyn') else ValueError
            elif kind.startswith(('tril', 'mean_rank')):
                conv = dynamic if kind.endswith('dyn') else tf.constant
                kw = base_kwargs(conv)
                trils = [q for q in sorted(inst.params) if 'tril' in q]
                q = trils[case['bseed'] % len(trils)]
                a = inst.params[q]
                base = kind[:-4] if kind.endswith('_dyn') else kind
                if base == 'tril_shape':
                    n = a.shape[-1] + 1
                    bad = np.broadcast_to(np.eye(n), a.shape[:-2] + (n, n))
                    bad = bad[..., case['bseed'] // 3 % 2:, :]
                elif base == 'tril_batch':
                    # a batch that is not the one of the mean: an extra
                    # axis, an axis too few, an axis cut down to one
                    wide = [j for j, d in enumerate(a.shape[:-2]) if d > 1]
                    how = case['bseed'] // 3 % 3
                    if how == 1 and a.ndim > 2:
                        bad = a[0]
                    elif how == 2 and wide:
                        j = wide[case['bseed'] // 9 % len(wide)]
                        bad = np.take(a, [0], j)
                    else:
                        bad = np.stack([a] * (1 + case['bseed'] // 9 % 2), 0)
                elif base == 'tril_rank':
                    bad = np.ones(a.shape[-1:])
                else:
                    q = 'mean'
                    bad = inst.params['mean'].ravel()[0] * (
                        np.ones(()) if len(inst.value_shape) == 1 else
                        np.ones(inst.value_shape[-1:]))
                kw[q] = conv(np.array(bad).astype(inst.dtype))
                fn = lambda: evaluate(kw, feed=feed, what=what)
            elif kind == 'sample_without_n':
                kw = base_kwargs()
                kw['n_experiments'] = None
                fn = lambda: cls(**kw).sample(2)
                strict = ValueError
            elif kind == 'sample_unnormalized':
                fn = lambda: cls(**base_kwargs()).sample(
                    None if case['bseed'] % 2 else 3)
                strict = NotImplementedError
            elif kind == 'numerics':
                kw = base_kwargs()
                kw['check_numerics'] = True
                res = break_numerics(inst, kw, given, case)
                if res is None:
                    return Info(False, [kind, 'nothing to break'])
                kw, g1 = res
                if what == 'sample':
                    continue
                fn = lambda: evaluate(kw, tf.constant(g1), feed=feed,
                                      what=what)
                strict = tf.errors.InvalidArgumentError
            e = attempt(fn)
            require(e is not None, '%s accepted malformed input (%s) without '
                    'an error in %s', nm, kind, what)
            if strict is not None:
                require(isinstance(e, strict), '%s: malformed input (%s) '
                        'raised %s instead of %s: %s', nm, kind,
                        type(e).__name__, strict.__name__, e)
            results.append(what)
    return Info(bool(results), [nm + ' ' + kind, kind])


def break_numerics(inst, kw, given, case):
    """Valid arguments except one that makes a checked quantity infinite."""
    import tensorflow as tf
    nm = inst.name
    b = case['bseed']

    def zero_one(a, val=0.):
        a = a.copy()
        if a.size == 0:
            return a
        a.ravel()[b % a.size] = val
        return a.reshape(a.shape)
    fmin = float(np.finfo(inst.dtype).max)
    g1 = given
    p = {k: np.array(v) for k, v in inst.params.items()}
    choices = []
    if nm in ('Normal', 'FoldNormal'):
        if 'std' in p:
            choices.append(('std', 0.))
        else:
            choices.append(('logstd', -fmin / 4))
    elif nm == 'Laplace':
        choices.append(('scale', 0.))
    elif nm == 'Uniform':
        pass
    elif nm in ('Gamma', 'InverseGamma'):
        choices += [('beta', 0.), ('alpha', 0.), ('given', 0.)]
    elif nm == 'Beta':
        choices += [('beta', 0.), ('alpha', 0.), ('given', 0.),
                    ('given', 1.)]
    elif nm == 'Poisson':
        choices += [('rate', 0.), ('given', -1)]
    elif nm == 'Binomial':
        choices += [('given', -1), ('given', inst.kwargs['n_experiments'] +
                                    1)]
    elif nm == 'BinConcrete':
        choices += [('temperature', 0.), ('given', 0.), ('given', 1.)]
    elif nm == 'Concrete':
        choices += [('temperature', 0.), ('given', 0.)]
    elif nm == 'ExpConcrete':
        choices += [('temperature', 0.)]
    elif nm == 'Dirichlet':
        choices += [('given', 0.)]
    elif nm in dists.MATRIX:
        q = 'cov_tril' if 'cov_tril' in p else ['u_tril', 'v_tril'][b % 2]
        a = p[q].copy()
        a[..., 0, 0] = 0.
        kw[q] = tf.constant(a)
        return kw, g1
    if nm == 'Uniform':
        kw['maxval'] = kw['minval']
        return kw, np.zeros((), inst.dtype)
    if not choices:
        return None
    q, v = choices[b % len(choices)]
    if q == 'given':
        if given.size == 0:
            return None
        g1 = zero_one(given, v)
    else:
        if p[q].size == 0:
            return None
        kw[q] = tf.constant(zero_one(np.atleast_1d(p[q]), v).reshape(
            p[q].shape).astype(inst.dtype))
    return kw, g1


@st.composite
def strategy(draw):
    name = draw(st.sampled_from(gen.pick(dists.ALL)))
    kind = draw(st.sampled_from(kinds_for(name)))
    c = draw(gen.dist_case(names=(name,), dtypes=('float32', 'float64'),
                           max_size=16, max_rank=2, kmax=4,
                           regimes=('mid',), none_n_exp=False,
                           vdtypes=('int32', 'float32', 'int64')))
    if c.get('n_exp'):
        c['n_exp'] = min(c['n_exp'], 8)
    c['kind'] = kind
    c['bseed'] = draw(st.integers(0, 1000))
    return c


SUBCHECKS = [Sub('reject', strategy, check, strata=dists.ALL)]
