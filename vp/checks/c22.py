"""C22: a variational objective is one tensor at one set of samples.

A history of queries, casts, operators, estimator calls and changes to the
caller's dictionaries is applied to objectives that share a posterior; whatever
the order, everything is computed from the same samples, the same model net
and the observations given at construction."""
import operator
import warnings

import numpy as np
from hypothesis import strategies as st

from vp import vi
from vp.core import (Info, Sub, Violation, close, fresh_graph, require,
                     session)

BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
       'truediv': operator.truediv, 'lt': operator.lt, 'le': operator.le,
       'gt': operator.gt, 'ge': operator.ge, 'pow': operator.pow,
       'floordiv': operator.floordiv, 'mod': operator.mod}
ARITH = ('add', 'sub', 'mul', 'truediv')
CMP = ('lt', 'le', 'gt', 'ge')


@st.composite
def step(draw):
    k = draw(st.sampled_from(
        ['tensor', 'cast', 'bin', 'bin', 'bin', 'un', 'index', 'tf', 'bn',
         'joint', 'est', 'est', 'mutate', 'second', 'ident', 'conv', 'feed']))
    s = {'k': k, 'who': draw(st.integers(0, 2))}
    if k == 'bin':
        s.update(op=draw(st.sampled_from(ARITH + ARITH + CMP +
                                         ('pow', 'floordiv', 'mod'))),
                 left=draw(st.booleans()),
                 other=draw(st.sampled_from(['int', 'float', 'numpy', 'tensor',
                                             'list', 'self', 'objective',
                                             'node'])),
                 v=draw(st.sampled_from([1., 2., -3., .5])))
    elif k in ('un', 'tf', 'est', 'mutate', 'index'):
        s['v'] = draw(st.integers(0, 5))
    return s


@st.composite
def strategy(draw):
    c = draw(vi.model_case(layouts=['S', 'Sn', 'nS', 'SSn', 'n', 'nsamp',
                                    'scalar'], dtypes=('float64', 'float32')))
    c['how'] = draw(st.sampled_from(['meta', 'meta', 'fn']))
    c['q'] = draw(st.sampled_from(['bn', 'bn', 'latent']))
    c['reparam'] = draw(st.booleans())
    c['two_obs'] = draw(st.booleans())
    c['first'] = draw(st.sampled_from(['elbo', 'iw', 'elbo', 'iw', 'klpq']))
    c['ops'] = draw(st.lists(step(), min_size=1, max_size=9))
    return c


def grad_theta(m, z, weights):
    """d/dtheta of sum over lead axes of weights * log p(x, z)."""
    return vi.fd(lambda th: float(np.sum(weights * m.logp(z, th))), m.theta)


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    m = vi.Model(case)
    v = zs.variational
    tol = {'float64': 1e-9, 'float32': 3e-4}[case['dtype']]
    dt = getattr(tf, case['dtype'])
    labels = ['layout ' + case['layout'], case['how'], case['q'],
              'first ' + case['first']]
    calls = [0]
    judged = 0
    with fresh_graph(case['seed'] % 99991) as g, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.tf_params(tf)
        body = m.model_body

        def counted(*a):
            calls[0] += 1
            return body(*a)
        m.model_body = counted
        meta = m.meta(tf, zs, case['how'])
        q = m.variational(tf, zs, case['reparam'])
        axis = m.api_axis

        def make(kind):
            """objective and the dictionaries handed to it"""
            made[0] += 1
            obs = dict(m.t_obs)
            kw = {'axis': axis}
            lat = None
            if case['q'] == 'latent':
                lat = {n: [q[n].tensor, q.cond_log_prob(n)] for n in m.names}
                kw['latent'] = lat
            else:
                kw['variational'] = q
            f = {'elbo': v.elbo, 'iw': v.importance_weighted_objective,
                 'klpq': v.klpq}[kind]
            if kind == 'iw' and axis is None:
                kind, f = 'elbo', v.elbo
            return [kind, f(meta, obs, **kw), obs, lat, None]
        made = [0]
        objs = [make(case['first'])]
        outs = {}
        checks = []

        def value(kind, r):
            return r['E'] if kind == 'elbo' else r['W']

        def out(t, want, what, slack=None):
            nm = 'o%d' % len(outs)
            outs[nm] = t
            checks.append((nm, want, what, slack))

        def counted_ok(what):
            n = made[0]
            require(calls[0] <= n, '%s: the model function ran %d times for '
                    '%d objectives', what, calls[0], n)
        feed = None
        for i, s in enumerate(case['ops']):
            o = objs[s['who'] % len(objs)]
            kind, ob = o[0], o[1]
            ctx = '%s of %s (step %d)' % (s['k'], kind, i)
            k = s['k']
            if k == 'second':
                objs.append(make(['elbo', 'iw', 'klpq'][s['who']]))
                if len(objs) > 1:
                    labels.append('several objectives')
                continue
            if k == 'mutate':
                if s['v'] % 2 and o[3] is not None:
                    o[3].clear()
                elif s['v'] % 3:
                    o[2].clear()
                else:
                    for nm in o[2]:
                        o[2][nm] = o[2][nm] + tf.constant(5., dt)
                labels.append('caller changed its dictionary')
                continue
            if k == 'ident':
                other = make('elbo')[1]
                require(ob == ob and not (ob == other) and ob != other and
                        not (ob != ob) and {ob: 1, other: 2}[ob] == 1 and
                        ob in [other, ob], 'equality is not identity')
                for f, what in ((lambda: bool(ob), 'bool'),
                                (lambda: iter(ob), 'iter'),
                                (lambda: ob and 1, 'truth value')):
                    try:
                        f()
                    except TypeError:
                        pass
                    else:
                        raise Violation('%s() of an objective is allowed' %
                                        what)
                continue
            if k == 'bn':
                if case['how'] == 'fn':
                    require(ob.bn is None, 'bn of a function model')
                    continue
                o[4] = 1
                bn = ob.bn
                require(bn is ob.bn, 'bn changes between queries')
                for j, n in enumerate(m.names):
                    out(tf.convert_to_tensor(bn[n]),
                        lambda r, j=j: r['z'][j], ctx + ': ' + n)
                out(tf.convert_to_tensor(bn['x']), lambda r: m.x, ctx + ': x')
                judged += 1
                continue
            if k == 'joint':
                if case['how'] == 'fn':
                    continue
                o[4] = 1
                out(ob.bn.log_joint(), lambda r: r['lp'], ctx)
                judged += 1
                continue
            o[4] = 1
            if k == 'est':
                if kind == 'klpq':
                    t = ob.importance() if s['v'] % 2 else ob.rws()
                    # its surrogate has no gradient in the model parameters
                    gr = tf.gradients(tf.reduce_sum(t), m.t_theta)
                    require(all(x is None for x in gr),
                            'klpq reaches the model parameters')
                    labels.append('estimator klpq')
                    continue
                if kind == 'elbo' and (s['v'] % 2 or not m.kinds):
                    t = ob.sgvb()
                    out(t, lambda r: -r['E'], ctx + ' sgvb')
                    wt = 'mean'
                elif kind == 'elbo':
                    t = ob.reinforce(variance_reduction=False)
                    wt = 'mean'
                else:
                    if isinstance(m.axis, list) or \
                            m.lead[m.axis] < 2:
                        continue
                    t = ob.vimco()
                    wt = 'softmax'
                gr = tf.gradients(tf.reduce_sum(t), m.t_theta)
                outs['g%d' % i] = [x if x is not None else tf.zeros_like(p)
                                   for x, p in zip(gr, m.t_theta)]
                checks.append(('g%d' % i, wt, ctx, None))
                labels.append('estimator ' + kind)
                judged += 1
                continue
            if kind == 'klpq':
                try:
                    ob.tensor
                except NotImplementedError:
                    continue
                raise Violation('klpq has a value')
            want = (lambda r, kind=kind: value(kind, r))
            judged += 1
            if k == 'tensor':
                t = ob.tensor
                require(t is ob.tensor, 'tensor changes between queries')
                out(t, want, ctx)
                outs['f%d' % i] = ob
                checks.append(('f%d' % i, want, ctx + ' fetched', None))
            elif k == 'cast':
                out(tf.convert_to_tensor(ob), want, ctx)
                require(tf.convert_to_tensor(ob, dtype=dt) is ob.tensor,
                        'conversion is not the value tensor')
            elif k == 'conv':
                for d in (tf.float16, tf.float32, tf.float64, tf.int32):
                    if d == dt:
                        continue
                    try:
                        tf.convert_to_tensor(ob, dtype=d)
                    except (ValueError, TypeError):
                        continue
                    raise Violation('silent conversion of a %s objective to '
                                    '%s' % (dt, d))
            elif k == 'un':
                if s['v'] % 2:
                    out(-ob, lambda r, w=want: -w(r), ctx + ' neg')
                else:
                    out(abs(ob), lambda r, w=want: np.abs(w(r)), ctx + ' abs')
            elif k == 'index':
                nd = ob.tensor.get_shape().ndims
                if nd:
                    out(ob[0], lambda r, w=want: w(r)[0], ctx)
                    out(ob[..., -1:], lambda r, w=want: w(r)[..., -1:], ctx)
                else:
                    out(ob[None], lambda r, w=want: w(r)[None], ctx)
            elif k == 'tf':
                f, n = [(tf.reduce_mean, np.mean), (tf.exp, np.exp),
                        (tf.identity, lambda x: x),
                        (lambda x: tf.stack([x, x]), lambda x: np.stack(
                            [x, x])),
                        (tf.square, np.square),
                        (lambda x: tf.tanh(x), np.tanh)][s['v']]
                out(f(ob), lambda r, w=want, n=n: n(w(r)), ctx,
                    lambda r, w=want, n=n: np.abs(
                        n(w(r) + 1e-3) - n(w(r) - 1e-3)) / 1e-3)
            elif k == 'feed':
                feed = (i, kind, ob)
            elif k == 'bin':
                oth = s['other']
                val = np.float64(s['v'])
                if oth == 'self':
                    x, get = ob, want
                elif oth == 'objective':
                    p = objs[(s['who'] + 1) % len(objs)]
                    if p[0] == 'klpq':
                        continue
                    p[4] = 1
                    x, get = p[1], (lambda r, p=p: value(p[0], r))
                elif oth == 'node':
                    x = q[m.names[0]]
                    x = tf.reduce_sum(x) if s['left'] else tf.reduce_mean(x)
                    f = np.sum if s['left'] else np.mean
                    get = (lambda r, f=f: f(r['z'][0]))
                else:
                    if oth == 'int':
                        val = np.float64(int(val) or 1)
                    x = {'int': lambda: int(val), 'float': lambda: float(val),
                         'numpy': lambda: np.asarray(val, case['dtype']),
                         'tensor': lambda: tf.constant(val, dt),
                         'list': lambda: [float(val)]}[oth]()
                    get = (lambda r, val=val, oth=oth:
                           np.array([val]) if oth == 'list' else val)
                op = s['op']
                if op in ('pow', 'floordiv', 'mod') and oth not in (
                        'int', 'float', 'numpy', 'tensor'):
                    op = 'sub'
                f = BIN[op]
                if op == 'pow':
                    if s['left']:
                        x, get = 2., (lambda r: 2.)
                    else:
                        x, get = 2, (lambda r: 2)
                res = f(x, ob) if s['left'] else f(ob, x)
                require(isinstance(res, tf.Tensor), '%s gave a %s', op,
                        type(res))

                def pair(r, want=want, get=get, left=s['left']):
                    a, b = want(r), get(r)
                    return (b, a) if left else (a, b)

                def w2(r, f=f, pair=pair):
                    return f(*pair(r))

                def slack(r, f=f, pair=pair):
                    a, b = pair(r)
                    h = 1e-6
                    return sum(np.abs(f(a + x, b + y) - f(a, b))
                               for x, y in ((h, 0), (-h, 0), (0, h),
                                            (0, -h))) / h
                nm = 'b%d' % i
                outs[nm] = res
                checks.append((nm, w2, ctx + ' %s%s %s' % (
                    'r' if s['left'] else '', op, oth),
                    (op, pair) if op in CMP + ('floordiv', 'mod')
                    else slack))
                labels.append('op ' + op)
            counted_ok(ctx)
        if case['how'] == 'fn':
            n = made[0]
            require(calls[0] <= n, 'the log joint function was built %d '
                    'times for %d objectives', calls[0], n)
        else:
            counted_ok('at the end')
        with session(g) as sess:
            res = sess.run([[z.tensor for z in m.t_z], outs])
            fed = None
            if feed is not None:
                ob = feed[2]
                shp = ob.tensor.get_shape()
                if shp.is_fully_defined():
                    fv = np.arange(int(np.prod(shp.as_list())),
                                   dtype=case['dtype']).reshape(
                                       shp.as_list()) + 1
                    fed = sess.run([ob, ob * 2.], {ob: fv})
                    labels.append('fed')
    z = [np.asarray(x, np.float64) for x in res[0]]
    lp, lq = m.logp(z), m.logq(z)
    R = {'z': z, 'lp': lp, 'E': vi.mean(lp - lq, m.axis)}
    if m.axis is not None:
        R['W'] = vi.lme(lp - lq, m.axis)
    sc = np.abs(lp).max() + np.abs(lq).max() + 1
    for nm, want, what, slack in checks:
        got = res[1][nm]
        if nm[0] == 'g':
            lw = lp - lq
            if want == 'mean':
                ax = [] if m.axis is None else np.atleast_1d(m.axis)
                w = np.ones(m.lead) / max(1, np.prod(
                    [m.lead[a] for a in ax]))
            else:
                w = np.exp(lw - lw.max(m.axis, keepdims=True))
                w = w / w.sum(m.axis, keepdims=True)
            try:
                ref = grad_theta(m, z, -w)
            except vi.Kink:
                continue
            for j, (a, b) in enumerate(zip(got, ref)):
                close(a, b, (3e-3 if case['dtype'] == 'float32' else 1e-4) *
                      (sc + np.abs(b).max()), '%s: gradient in model '
                      'parameter %d' % (what, j))
            continue
        with np.errstate(all='ignore'):
            w = np.asarray(want(R))
            t = tol * sc
            if isinstance(slack, tuple):
                # discontinuous: judged away from the jumps
                a, b = slack[1](R)
                if slack[0] in CMP:
                    ok = np.abs(a - b) > t * 10
                    t = 0
                else:
                    d = a / b
                    e = 1e-2 * (1 + np.abs(d))
                    ok = (np.abs(d - np.round(d)) > e) & (np.abs(d) < 1e3)
                    t = 10 * t * (1 + np.abs(d)) * (1 + 1 / np.abs(b))
            else:
                if slack is not None:
                    t = t * (1 + np.asarray(slack(R)) + np.abs(w))
                ok = np.isfinite(w) & np.isfinite(t) & (
                    t < 1e3 * (1 + np.abs(w)))
            require(got.shape == w.shape, '%s: shape %s, expected %s', what,
                    got.shape, w.shape)
            if w.dtype == bool:
                require(got.dtype == bool, '%s: dtype %s', what, got.dtype)
            got, w, t = (np.where(ok, x, 0) for x in (
                np.asarray(got, np.float64), np.asarray(w, np.float64), t))
        close(got, w, t, what)
    if fed is not None:
        require(np.array_equal(fed[0], fv) and np.allclose(fed[1], 2 * fv),
                'feeding an objective has no effect')
    return Info(judged > 0, sorted(set(labels)))


SUBCHECKS = [Sub('history', strategy, check)]
