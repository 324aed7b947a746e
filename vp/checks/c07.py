"""C07: what gradients of samples and log-probabilities mean."""
import numpy as np
from hypothesis import strategies as st
from scipy import special as sp

from vp import dists, gen
from vp.core import Info, Sub, close, fresh_graph, require, rng_of, session


def unbroadcast(g, shape):
    g = np.asarray(g, np.float64)
    while g.ndim > len(shape):
        g = g.sum(0)
    for i, d in enumerate(shape):
        if d == 1 and g.shape[i] != 1:
            g = g.sum(i, keepdims=True)
    return g.reshape(shape)


def sample_grads(inst, s, w, got):
    """Pathwise derivatives of sum(w * sample), recovered from the sample."""
    p, n = inst.p64, inst.name
    sh = {k: v.shape for k, v in p.items()}
    full = np.ones_like(s)
    if n == 'Normal':
        if 'std' in p:
            return {'mean': w * full, 'std': w * (s - p['mean']) / p['std']}
        return {'mean': w * full, 'logstd': w * (s - p['mean'])}
    if n == 'Laplace':
        return {'loc': w * full, 'scale': w * (s - p['loc']) / p['scale']}
    if n == 'Uniform':
        u = (s - p['minval']) / (p['maxval'] - p['minval'])
        return {'minval': w * (1 - u), 'maxval': w * u}
    if n == 'BinConcrete':
        t = p['temperature']
        lo = np.log(s) - np.log1p(-s)
        d = s * (1 - s) / t
        return {'logits': w * d, 'temperature': -w * d * lo}
    if n in ('Concrete', 'ExpConcrete'):
        t = p['temperature']
        ls = np.log(s) if n == 'Concrete' else s
        y = np.exp(ls)
        if n == 'Concrete':
            wy = w * y
            gz = wy - y * wy.sum(-1, keepdims=True)
        else:
            gz = w - y * w.sum(-1, keepdims=True)
        return {'logits': gz / t, 'temperature': -gz * ls / t}
    if n == 'MultivariateNormalCholesky':
        z = dists._solve_tril(p['cov_tril'], (s - p['mean'])[..., None])
        return {'mean': w, 'cov_tril': w[..., None] * np.swapaxes(z, -1, -2)}
    if n == 'MatrixVariateNormalCholesky':
        U, V = p['u_tril'], p['v_tril']
        a = dists._solve_tril(U, s - p['mean'])             # Z V^T
        z = np.swapaxes(dists._solve_tril(V, np.swapaxes(a, -1, -2)), -1, -2)
        gu = w @ np.swapaxes(a, -1, -2)
        gv = np.swapaxes(w, -1, -2) @ (U @ z)
        return {'mean': w, 'u_tril': gu, 'v_tril': gv}
    raise KeyError(n)


def is_zero(g):
    return g is None or not np.any(np.asarray(g))


def run_grads(sess, ys, xs, feed=None):
    """tf.gradients, evaluated; None stays None."""
    import tensorflow as tf
    gs = tf.gradients(ys, xs)
    live = [g for g in gs if g is not None]
    return gs, live


def check_sample(case):
    import tensorflow as tf
    import zhusuan.distributions as zd
    inst = dists.Inst(case)
    nm = inst.name
    rep = bool(case['rep'])
    can = nm in dists.REPARAM
    with fresh_graph(case['seed'] % 1000) as g, session(g) as sess:
        pt = {}

        def conv(name, a):
            pt[name] = tf.constant(a)
            return pt[name]
        extra = {'is_reparameterized': rep} if can and (
            case['explicit'] or not rep) else {}
        if nm in dists.PATH:
            extra['use_path_derivative'] = bool(case['path'])
        d = inst.build(zd, conv, **extra)
        require(bool(d.is_reparameterized) == (rep and can),
                '%s.is_reparameterized is %r', nm, d.is_reparameterized)
        n = case['n']
        s = d.sample() if n is None else d.sample(n)
        shape = (() if n is None else (n,)) + inst.batch + inst.value_shape
        w = rng_of('w', case['seed']).normal(size=shape)
        if nm in dists.DISCRETE and not inst.vdtype.startswith('float'):
            y = tf.reduce_sum(tf.cast(s, tf.float64) * w)
        else:
            y = tf.reduce_sum(s * tf.constant(w.astype(inst.vdtype)))
        names = sorted(pt)
        gs = tf.gradients(y, [pt[k] for k in names])
        out = sess.run({'s': s, 'g': [q for q in gs if q is not None]})
        it = iter(out['g'])
        got = {k: (next(it) if q is not None else None)
               for k, q in zip(names, gs)}
    labels = [nm, 'reparameterized' if rep and can else 'blocked']
    if not (rep and can):
        for k in names:
            require(is_zero(got[k]), '%s: gradient of a non-reparameterized '
                    'sample flows into %s: %s', nm, k, got[k])
        return Info(True, labels)
    s64 = out['s'].astype(np.float64)
    ww = np.asarray(w).astype(inst.dtype).astype(np.float64)
    if nm == 'FoldNormal':
        # sample = |mean + std z|; the sign is only visible via d/dmean
        if n is not None or inst.params['mean'].shape != inst.batch:
            for k in names:
                require(got[k] is not None, '%s: no pathwise gradient for %s',
                        nm, k)
            return Info(True, labels)
        p = inst.p64
        sg = np.asarray(got['mean'], np.float64) / ww
        close(np.abs(sg), np.ones_like(sg), 1e-4, 'FoldNormal d sample/d mean')
        sg = np.sign(sg)
        k = 'std' if 'std' in p else 'logstd'
        want = ww * sg * (sg * s64 - p['mean'])
        if k == 'std':
            want = want / p['std']
        want = unbroadcast(np.broadcast_to(want, inst.batch), p[k].shape)
        close(got[k], want, 1e-4 * (1 + np.abs(want)) if inst.dtype ==
              'float64' else 1e-2 * (5 + np.abs(want)), 'FoldNormal d sample/d'
              + k)
        return Info(True, labels)
    with np.errstate(all='ignore'):
        ref = sample_grads(inst, s64, ww, got)
    for k in names:
        require(got[k] is not None, '%s: no pathwise gradient for %s', nm, k)
        full = np.broadcast_to(ref[k], np.broadcast_shapes(
            ref[k].shape, inst.p64[k].shape))
        want = unbroadcast(full, inst.p64[k].shape)
        mag = unbroadcast(np.abs(full), inst.p64[k].shape)
        gk = np.asarray(got[k], np.float64)
        if 'tril' in k:
            gk, want, mag = np.tril(gk), np.tril(want), np.tril(mag)
        ok = np.isfinite(want)
        tol = (1e-7 if inst.dtype == 'float64' else 3e-3) * (1 + mag) * (
            10 if nm in ('BinConcrete', 'Concrete', 'ExpConcrete') else 1)
        close(np.where(ok, gk, 0.), np.where(ok, want, 0.), tol,
              '%s: d sample / d %s' % (nm, k))
    return Info(True, labels)


def check_logp(case):
    import tensorflow as tf
    import zhusuan.distributions as zd
    inst = dists.Inst(case)
    nm = inst.name
    gb = gen.given_batch(inst.batch, case['given'], nm)
    given = inst.given(case['given']['seed'], gb)
    path = bool(case['path']) and nm in dists.PATH
    cont = nm not in dists.DISCRETE
    p = inst.p64
    if nm == 'Uniform':
        lo, hi = np.max(p['minval']), np.min(p['maxval'])
        given = np.clip(given, lo + .25 * (hi - lo), lo + .75 * (hi - lo))
    if nm == 'FoldNormal':
        given = np.maximum(given, 1e-2)
    if nm == 'Laplace':
        # keep off the kink
        given = given + 1e-3
        if np.min(np.abs(given - p['loc'])) < 1e-4:
            return Info(False, [nm, 'at the kink'])
    given = np.asarray(given, inst.vdtype)
    lp, sc = inst.logpdf(given)
    w = rng_of('w', case['seed']).normal(size=lp.shape)
    with fresh_graph(case['seed'] % 1000) as g, session(g) as sess:
        pt = {}

        def conv(name, a):
            pt[name] = tf.constant(a)
            return pt[name]
        extra = {}
        if nm in dists.PATH and (path or case['explicit']):
            extra['use_path_derivative'] = path
        if nm in dists.REPARAM:
            extra['is_reparameterized'] = bool(case['rep'])
        d = inst.build(zd, conv, group_ndims=case['gn'], **extra)
        if nm in dists.PATH:
            require(bool(d.use_path_derivative) == path,
                    '%s.use_path_derivative is %r', nm, d.use_path_derivative)
        gt = tf.constant(given)
        wl = w
        if case['gn']:
            wl = np.broadcast_to(w[(Ellipsis,) + (slice(0, 1),) * case['gn']],
                                 w.shape)
            wt = w[(Ellipsis,) + (0,) * case['gn']]
        else:
            wt = w
        y = tf.reduce_sum(d.log_prob(gt) * tf.constant(np.asarray(wt)))
        names = sorted(pt)
        xs = [pt[k] for k in names] + ([gt] if cont else [])
        gs = tf.gradients(y, xs)
        out = sess.run([q for q in gs if q is not None] + [y])
        it = iter(out)
        got = [next(it) if q is not None else None for q in gs]
        val = out[-1]
    with np.errstate(invalid='ignore'):
        close(val, np.sum(np.where(np.isfinite(lp), wl * lp, 0.)),
              inst.tol(np.sum(np.abs(wl) * sc)), nm + ' weighted log_prob')

    def f():
        return float(np.sum(wl * inst.logpdf(cur['given'])[0]))
    cur = {'given': np.array(given, np.float64)}

    def fd(arr, mask=None):
        out_ = np.zeros_like(arr)
        flat, fo = arr.reshape(-1), out_.reshape(-1)
        mid = f()
        for i in range(flat.size):
            if mask is not None and not mask.reshape(-1)[i]:
                continue
            x0 = flat[i]
            h = 1e-5 * max(abs(x0), .1)
            flat[i] = x0 + h
            a = f()
            flat[i] = x0 - h
            b = f()
            flat[i] = x0
            up, down = (a - mid) / h, (mid - b) / h
            # nan: no derivative here (location of a Laplace, support edge)
            fo[i] = (a - b) / (2 * h) if abs(up - down) <= .05 * (
                1 + abs(up) + abs(down)) else np.nan
        return out_

    kinks = [False]

    def judged(g, want):
        bad = np.isnan(want)
        kinks[0] |= bool(bad.any())
        return np.where(bad, 0., g), np.where(bad, 0., want)
    scale = float(np.sum(np.abs(wl) * sc))
    for k, gk in zip(names, got):
        if path:
            require(is_zero(gk), '%s: use_path_derivative=True but log_prob '
                    'has gradient %s in %s', nm, gk, k)
            continue
        arr = inst.p64[k]
        arr = np.array(arr)            # own, writable
        inst.p64[k] = arr
        mask = np.tril(np.ones(arr.shape)) if 'tril' in k else None
        want = fd(arr, mask)
        if gk is None:
            gk = np.zeros(arr.shape)
        gk = np.asarray(gk, np.float64)
        if mask is not None:
            gk = gk * mask
        gk, want = judged(gk, want)
        close(gk, want, 2e-4 * (1 + np.abs(want)) + 1e-9 * scale,
              '%s: d log_prob / d %s' % (nm, k))
    if cont:
        gk = got[-1]
        want = fd(cur['given'])
        gk = np.zeros(given.shape) if gk is None else gk
        gk, want = judged(gk, want)
        close(gk, want, 2e-4 * (1 + np.abs(want)) + 1e-9 * scale,
              '%s: d log_prob / d given' % nm)
    return Info(True, [nm, 'path derivative' if path else 'full derivative'] +
                ['some points without derivative'] * kinks[0])


@st.composite
def s_sample(draw):
    c = draw(gen.dist_case(names=tuple(n for n in dists.ALL if n !=
                                       'UnnormalizedMultinomial'),
                           dtypes=('float32', 'float64'), max_size=12,
                           max_rank=3, kmax=4, regimes=('mid',),
                           none_n_exp=False,
                           vdtypes=('float32', 'float64', 'int32')))
    if c.get('n_exp'):
        c['n_exp'] = min(c['n_exp'], 8)
    c['rep'] = draw(st.booleans())
    c['path'] = draw(st.booleans())
    c['explicit'] = draw(st.booleans())
    c['n'] = draw(st.none() | st.integers(1, 3))
    return c


@st.composite
def s_logp(draw):
    c = draw(gen.dist_case(dtypes=('float64',), max_size=6, max_rank=2,
                           kmax=3, regimes=('mid',)))
    c['given'] = draw(gen.given_shape())
    c['path'] = draw(st.booleans())
    c['rep'] = draw(st.booleans())
    c['explicit'] = draw(st.booleans())
    nb = len(dists.Inst(c).batch)
    c['gn'] = draw(st.integers(0, nb))
    return c


SUBCHECKS = [Sub('samples', s_sample, check_sample, strata=tuple(
    n for n in dists.ALL if n != 'UnnormalizedMultinomial')),
             Sub('logprob', s_logp, check_logp, strata=dists.ALL)]
