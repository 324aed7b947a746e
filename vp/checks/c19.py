"""C19: normalizing flows are invertible maps along the last axis whose
returned log-probability is the input log-probability minus log |det J|.

The Jacobian is obtained by differentiating the transformed samples (never the
reported log-determinant), entry of the batch by entry."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import (Info, Sub, Violation, close, fresh_graph, require,
                     rng_of, session)


@st.composite
def strategy(draw):
    lead = draw(gen.dims(max_rank=3, max_size=12, min_rank=1))
    return {'flow': draw(st.sampled_from(['planar', 'planar', 'iaf', 'gru',
                                          'linear', 'lineargru'])),
            'lead': lead, 'd': draw(st.sampled_from([1, 2, 2, 3, 4, 5, 8])),
            'iters': draw(st.sampled_from([1, 1, 2, 3, 2, 5, 0])),
            'init': draw(st.sampled_from(['default', 'mid', 'mid', 'big',
                                           'huge'])),
            'static': draw(st.integers(0, 3)),
            'hidden': draw(st.booleans()),
            'soff': draw(st.sampled_from([0., 0., 0., -6., -14., -30., 4.,
                                          20.])),
            'zscale': draw(st.sampled_from([1., 1., .1, 4.])),
            'seed': draw(gen.SEED)}


def ar_network(tf, case, calls):
    """a user's autoregressive network with fixed nonlinear weights."""
    d = case['d']

    def net(name, id, z, hidden):
        calls.append((name, id, hidden))
        rng = rng_of('ar', case['seed'], int(id))
        mask = np.triu(np.ones((d, d)), 1)
        wm = (rng.standard_normal((d, d)) * mask).astype('float32')
        ws = (rng.standard_normal((d, d)) * mask * .7).astype('float32')
        bm = rng.standard_normal(d).astype('float32')
        bs = (rng.standard_normal(d) * .5 + case['soff']).astype('float32')
        flat = tf.reshape(z, [-1, d])
        m = tf.reshape(tf.matmul(tf.tanh(flat), wm) + bm, tf.shape(z))
        s = tf.reshape(tf.matmul(tf.sin(flat), ws) + bs, tf.shape(z))
        if hidden is not None:
            m = m + hidden
        m.set_shape(z.get_shape())
        s.set_shape(z.get_shape())
        if case['flow'] == 'iaf':
            s = tf.exp(s)
        return m, s
    return net


def np_ar(case, id, z, hidden):
    d = case['d']
    rng = rng_of('ar', case['seed'], int(id))
    mask = np.triu(np.ones((d, d)), 1)
    wm = (rng.standard_normal((d, d)) * mask).astype('float32')
    ws = (rng.standard_normal((d, d)) * mask * .7).astype('float32')
    bm = rng.standard_normal(d).astype('float32')
    bs = (rng.standard_normal(d) * .5 + case['soff']).astype('float32')
    m = np.tanh(z) @ wm + bm
    s = np.sin(z) @ ws + bs
    if hidden is not None:
        m = m + hidden
    if case['flow'] == 'iaf':
        s = np.exp(s)
    return m, s


def planar_forms(pv, x, d):
    """The documented map for every role the variables may have."""
    out, ts = [], []
    x = x.astype(np.float64)
    for b, u, w in itertools.permutations(pv):
        if len(b) != 1 or len(u) != d:
            continue
        wu, ww = np.dot(w, u), np.dot(w, w)
        uh = u + (np.logaddexp(0, wu) - 1 - wu) * w / ww
        a = np.tanh(x @ w + b[0])
        out.append(x + a[..., None] * uh)
        # rounding of w.u reaches the result through w / |w|^2
        e = 2e-6 * (np.sum(np.abs(w * u)) + 1) / np.sqrt(ww)
        # rounding of the score
        ea = (1 - a ** 2) * 2e-6 * (np.abs(x) @ np.abs(w) + abs(b[0])) + 1e-6
        ts.append(1e-5 * (1 + np.abs(x)) + e + ea[..., None] * np.abs(uh).max())
    return out, ts


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    from zhusuan import transform
    d, lead = case['d'], tuple(case['lead'])
    rng = rng_of('flow', case['seed'])
    x = (rng.standard_normal(lead + (d,)) * case['zscale']).astype('float32')
    lp = rng.standard_normal(lead).astype('float32') * 3
    hid = rng.standard_normal(lead + (d,)).astype('float32')
    st_ = case['static']
    calls = []
    labels = []
    with fresh_graph(case['seed'] % 9973) as g, session(g) as sess:
        xs = {0: list(x.shape), 1: [None] * len(lead) + [d],
              2: [None] + list(x.shape[1:]), 3: list(x.shape)}[st_]
        ls = {0: list(lead), 1: [None] * len(lead), 2: list(lead),
              3: [None] * len(lead)}[st_]
        tx = tf.placeholder(tf.float32, xs)
        tl = tf.placeholder(tf.float32, ls)
        if case['flow'] == 'planar':
            z, out = zs.planar_normalizing_flow(tx, tl, case['iters'])
        else:
            gru = case['flow'] in ('gru', 'lineargru')
            if case['flow'].startswith('linear'):
                nn = transform.linear_ar
            else:
                nn = ar_network(tf, case, calls)
            kw = {'update': 'gru'} if gru else (
                {'update': 'normal'} if case['seed'] % 2 else {})
            z, out = transform.inv_autoregressive_flow(
                tx, hid if case['hidden'] else None, tl, nn, case['iters'],
                **kw)
        zg = [tf.gradients(z[..., j], tx)[0] for j in range(d)]
        sess.run(tf.global_variables_initializer())
        if case['init'] != 'default':
            sc = .4 if case['init'] == 'mid' else .9
            huge = case['init'] == 'huge' and case['flow'] == 'planar' and \
                case['iters'] == 1
            vals = []
            for v in tf.trainable_variables():
                val = rng.standard_normal(v.get_shape().as_list()) * sc
                if huge and val.size == d and v.get_shape().ndims == 2:
                    val = val * 9
                    vals.append(val)
                    # far below -10 the map is singular in float32
                    if len(vals) == 2 and np.sum(vals[0] * val) < -10:
                        val = -val
                sess.run(v.assign(val.astype('float32')))
        else:
            sc = .005

        def run(xv, lv):
            return sess.run([z, out] + zg, {tx: xv, tl: lv})
        r = run(x, lp)
        zo, lo = r[0], r[1]
        J = np.stack(r[2:], -2).astype(np.float64)   # [..., out, in]
        if case['flow'] in ('iaf', 'gru') and case['soff']:
            labels.append('extreme scales')
        require(zo.shape == x.shape and lo.shape == lead,
                'shapes %s %s for samples %s', zo.shape, lo.shape, x.shape)
        sign, ld = np.linalg.slogdet(J)
        cond = np.linalg.cond(J)
        nit = max(case['iters'], 1)
        ok = np.isfinite(ld) & (cond < 3e3)
        if case['flow'] == 'planar':
            require(np.isfinite(zo).all(), 'planar: transformed samples are '
                    'not finite')
            require(np.isfinite(lo).all(), 'planar: log-probability %r', lo)
            # the documented map has det > 0 in every step
            require(bool(np.all(sign[ok] > 0)), 'not invertible: det J <= 0')
        tol = 2e-4 * nit + 4e-6 * nit * cond + 1e-6 * np.abs(lp)
        close(np.where(ok, lo, 0), np.where(ok, lp - ld, 0),
              np.where(ok, tol, 1), '%s log-probability (iters %d)' % (
                  case['flow'], case['iters']))
        if case['iters'] == 0:
            close(zo, x, 0, 'zero flows must be the identity')
        # one flow: the documented form of the map
        if case['iters'] == 1:
            if case['flow'] == 'planar':
                dz = (zo.astype(np.float64) - x).reshape(-1, d)
                if d > 1 and len(dz) > 1:
                    s = np.linalg.svd(dz, compute_uv=False)
                    mag = np.abs(zo).max() + np.abs(x).max()
                    require(s[1] <= 1e-4 * s[0] + 1e-5 * mag * len(dz),
                            'z - f(z) is not along one direction: %r', s)
                pv = [v.astype(np.float64).reshape(-1) for v in sess.run(
                    tf.trainable_variables())]
                if sorted(len(v) for v in pv) == sorted([1, d, d]):
                    want, ts = planar_forms(pv, x, d)
                    require(any(np.all(np.abs(zo - w) <= t) for w, t in zip(
                        want, ts)), 'planar: one flow gives %r, the documented'
                        ' form %r', zo, want[0])
                    labels.append('documented form')
            elif not case['flow'].startswith('linear'):
                m, s = np_ar(case, 0, x.astype(np.float64),
                             hid if case['hidden'] else None)
                if gru:
                    s = 1 / (1 + np.exp(-s))
                    m = (1 - s) * m
                # the documented map has a triangular Jacobian with diagonal s
                # whatever its conditioning
                ref = lp - np.sum(np.log(s), -1)
                close(lo, ref, 2e-4 + 1e-5 * (np.abs(lp) + np.sum(
                    np.abs(np.log(s)), -1)), case['flow'] +
                    ' log-probability of one step')
                want = s * x + m
                t = 1e-4 * (1 + np.abs(want))
                if not np.all(np.abs(zo - want) <= t):
                    close(zo[..., ::-1], want, t, 'one step of the flow '
                          '(up to the order of the last axis)')
        # entries of the batch do not influence each other, and the
        # log-probability only enters additively
        n = int(np.prod(lead))
        keep = case['seed'] % n
        x2 = (rng.standard_normal((n, d)) * case['zscale']).astype('float32')
        x2[keep] = x.reshape(n, d)[keep]
        lp2 = lp + 1
        if not (case['hidden'] and case['flow'] not in ('planar',)):
            r2 = run(x2.reshape(x.shape), lp2)
            zk, lk = zo.reshape(n, d)[keep], lo.reshape(n)[keep]
            if np.isfinite(zk).all():
                close(r2[0].reshape(n, d)[keep], zk,
                      1e-5 * (1 + np.abs(zk).max()),
                      'batch entry changed with the other entries')
            if np.isfinite(lk):
                close(r2[1].reshape(n)[keep], lk + 1., 1e-4 * (1 + abs(lk)),
                      'log-probability changed with the other entries')
    if calls:
        require([c[1] for c in calls] == list(range(case['iters'])),
                'network called with ids %s', [c[1] for c in calls])
        require(all((c[2] is not None) == case['hidden'] for c in calls),
                'hidden is not handed to the network')
    return Info(case['iters'] > 0 and bool(ok.any()),
                [case['flow'], 'iters %d' % case['iters'],
                 'init ' + case['init'], 'ill conditioned' if not ok.all()
                 else 'well conditioned'] + labels)


@st.composite
def reject_strategy(draw):
    return {'flow': draw(st.sampled_from(['planar', 'iaf'])),
            'fault': draw(st.sampled_from(
                ['rank1', 'lprank', 'lpshape', 'lpbroadcast', 'iters',
                 'unknown_d', 'none'])),
            'dyn': draw(st.booleans()), 'lead': draw(gen.dims(
                max_rank=3, max_size=12, min_rank=1)),
            'd': draw(st.integers(1, 4)), 'seed': draw(gen.SEED)}


def reject_check(case):
    import tensorflow as tf
    import zhusuan as zs
    from zhusuan import transform
    f, dyn, d = case['fault'], case['dyn'], case['d']
    lead = tuple(case['lead'])
    rng = rng_of('rej', case['seed'])
    x = rng.standard_normal(lead + (d,)).astype('float32')
    lp = rng.standard_normal(lead).astype('float32')
    iters = 2
    if f == 'rank1':
        x, lp = x.reshape(-1)[:d], lp.reshape(-1)[0]
    elif f == 'lprank':
        lp = lp[..., None] if case['seed'] % 2 else lp.reshape(-1)[0]
    elif f == 'lpshape':
        lp = np.zeros(lead[:-1] + (lead[-1] + 1,), 'float32')
    elif f == 'lpbroadcast':
        if lead[-1] == 1:
            return Info(False, ['nothing to break'])
        lp = lp[..., :1]
    elif f == 'iters':
        iters = 2.0
    with fresh_graph() as g, session(g, optimize=False) as sess:
        def go():
            if dyn:
                tx = tf.placeholder(tf.float32, [None] * (x.ndim - 1) + [
                    None if f == 'unknown_d' else x.shape[-1]])
                tl = tf.placeholder(tf.float32, None if case['seed'] % 3 == 0
                                    else [None] * np.ndim(lp))
            else:
                tx, tl = tf.constant(x), tf.constant(lp)
                if f == 'unknown_d':
                    tx = tf.placeholder(tf.float32, list(lead) + [None])
            if case['flow'] == 'planar':
                r = zs.planar_normalizing_flow(tx, tl, iters)
            else:
                r = transform.inv_autoregressive_flow(
                    tx, None, tl, transform.linear_ar, iters)
            sess.run(tf.global_variables_initializer())
            feed = {}
            if tx.op.type == 'Placeholder':
                feed[tx] = x
            if tl.op.type == 'Placeholder':
                feed[tl] = lp
            return sess.run(r, feed)
        if f == 'none':
            a, b = go()
            require(a.shape == x.shape and b.shape == lp.shape, 'shapes')
        else:
            try:
                go()
            except (ValueError, TypeError, tf.errors.InvalidArgumentError):
                pass
            else:
                raise Violation('%s flow accepted fault %s' % (case['flow'],
                                                               f))
    return Info(f != 'none', [f])


SUBCHECKS = [Sub('jacobian', strategy, check),
             Sub('reject', reject_strategy, reject_check)]
