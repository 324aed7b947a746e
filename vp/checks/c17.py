"""C17: every stochastic gradient MCMC iteration is the published update.

One graph is run in several sessions that draw the same random numbers:
with friction and gradient switched off (reveals the momenta), with the
gradient switched off (reveals the injected noise), and as it is.  The last
trajectory must be the one the update equations give for the revealed momenta
and noise; momenta and noise must be independent normals of the right scale.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vp import gen, mc, sched
from vp.core import (Info, Sub, Violation, close, fresh_graph, require,
                     session)

ALGOS = ('SGLD', 'PSGLD', 'SGHMC', 'SGNHT')
KINDS = ('gauss', 'student', 'logistic', 'quartic')


@st.composite
def strategy(draw):
    algo = draw(st.sampled_from(ALGOS))
    tgt = draw(mc.target_case(kinds=KINDS))
    if draw(st.sampled_from([False, False, True])):
        tgt['chain'] = [200]
    tgt['couple'] = draw(st.sampled_from([.5, 1.5, 0.]))
    return {'algo': algo, 'tgt': tgt,
            'lr': draw(st.sampled_from([.01, .05, .2, .002])),
            'lrdecay': draw(st.sampled_from([1., 1., .7])),
            'iters': draw(st.one_of(st.integers(1, 6), st.integers(1, 6),
                                    st.integers(1, 6), st.integers(7, 30))),
            'order2': draw(st.sampled_from([None, True, False])),
            'alpha': draw(st.sampled_from([.25, .05, .6, 1.])),
            'beta': draw(st.sampled_from([0., 0., .02, .04])),
            'tune': draw(st.sampled_from([1., .3, 5.])),
            'vec': draw(st.sampled_from([None, True, False])),
            'resample': draw(st.sampled_from(['default', 0, None, 1, 2, 3,
                                              2])),
            'res_ph': draw(st.booleans()),
            'hps': draw(st.sampled_from([None, None, [.5, .1], [.99,
                                                                 .01]])),
            'far': draw(st.sampled_from([1., 1., 1., 25.])),
            'threads': draw(st.sampled_from([1, 1, 4])),
            'restart': draw(st.sampled_from([0, 0, 0, 0, 2, 3, 5])),
            'sched': draw(st.one_of(st.none(), st.integers(0, 10 ** 6),
                                    st.integers(0, 10 ** 6))),
            'tseed': draw(st.integers(0, 10 ** 6))}


class Runner(object):
    def __init__(self, tf, zs, case, tgt, graph):
        self.tf, self.case, self.tgt, self.g = tf, case, tgt, graph
        c = case
        f = tf.float32
        self.lr = tf.placeholder(f, [])
        self.lam = tf.placeholder(f, [])
        self.al = tf.placeholder(f, [])
        self.be = tf.placeholder(f, [])
        self.tu = tf.placeholder(f, [])
        self.res = None
        kw = {}
        if c['algo'] in ('SGHMC', 'SGNHT'):
            if c['order2'] is not None:
                kw['second_order'] = c['order2']
            if c['resample'] != 'default':
                kw['n_iter_resample_v'] = c['resample']
                if c['resample'] is not None and c['res_ph']:
                    self.res = tf.placeholder(tf.int32, [])
                    kw['n_iter_resample_v'] = self.res
        if c['algo'] == 'SGLD':
            s = zs.SGLD(learning_rate=self.lr)
        elif c['algo'] == 'PSGLD':
            if c['hps'] is not None:
                kw['preconditioner_hparams'] = \
                    zs.PSGLD.RMSPreconditioner.HParams(
                        decay=c['hps'][0], epsilon=c['hps'][1])
            s = zs.PSGLD(learning_rate=self.lr, **kw)
        elif c['algo'] == 'SGHMC':
            s = zs.SGHMC(learning_rate=self.lr, friction=self.al,
                         variance_estimate=self.be, **kw)
        else:
            if c['vec'] is not None:
                kw['use_vector_alpha'] = c['vec']
            s = zs.SGNHT(learning_rate=self.lr, variance_extra=self.al,
                         tune_rate=self.tu, **kw)
        self.latent = {n: tf.Variable(z, name=n, trainable=False)
                       for n, z in zip(tgt.names, tgt.init)}
        if tgt.case['meta']:
            # scale the log joint of the meta net by lam
            m = tgt.meta_net(tf, zs)
            m.log_joint = lambda bn: self.lam * tf.add_n(
                bn.cond_log_prob(tgt.names + ['y']))
            model = m
        else:
            lj = tgt.log_joint(tf)
            model = lambda obs: self.lam * lj(obs)
        self.op, self.info = s.sample(model, {'y': tf.constant(tgt.y)},
                                      self.latent)
        self.init = tf.global_variables_initializer()
        self.names = tgt.names
        self.read = [sched.peek(tf, self.latent[n]) for n in self.names]
        self.fetch = {'op': self.op, 'info': {
            k: [getattr(self.info, k)[n] for n in self.names]
            for k in self.info._fields}}
        self.saver = sched.Checkpoint(tf) if case.get('restart') else None
        if case.get('sched') is not None:
            sched.impose(self.fetch, [self.init, self.read] + (
                [self.saver.read, self.saver.write] if self.saver else []),
                case['sched'])

    def lrs(self):
        return [np.float32(self.case['lr'] * self.case['lrdecay'] ** t)
                for t in range(self.case['iters'])]

    def run(self, lam, al, be, tu):
        c = self.case
        fd = {self.lam: lam, self.al: al, self.be: be, self.tu: tu}
        if self.res is not None:
            fd[self.res] = c['resample']
        lv = self.read
        out = {'q': [], 'mean_k': [], 'alpha': []}
        sess = session(self.g, threads=c['threads'])
        try:
            lrs = self.lrs()
            sess.run(self.init, dict(fd, **{}) | {self.lr: lrs[0]})
            out['q'].append(sess.run(lv))
            for t, lr in enumerate(lrs):
                if self.saver and t == c['restart']:
                    # the process goes away and comes back from a checkpoint
                    # (a few iterations first, so that it does not draw the
                    # same random numbers again)
                    new = session(self.g, threads=c['threads'])
                    new.run(self.init, dict(fd) | {self.lr: lrs[0]})
                    for _ in range(t + 7):
                        new.run(self.fetch, dict(fd) | {self.lr: lrs[0]})
                    sess = self.saver.move(sess, new)
                r = sess.run(self.fetch, dict(fd) | {self.lr: lr})
                q = sess.run(lv)
                for a, b in zip(q, r['info']['q']):
                    require(np.array_equal(a, b, equal_nan=True),
                            'info.q differs from the stored samples')
                out['q'].append(q)
                for k in ('mean_k', 'alpha'):
                    if k in r['info']:
                        out[k].append(r['info'][k])
        finally:
            sess.close()
        return out


def as64(xs):
    return [x.astype(np.float64) for x in xs]


def normal_check(xs, what, labels):
    """pool of arrays (iterations x latents) that must be iid N(0,1)."""
    pool = np.concatenate([x.reshape(-1) for it in xs for x in it])
    if pool.size < 20:
        return
    ks = stats.kstest(pool, 'norm').statistic * np.sqrt(pool.size)
    zv = (np.mean(pool ** 2) - 1) * np.sqrt(pool.size / 2.)
    require(ks < 4 and abs(zv) < (9 if pool.size < 200 else 7.5),
            '%s is not standard normal after scaling: n=%d, KS %.2f, '
            'mean %.3f, second moment %.3f', what, pool.size, ks, pool.mean(),
            np.mean(pool ** 2))
    if pool.size >= 200:
        labels.append('law judged')
    # no shared draws
    for it in range(1, len(xs)):
        for k in range(len(xs[it])):
            a, b = xs[it][k].reshape(-1), xs[it - 1][k].reshape(-1)
            if a.size >= 100:
                z = np.mean(a * b) * np.sqrt(a.size)
                require(abs(z) < 7.5, '%s repeats between iterations: z=%.1f',
                        what, z)
    for it in range(len(xs)):
        for k in range(len(xs[it])):
            for l in range(k):
                a, b = xs[it][k].reshape(-1), xs[it][l].reshape(-1)
                n = min(a.size, b.size)
                if n < 6:
                    continue
                a, b = a[:n], b[:n]
                z = np.mean(a * b) * np.sqrt(n)
                require(n < 100 or abs(z) < 7.5,
                        '%s is shared between latents: z=%.1f', what, z)
                require(np.abs(a - b).max() > 1e-4,
                        '%s is the same for two latents', what)
    for it in range(len(xs)):
        for k in range(len(xs[it])):
            a = xs[it][k]
            if a.ndim and a.shape[0] >= 100:
                z = np.mean(a[1:] * a[:-1]) * np.sqrt(a[1:].size)
                require(abs(z) < 7.5, '%s is shared between chains: z=%.1f',
                        what, z)


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    tgt = mc.Target(case['tgt'])
    tgt.init = [(z * case['far']).astype('float32') for z in tgt.init]
    algo = case['algo']
    labels = [algo, 'latents %d' % len(tgt.names)]
    if 0 < (case.get('restart') or 0) < case['iters']:
        labels.append('restarted')
    if case.get('sched') is not None:
        labels.append('imposed order')
    K = range(len(tgt.names))
    al = case['alpha']
    be = min(case['beta'], al) if algo == 'SGHMC' else 0.
    with fresh_graph(case['tseed']) as g:
        R = Runner(tf, zs, case, tgt, g)
        lrs = [float(x) for x in R.lrs()]
        T = len(lrs)
        full = R.run(1., al, be, case['tune'])
        flat = R.run(0., al, be, 0.)
        calm = R.run(0., 0., 0., 0.) if algo in ('SGHMC', 'SGNHT') else None
    qf = [as64(q) for q in full['q']]
    q0 = [as64(q) for q in flat['q']]
    for a, b in zip(qf[0], q0[0]):
        require(np.array_equal(a, b), 'the initial samples were changed')
    mag = 1 + max(float(np.abs(x).max()) for q in qf + q0 for x in q)
    if not np.isfinite(mag) or mag > 1e3:
        return Info(False, labels + ['diverged'])

    if algo in ('SGLD', 'PSGLD'):
        dec, ep = case['hps'] or (.9, 1e-3)
        xi = []
        for t in range(T):
            sc = np.sqrt(lrs[t] / (ep if algo == 'PSGLD' else 1.))
            xi.append([(q0[t + 1][k] - q0[t][k]) / sc for k in K])
        aux = [np.zeros_like(x) for x in q0[0]]
        for t in range(T):
            gr, g32 = tgt.grad(qf[t]), tgt.grad(qf[t], np.float32)
            for k in K:
                # the preconditioner amplifies rounding of small gradients
                dg = 2e-6 * (1 + np.abs(gr[k]) + np.abs(qf[t][k])) + \
                    10 * np.abs(gr[k] - g32[k])

                def upd(g):
                    G = 1.
                    if algo == 'PSGLD':
                        G = 1 / (ep + np.sqrt(dec * aux[k] +
                                              (1 - dec) * g ** 2))
                    return qf[t][k] + .5 * lrs[t] * G * g + \
                        np.sqrt(lrs[t] * G) * xi[t][k]
                want = upd(gr[k])
                tol = 2e-5 * mag + 1e-5 * np.abs(want - qf[t][k])
                tol = tol + np.maximum(np.abs(upd(gr[k] + dg) - want),
                                       np.abs(upd(gr[k] - dg) - want))
                close(qf[t + 1][k], want, tol, '%s update of %s' % (
                    algo, tgt.names[k]), '(iteration %d)' % (t + 1))
                aux[k] = dec * aux[k] + (1 - dec) * gr[k] ** 2
        normal_check(xi, 'the injected noise', labels)
        return Info(True, labels)

    order2 = case['order2'] is not False
    n = case['resample']
    if n == 'default':
        n = 20 if algo == 'SGHMC' else 0
    n = n or 0
    # momenta at the start of each iteration, friction and gradient off
    qc = [as64(q) for q in calm['q']]
    r = [[qc[t + 1][k] - qc[t][k] for k in K] for t in range(T)]
    cmag = 1 + max(float(np.abs(x).max()) for q in qc for x in q)
    fresh = [True]
    for t in range(1, T):
        ch = [np.abs(r[t][k] - r[t - 1][k]).max() > 1e-5 * cmag for k in K]
        require(all(ch) or not any(ch), 'only some momenta were resampled '
                'at iteration %d', t + 1)
        fresh.append(all(ch))
    times = [t for t in range(1, T) if fresh[t]]
    if n == 0:
        require(not times, 'momenta resampled at iterations %s although '
                'resampling is off', times)
    else:
        require(all(b - a == n for a, b in zip(times, times[1:])) and
                (not times or times[0] <= n) and
                (times or T <= n), 'momenta resampled at iterations %s, '
                'expected once every %d', [t + 1 for t in times], n)
    v0 = [[r[t][k] / np.sqrt(lrs[t]) for k in K] for t in range(T)
          if fresh[t]]
    normal_check(v0, 'the (re)sampled momentum', labels)
    # noise, gradient off
    s = [np.sqrt(2 * (al - be) * lr) for lr in lrs]
    xi = []
    v = None
    dh = np.exp(-.5 * al)
    for t in range(T):
        vo = r[t] if fresh[t] else v
        if order2:
            v = [2 * (q0[t + 1][k] - q0[t][k]) - vo[k] for k in K]
            xi.append([v[k] / dh - dh * vo[k] for k in K])
        else:
            v = [q0[t + 1][k] - q0[t][k] for k in K]
            xi.append([v[k] - (1 - al) * vo[k] for k in K])
    if al > be:
        normal_check([[x / s[t] for x in xi[t]] for t in range(T)],
                     'the injected noise', labels)
        if all(lr > 1e-3 for lr in lrs):
            pass
    else:
        for t in range(T):
            for k in K:
                close(xi[t][k], 0 * xi[t][k], 2e-5 * mag, 'noise without '
                      'extra variance')
    # everything on
    vec = case['vec'] is not False
    red = (lambda x: x) if (algo == 'SGNHT' and vec) else np.mean
    tun = case['tune']

    def trajectory(rng):
        """the update equations from the revealed momenta and noise; with rng,
        every ingredient is disturbed by a few roundings (the friction and the
        momenta feed back, so errors may grow over the iterations)."""
        def off(x, t, g=None):
            if rng is None:
                return x
            e = 4e-7 * (t + 1) * mag if g is None else 4e-7 * (
                1 + np.abs(x)) + np.abs(g)
            return x + e * rng.choice([-1., 1.], np.shape(x))

        def grads(q):
            g = tgt.grad(q)
            if rng is None:
                return g
            h = tgt.grad(q, np.float32)
            return [off(x, 0, x - y) for x, y in zip(g, h)]
        a_ = [al * np.ones_like(x) if (algo == 'SGNHT' and vec) else
              np.float64(al) for x in qf[0]]
        v = None
        out = []
        for t in range(T):
            vo = r[t] if fresh[t] else v
            vo = [off(x, t if fresh[t] else 0) for x in vo]
            xt = [off(x, t) for x in xi[t]]
            lr = lrs[t]
            if order2:
                q1 = [qf[t][k] + .5 * vo[k] for k in K]
                gr = grads(q1)
                if algo == 'SGNHT':
                    a1 = [a_[k] + .5 * tun * (red(vo[k] ** 2) - lr)
                          for k in K]
                else:
                    a1 = a_
                d = [np.exp(-.5 * a) for a in a1]
                v = [d[k] * (d[k] * vo[k] + lr * gr[k] + xt[k]) for k in K]
                q = [q1[k] + .5 * v[k] for k in K]
                if algo == 'SGNHT':
                    a_ = [a1[k] + .5 * tun * (red(v[k] ** 2) - lr) for k in K]
            else:
                gr = grads(qf[t])
                v = [(1 - a_[k]) * vo[k] + lr * gr[k] + xt[k] for k in K]
                q = [qf[t][k] + v[k] for k in K]
                if algo == 'SGNHT':
                    a_ = [a_[k] + tun * (red(v[k] ** 2) - lr) for k in K]
            if rng is not None and algo == 'SGNHT':
                a_ = [a + 2e-7 * (1 + np.abs(a)) * rng.choice(
                    [-1., 1.], np.shape(a)) for a in a_]
            out.append((q, [red(x ** 2) for x in v], list(a_)))
        return out

    base = trajectory(None)
    with np.errstate(all='ignore'):
        shadow = [trajectory(np.random.default_rng(i)) for i in range(4)]

    def spread(t, i, k):
        d = np.max([np.abs(s[t][i][k] - base[t][i][k]) for s in shadow], 0)
        return 4 * d + 4 * np.max(d, initial=0.) * .25
    tol = 4e-5 * mag
    judged = 0
    for t in range(T):
        ctx = '(iteration %d)' % (t + 1)
        q, mk, a_ = base[t]
        tq = [tol + spread(t, 0, k) for k in K]
        if not all((x < .02 * mag).all() for x in tq):
            labels.append('sensitive')
            break
        judged += 1
        for k in K:
            close(qf[t + 1][k], q[k], tq[k], '%s update of %s' % (
                algo, tgt.names[k]), ctx)
            close(full['mean_k'][t][k], mk[k], 1e-4 * (1 + np.abs(
                mk[k])) * mag + spread(t, 1, k), 'mean_k', ctx)
            if algo == 'SGNHT':
                close(full['alpha'][t][k], a_[k], 2e-4 * (1 + np.abs(
                    a_[k])) * mag * (1 + tun) + spread(t, 2, k), 'alpha', ctx)
    if not judged:
        return Info(False, labels)
    labels += ['second order' if order2 else 'first order']
    if times:
        labels.append('resampled')
    return Info(True, labels)


def skeleton(case, qs, al, phase):
    algo, o2 = case['algo'], case['order2']
    q, v, a = 0., 0., al
    for t, x in enumerate(case['kick']):
        if phase is not None and t % 20 == phase:
            v = 0.
        if o2:
            h = q + .5 * v
            a1 = a + .5 * v * v if algo == 'SGNHT' else a
            d = np.exp(-.5 * a1)
            v = d * (d * v + x)
            q = h + .5 * v
            if algo == 'SGNHT':
                a = a1 + .5 * v * v
        else:
            v = (1 - a) * v + x
            q = q + v
            if algo == 'SGNHT':
                a = a + v * v
        if abs(q) + abs(v) + abs(a) > 20:
            break
        # momenta of size 1e-9 ** .5, amplified a little
        close(qs[t], np.full(3, q), 2e-3 * (1 + abs(q)) * (1 + t), '%s in the '
              'noise-free limit with default parameters' % algo,
              '(iteration %d)' % (t + 1))


@st.composite
def default_case(draw):
    algo = draw(st.sampled_from(['SGHMC', 'SGNHT']))
    n = draw(st.integers(2, 24))
    return {'algo': algo, 'order2': draw(st.booleans()),
            'far': draw(st.booleans()),
            'kick': draw(st.lists(st.sampled_from([0., 0., 0., 1., -.5]),
                                  min_size=n, max_size=n)),
            'sched': draw(st.one_of(st.none(), st.integers(0, 10 ** 6))),
            'tseed': draw(st.integers(0, 10 ** 6))}


def check_default(case):
    """SGHMC and SGNHT with their documented default hyper-parameters.

    'far' cases: the learning rate is so small and the gradient (fed, the same
    everywhere) so large that noise is negligible, which leaves the
    deterministic recursion.  Otherwise: variance of the first step without
    gradient over many coordinates."""
    import tensorflow as tf
    import zhusuan as zs
    algo, o2 = case['algo'], case['order2']
    kick = list(case['kick'])
    n = 3 if case['far'] else 200000
    with fresh_graph(case['tseed']) as g:
        lr = tf.placeholder(tf.float32, [])
        k = tf.placeholder(tf.float32, [])
        # second_order is the default
        kw = {} if o2 else {'second_order': False}
        s = getattr(zs, algo)(learning_rate=lr, **kw)
        z = tf.Variable(np.zeros(n, 'float32'), trainable=False)
        op, info = s.sample(lambda obs: tf.reduce_sum(k * obs['z']), {},
                            {'z': z})
        init = tf.global_variables_initializer()
        read = sched.peek(tf, z)
        if case.get('sched') is not None:
            sched.impose([op], [init, read], case['sched'])
        with session(g) as sess:
            if not case['far']:
                fd = {lr: .04, k: 0.}
                sess.run(init, fd)
                sess.run(op, fd)
                q = sess.run(read).astype(np.float64)
            else:
                fd = {lr: 1e-9, k: 0.}
                sess.run(init, fd)
                qs = []
                for x in kick:
                    sess.run(op, {lr: 1e-9, k: x * 1e9})
                    qs.append(sess.run(read).astype(np.float64))
    al = .25 if algo == 'SGHMC' else 0.
    if not case['far']:
        d2 = np.exp(-al)
        if o2:
            var = .25 * ((1 + d2) ** 2 + d2 * 2 * al)
            if algo == 'SGNHT':
                # thermostat: alpha = .5 (v^2 - lr) at the half step
                v = np.random.RandomState(0).standard_normal(
                    10 ** 6)
                d2 = np.exp(-.5 * .04 * (v ** 2 - 1))
                var = np.mean(.25 * (v * (1 + d2)) ** 2)
        else:
            var = (1 - al) ** 2 + 2 * al
        got = np.mean(q ** 2) / .04
        require(abs(got / var - 1) < .025, 'variance of a step of %s without '
                'gradient: %r x learning rate, expected %r', algo, got, var)
        return Info(True, [algo, 'variance'])
    # momenta are resampled once every 20 iterations, in any phase
    err = None
    for phase in (range(20) if algo == 'SGHMC' else [None]):
        try:
            skeleton(case, qs, al, phase)
            err = None
            break
        except Violation as e:
            err = err or e
    if err is not None:
        raise err
    return Info(any(kick), [algo, 'skeleton'])


SUBCHECKS = [Sub('update', strategy, check),
             Sub('defaults', default_case, check_default)]
