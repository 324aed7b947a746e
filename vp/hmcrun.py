"""Run HMC histories on the real code and judge every iteration."""
import numpy as np
from hypothesis import strategies as st

from vp import mc, sched
from vp.core import (Info, Violation, close, fresh_graph, require, rng_of,
                     session)


@st.composite
def hmc_case(draw, adapt):
    """adapt: 'none' or 'any'."""
    mode = 'none'
    if adapt == 'any':
        mode = draw(st.sampled_from(['step', 'step', 'mass', 'mass',
                                     'const', 'constmass', 'off']))
    mass = mode in ('mass', 'constmass')
    tgt = draw(mc.target_case(min_chain=4 if mass else 1, max_chain=12,
                              kinds=('gauss', 'student', 'logistic',
                                     'quartic') if mass else mc.KINDS))
    c = {'tgt': tgt, 'mode': mode,
         'eps': draw(st.sampled_from([.1, .02, .3, .6])),
         'L': draw(st.sampled_from([1, 2, 3, 5, 8, 20])),
         'L_ph': draw(st.booleans()),
         'tensors': draw(st.sampled_from([False, False, True])),
         'iters': draw(st.integers(1, 6 if mode == 'none' else 9)),
         'long': draw(st.sampled_from([0, 0, 0, 0, 0, 1])),
         'threads': draw(st.sampled_from([1, 1, 4])),
         'sched': draw(st.one_of(st.none(), st.integers(0, 10 ** 6),
                                 st.integers(0, 10 ** 6))),
         'restart': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5])),
         'tseed': draw(st.integers(0, 10 ** 6))}
    if c['long']:
        c['iters'] = draw(st.integers(10, 30))
        c['L'] = draw(st.sampled_from([1, 2, 4]))
    # arguments left at their documented defaults
    c['omit'] = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1, 2, 3]))
    if c['omit'] & 1:
        c['L'], c['L_ph'] = 10, False
    if c['omit'] & 2:
        c['eps'] = 1.
    n = c['iters']
    if mode != 'none':
        c.update({
            'gamma': draw(st.sampled_from([None, .05, .2, 1., 3.])),
            't0': draw(st.sampled_from([None, 1, 10, 100])),
            'kappa': draw(st.sampled_from([None, .5, .75, .95])),
            'delta': draw(st.sampled_from([None, .5, .8, .95])),
            'collect': draw(st.sampled_from([None, 2, 3, 5])),
            'decay': draw(st.sampled_from([None, .5, .9, .99])),
            'ss': draw(st.lists(st.sampled_from([True, True, False]),
                                min_size=n, max_size=n)),
            'ms': draw(st.lists(st.sampled_from([True, True, False]),
                                min_size=n, max_size=n))})
        # mass adaptation is switched on before the mass is first used
        # (documented use: adapt during burn-in, then switch off)
        if mode == 'mass':
            for i in range(min(n, max(2, (c['collect'] or 10)))):
                c['ms'][i] = True
        if mode == 'off':
            c['ss'] = [False] * n
    return c


def make(tf, zs, case, tgt):
    kw = {}
    feeds = {}

    def num(v, dtype=tf.float32):
        return tf.constant(v, dtype) if case.get('tensors') else v
    if case['mode'] != 'none':
        for k, nm in (('gamma', 'gamma'), ('t0', 't0'), ('kappa', 'kappa'),
                      ('delta', 'target_acceptance_rate')):
            if case[k] is not None:
                kw[nm] = num(case[k])
        if case['mode'] in ('const', 'constmass'):
            kw['adapt_step_size'] = True
        else:
            feeds['ss'] = kw['adapt_step_size'] = tf.placeholder(
                tf.bool, [])
        if case['mode'] in ('mass', 'constmass'):
            if case['mode'] == 'mass':
                feeds['ms'] = kw['adapt_mass'] = tf.placeholder(tf.bool, [])
            else:
                kw['adapt_mass'] = True
            if case['collect'] is not None:
                kw['mass_collect_iters'] = num(case['collect'], tf.int32)
            if case['decay'] is not None:
                kw['mass_decay'] = num(case['decay'])
    L = case['L']
    if case['L_ph']:
        L = feeds['L'] = tf.placeholder(tf.int32, [])
    if not case.get('omit', 0) & 1:
        kw['n_leapfrogs'] = L
    if not case.get('omit', 0) & 2:
        kw['step_size'] = num(case['eps'])
    hmc = zs.HMC(**kw)
    latent = {nm: tf.Variable(z, name=nm, trainable=False)
              for nm, z in zip(tgt.names, tgt.init)}
    op, info = hmc.sample(tgt.model(tf, zs), {'y': tf.constant(tgt.y)},
                          latent)
    return hmc, latent, op, info, feeds


class MassModel(object):
    """inverse of the exponentially weighted variance of every coordinate
    over iterations and chains."""

    def __init__(self, tgt, decay):
        self.tgt, self.decay = tgt, decay
        self.hist = []

    def see(self, q):
        self.hist.append([x.astype(np.float64) for x in q])

    def mass(self):
        n = len(self.hist)
        w = self.decay ** np.arange(n - 1, -1, -1)
        w = w / w.sum()
        out = []
        for k in range(len(self.tgt.names)):
            cax = tuple(range(len(self.tgt.chain)))
            m1 = sum(wi * h[k].mean(cax, keepdims=True)
                     for wi, h in zip(w, self.hist))
            v = sum(wi * ((h[k] - m1) ** 2).mean(cax, keepdims=True)
                    for wi, h in zip(w, self.hist))
            out.append(1 / v)
        return out


class Tuner(object):
    """Dual averaging of Hoffman & Gelman (2014).  The shrinkage point is
    theirs, log(10 * eps), or the 10 * eps this code has always used."""

    def __init__(self, case):
        def g(k, d):
            return d if case.get(k) is None else case[k]
        self.gamma, self.t0 = g('gamma', .05), g('t0', 100)
        self.kappa, self.delta = g('kappa', .75), g('delta', .8)
        self.mus = [10 * case['eps'], np.log(10 * case['eps'])]
        self.mu = None
        self.m, self.h, self.leb = 0., 0., np.log(case['eps'])

    def step(self, adapting, fresh, acc, got, ctx):
        lg = float(np.log(got))
        if not adapting:
            want = self.leb
            require(abs(lg - want) <= 2e-4 * (1 + abs(want)),
                    'step size %r with adaptation off, expected %r %s',
                    float(got), float(np.exp(want)), ctx)
            return
        if fresh:
            self.m, self.h = 0., 0.
        self.m += 1
        r1 = 1. / (self.m + self.t0)
        self.h = (1 - r1) * self.h + r1 * (self.delta - acc)
        shift = np.sqrt(self.m) / self.gamma * self.h
        if self.mu is None:
            self.mu = min(self.mus, key=lambda m: abs(m - lg - shift))
        le = self.mu - shift
        require(abs(lg - le) <= 1e-3 + 3e-4 * (abs(self.mu) + abs(shift)),
                'adapted log step size %r, expected %r by dual averaging '
                '(iteration %d since the start, target %r, acceptance %r) %s',
                lg, le, self.m, self.delta, acc, ctx)
        rate = self.m ** -self.kappa
        self.leb = rate * lg + (0. if fresh else (1 - rate) * self.leb)


def match(tgt, tr, before, after, acc, ctx):
    """raise Violation unless the observed iteration is transition tr."""
    ok = ~(tr.sensitive | tr.edge)
    close(np.where(ok, acc, 0), np.where(ok, tr.acc, 0), np.where(
        ok, tr.tol_a, 1), 'acceptance rate', ctx)
    with np.errstate(all='ignore'):
        want = np.minimum(tr.dH, 0)
        off = np.abs(np.log(acc.astype(np.float64)) - want) > tr.tol_d
        # rates below the float range may be 0
        small = (want < -80) & (acc < 1e-30)
        off &= ok & ~small & np.isfinite(want) & np.isfinite(tr.lp1)
    require(not off.any(), 'log of the acceptance rate %r, expected %r %s',
            np.log(acc[off]), want[off], ctx)
    stay = np.ones(tgt.chain, bool)
    move = np.ones(tgt.chain, bool)
    for k in range(len(before)):
        stay &= mc.chain_all(tgt, before[k] == after[k], k)
        with np.errstate(all='ignore'):
            move &= mc.chain_all(
                tgt, np.abs(after[k] - tr.prop[k]) <= tr.tol_q[k], k)
    bad = ok & ~(stay | move)
    require(not bad.any(), 'a chain is neither at its old position nor at '
            'the end of the trajectory: chains %s of %s %s',
            np.argwhere(bad)[:3].tolist(), tgt.chain, ctx)
    # certain outcomes
    require(not (ok & (acc == 0) & ~stay).any(),
            'a proposal with acceptance rate 0 was taken %s', ctx)
    sure = ok & (acc >= 1) & (tr.acc > 1 - 1e-6)
    require(not (sure & ~move).any(),
            'a proposal with acceptance rate 1 was refused %s', ctx)
    return ok, stay, move


def search(tgt, q, p, e0, mass, delta, lo=-6, hi=40):
    """Step sizes the initial search may end with: the mean acceptance rate of
    a single leapfrog step crosses the target between eps and 1.5 eps."""
    acc, slack = {}, {}
    for k in range(lo, hi + 1):
        tr = mc.Transition(tgt, q, p, e0 * 1.5 ** k, 1, mass)
        vague = tr.sensitive | tr.edge
        acc[k] = float(np.mean(tr.acc))
        slack[k] = 2e-3 + float(np.mean(np.where(vague, 1., tr.tol_a)))
    out = []
    for k in range(lo, hi):
        above = acc[k] >= delta - slack[k]
        below = acc[k + 1] < delta + slack[k + 1]
        if below and (above or k < 0):
            out.append(e0 * 1.5 ** k)
    return out


def run(case):
    import tensorflow as tf
    import zhusuan as zs
    tgt = mc.Target(case['tgt'])
    labels = ['mode ' + case['mode'], 'latents %d' % len(tgt.names),
              'chain rank %d' % len(tgt.chain)]
    nj = 0
    n_rej = n_acc = 0
    with fresh_graph(case['tseed']) as g:
        sess = session(g, threads=case['threads'])
        hmc, latent, op, info, feeds = make(tf, zs, case, tgt)
        lv = [sched.peek(tf, latent[n]) for n in tgt.names]
        eps = np.float32(case['eps'])
        tuner = Tuner(case) if case['mode'] != 'none' else None
        use_mass = case['mode'] in ('mass', 'constmass')
        collect = (10 if case.get('collect') is None else case['collect']) \
            if use_mass else 0
        mm = MassModel(tgt, .99 if case.get('decay') is None
                       else case['decay']) if use_mass else None
        fetch = {'op': op, 's': [info.samples[n] for n in tgt.names],
                 'acc': info.acceptance_rate, 'eps': info.updated_step_size,
                 'p': [info.init_momentum[n] for n in tgt.names],
                 'h0': info.orig_hamiltonian, 'h1': info.hamiltonian,
                 'lp0': info.orig_log_prob, 'lp1': info.log_prob}
        init = tf.global_variables_initializer()
        stored = None
        if isinstance(getattr(hmc, 'step_size', None), tf.Variable):
            stored = sched.peek(tf, hmc.step_size)
        saver = sched.Checkpoint(tf) if case.get('restart') else None
        if case.get('sched') is not None:
            sched.impose(fetch, [init, lv, [] if stored is None else stored,
                                 (saver.read + saver.write) if saver else []],
                         case['sched'])
            labels.append('imposed order')
        sess.run(init)
        for it in range(case['iters']):
            ctx = '(iteration %d)' % (it + 1)
            if saver and it == case['restart']:
                # the process goes away and comes back from a checkpoint
                sess = saver.move(sess, session(g, threads=case['threads']))
                labels.append('restarted')
            fd = {}
            ss = tuner is not None
            ms = use_mass
            if 'ss' in feeds:
                ss = fd[feeds['ss']] = case['ss'][it]
            if 'ms' in feeds:
                ms = fd[feeds['ms']] = case['ms'][it]
            if 'L' in feeds:
                fd[feeds['L']] = case['L']
            before = sess.run(lv)
            r = sess.run(fetch, fd)
            after = sess.run(lv)
            for a, s in zip(after, r['s']):
                require(np.array_equal(a, s, equal_nan=True),
                        'info.samples differ from the stored samples %s', ctx)
            if ms:
                mm.see(before)
            t = it + 1
            ones = [np.ones((1,) * len(tgt.chain) + d) for d in tgt.data]
            mass = mm.mass() if use_mass and t >= collect else ones
            fresh = ss and (t == 1 or (use_mass and t == collect))
            p = r['p']
            for k in range(len(p)):
                require(p[k].shape == before[k].shape, 'momentum shape %s',
                        p[k].shape)
            if not all(np.isfinite(x).all() for x in p):
                require(use_mass and t >= collect,
                        'momentum is not finite %s', ctx)
                return Info(False, labels + ['degenerate mass'])
            # bookkeeping at the start
            lp0 = tgt.logp(before)
            k0 = mc.kinetic(p, mass, tgt)
            close(r['lp0'], lp0, 3e-5 * (1 + np.abs(lp0)) + 30 * np.abs(
                lp0 - tgt.logp(before, np.float32)), 'orig_log_prob', ctx)
            mt = 2e-3 if use_mass else 3e-5
            close(r['h0'], -lp0 + k0, 3e-5 * (1 + np.abs(lp0)) +
                  mt * (1 + k0), 'orig_hamiltonian', ctx)
            acc = r['acc']
            require(acc.shape == tgt.chain and (acc >= 0).all() and
                    (acc <= 1).all(), 'acceptance rate %r %s', acc, ctx)
            # candidates for the step size of this iteration
            cand = [float(eps)]
            if fresh:
                cand = search(tgt, before, p, float(eps), mass, tuner.delta)
                labels.append('step size searched')
            err = Violation('the initial step size search crossed nothing')
            first = True
            for e in cand:
                tr = mc.Transition(tgt, before, p, e, case['L'], mass)
                if use_mass and t >= collect:
                    tr2 = mc.Transition(tgt, before, p, e, case['L'],
                                        [m * (1 + 3e-4) for m in mass])
                    with np.errstate(all='ignore'):
                        for k in range(len(p)):
                            tr.tol_q[k] = tr.tol_q[k] + 5 * np.abs(
                                tr.prop[k] - tr2.prop[k])
                        tr.tol_a = tr.tol_a + 5 * np.abs(tr.acc - tr2.acc)
                        tr.tol_d = tr.tol_d + 5 * np.abs(tr.dH - tr2.dH)
                    tr.sensitive |= ~(tr.tol_a < .05)
                    for k in range(len(p)):
                        b = ~(tr.tol_q[k] < .05 * (1 + np.abs(tr.prop[k])))
                        tr.sensitive |= b.any(tgt.axes(k))
                try:
                    ok, stay, move = match(tgt, tr, before, after, acc, ctx)
                    # hamiltonian: that of the end point (proposed or kept)
                    with np.errstate(all='ignore'):
                        hp = -tr.lp1 + tr.k1
                        tolh = 10 * tr.tol_a + tr.tol_lp1 + 1e-4 * (
                            1 + np.abs(tr.lp1) + np.abs(tr.k1)) + mt * tr.k1
                        fine = ~ok | ~np.isfinite(hp) | (np.abs(
                            r['h1'] - hp) <= tolh) | (stay & (np.abs(
                                r['h1'] - r['h0']) <= 1e-4 * (1 + np.abs(r['h0']))))
                        # huge Hamiltonians say no more than that they are huge
                        fine |= np.abs(tr.dH) > 30
                    require(fine.all(), 'hamiltonian %r, expected %r %s', r['h1'],
                            hp, ctx)
                    err = None
                    break
                except Violation as v:
                    if first:
                        err, first = v, False
            if err is not None:
                raise err
            nj += int(ok.sum())
            n_rej += int((ok & stay & ~move).sum())
            n_acc += int((ok & move & ~stay).sum())
            # log_prob belongs to the stored samples
            la = tgt.logp(after)
            close(r['lp1'], la, 5e-5 * (1 + np.abs(la)) + 30 * np.abs(
                la - tgt.logp(after, np.float32)), 'log_prob', ctx)
            # step size
            if tuner is None:
                require(r['eps'] == eps, 'step size changed to %r', r['eps'])
            else:
                tuner.step(ss, fresh, float(np.mean(acc, dtype=np.float64)),
                           r['eps'], ctx)
            eps = r['eps']
            require(np.isfinite(eps) and eps > 0, 'step size %r %s', eps, ctx)
            if stored is not None:
                require(sess.run(stored) == eps, 'stored step size')
        sess.close()
    if n_rej:
        labels.append('rejections')
    if case.get('omit'):
        labels.append('default step_size / n_leapfrogs')
    if case.get('long'):
        labels.append('long history')
    if n_acc:
        labels.append('acceptances')
    if case['mode'] in ('mass', 'constmass') and case['iters'] >= collect:
        labels.append('adapted mass used')
    if case['tgt']['meta']:
        labels.append('meta net')
    return Info(nj > 0 and n_acc + n_rej > 0, labels)


@st.composite
def law_case(draw, mass):
    lat = st.fixed_dictionaries({
        'data': st.sampled_from([[], [2], [1, 3], [4], [2, 1, 2]]),
        'kind': st.sampled_from(['gauss', 'gauss', 'logistic', 'student'])})
    c = {'tgt': {'chain': draw(st.sampled_from([[400], [20, 20], [7, 60]])),
                 'meta': False, 'couple': draw(st.sampled_from([0., .5])),
                 'lat': draw(st.lists(lat, min_size=1, max_size=2)),
                 'seed': draw(st.integers(0, 2 ** 31 - 1))},
         'mode': 'none', 'eps': draw(st.sampled_from([.9, 1.2, 1.5])),
         'L': draw(st.sampled_from([1, 2, 3])), 'L_ph': False, 'iters': 4,
         'tseed': draw(st.integers(0, 10 ** 6))}
    if mass:
        c.update({'mode': 'constmass', 'eps': draw(
                  st.sampled_from([.03, .05])), 'gamma': 1., 't0': 1, 'kappa': None,
                  'delta': draw(st.sampled_from([.5, .7])),
                  'collect': draw(st.sampled_from([2, 3])), 'decay': draw(
                      st.sampled_from([.5, .9]))})
    return c


def zscore(v):
    return float(np.mean(v) * np.sqrt(v.size))


def law(case):
    """momenta are fresh N(0, mass) draws and acceptance is a fresh uniform
    per chain."""
    import tensorflow as tf
    import zhusuan as zs
    from scipy import stats
    tgt = mc.Target(case['tgt'])
    P, Q, A, D = [], [], [], []
    with fresh_graph(case['tseed']) as g, session(g) as sess:
        hmc, latent, op, info, feeds = make(tf, zs, case, tgt)
        sess.run(tf.global_variables_initializer())
        lv = [latent[n] for n in tgt.names]
        use_mass = case['mode'] == 'constmass'
        mm = MassModel(tgt, case.get('decay', 0))
        for it in range(case['iters']):
            before = sess.run(lv)
            _, p, acc = sess.run(
                [op, [info.init_momentum[n] for n in tgt.names],
                 info.acceptance_rate])
            after = sess.run(lv)
            if use_mass:
                mm.see(before)
            mass = mm.mass() if use_mass and it + 1 >= case['collect'] else \
                [np.ones((1,) * len(tgt.chain) + d) for d in tgt.data]
            P.append([x / np.sqrt(m) for x, m in zip(p, mass)])
            Q.append([(b - b.mean()) / (b.std() + 1e-9) for b in before])
            moved = np.zeros(tgt.chain, bool)
            for k in range(len(before)):
                moved |= (before[k] != after[k]).reshape(
                    tgt.chain + (-1,)).any(-1)
            A.append(acc)
            D.append(moved)
    n = int(np.prod(tgt.chain))
    for it in range(case['iters']):
        for k in range(len(tgt.names)):
            x = P[it][k].reshape(-1)
            ks = stats.kstest(x, 'norm').statistic * np.sqrt(x.size)
            require(ks < 4, 'momentum of iteration %d is not N(0, mass): KS '
                    '%.2f, mean %.3f, std %.3f', it + 1, ks, x.mean(),
                    x.std())
            cols = P[it][k].reshape(n, -1)
            for name, other in (
                    [('position', Q[it][k].reshape(n, -1))] +
                    ([('the previous momentum', P[it - 1][k].reshape(n, -1))]
                     if it else []) +
                    [('another coordinate', np.roll(cols, 1, 1))] *
                    (cols.shape[1] > 1) +
                    [('another chain', np.roll(P[it][k], 1, a).reshape(n, -1))
                     for a in range(len(tgt.chain))] +
                    ([('another latent', P[it][k - 1].reshape(n, -1)[:, :1] *
                       np.ones_like(cols))] if k else [])):
                for j in range(cols.shape[1]):
                    z = zscore(cols[:, j] * other[:, j])
                    require(abs(z) < 7.5, 'momentum is correlated with %s: '
                            'z = %.1f', name, z)
    a, d = np.stack(A).reshape(-1), np.stack(D).reshape(-1)
    judged = 0
    for lo in (0., .2, .4, .6, .8):
        s = (a > lo) & (a <= lo + .2) & (a < 1)
        var = np.sum(a[s] * (1 - a[s]))
        if var < 25:
            continue
        judged += 1
        z = (d[s].sum() - a[s].sum()) / np.sqrt(var)
        require(abs(z) < 6.5, 'acceptance rate in (%.1f, %.1f]: %d of %d '
                'accepted, expected %.1f (z = %.1f)', lo, lo + .2, d[s].sum(),
                s.sum(), a[s].sum(), z)
    # decisions of different chains / iterations are independent
    r = (d - a) / np.sqrt(np.maximum(a * (1 - a), 1e-9))
    s = (a > .1) & (a < .9)
    R = np.where(s, np.clip(r, -3, 3), 0).reshape(
        (case['iters'],) + tgt.chain)
    for nm, x, y in [('chains', R, np.roll(R, 1, a + 1))
                     for a in range(len(tgt.chain))] + [
                         ('iterations', R[1:], R[:-1])]:
        v = (x * y)[(x != 0) & (y != 0)]
        if v.size > 100:
            z = v.mean() / (v.std() + 1e-9) * np.sqrt(v.size)
            require(abs(z) < 8, 'acceptance decisions of neighbouring %s '
                    'depend on each other: z = %.1f', nm, z)
    return Info(judged > 0 or case['mode'] == 'constmass',
                ['judged acceptance bins %d' % judged])
